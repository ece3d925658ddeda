"""Walker and Identity: values that were never assigned are never readable."""
import z3
from contract import Contract
from terms import *

CONTRACTS = []
RE = "std::runtime_error"
UNASSIGNED = z3.IntVal(-2147483648)


def C(name, **kw):
    kw.setdefault("tags", ["C09"])
    CONTRACTS.append(Contract("mythical::" + name, **kw))


C("Walker::Walker()", ensures=lambda c: [("nothing assigned", z3.And(c.new.current_site_ == UNASSIGNED, c.new.potential_site_ == UNASSIGNED))])
C("Walker::getIdOfSiteCurrentlyOccupying()const", throws=lambda c: [(RE, c.this.current_site_ == UNASSIGNED)], returns=lambda c: c.this.current_site_)
C("Walker::getPotentialSite()const", throws=lambda c: [(RE, c.this.potential_site_ == UNASSIGNED)], returns=lambda c: c.this.potential_site_)
C("Walker::occupySite(const int &)", updates=lambda c: {"this.current_site_": c.a(0)})
C("Walker::setPotentialSite(const int &)", updates=lambda c: {"this.potential_site_": c.a(0)})
C("Walker::setDwellTime(const double &)", updates=lambda c: {"this.dwell_time_": c.a(0)})
C("Walker::getDwellTime()const", returns=lambda c: c.this.dwell_time_)
C("Identity::Identity()", ensures=lambda c: [("no id yet", Not(c.new.id_set_))])
C("Identity::getId()const", throws=lambda c: [(RE, Not(c.this.id_set_))], returns=lambda c: c.this.id_)
C("Identity::setId(int)", updates=lambda c: {"this.id_": c.a(0), "this.id_set_": z3.BoolVal(True)})
