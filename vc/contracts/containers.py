"""Rate_Container and Site_Container."""
import z3
from contract import Contract, Lemma
from terms import *
from contract import cforall as forall
from prover import exists, ENUM
from contracts import site as sitec

CONTRACTS = []
Q = "mythical::Rate_Container::"
P = "mythical::Site_Container::"
IA, RE = "std::invalid_argument", "std::runtime_error"
x, y, j, k = z3.Ints("rc!x rc!y rc!j rc!k")
RM = "std::unordered_map<int, std::unordered_map<int, double *>>"


def C(name, **kw):
    CONTRACTS.append(Contract(name, **kw))


# ------------------------------------------------------------------ rates
def in2(m, a, b):
    return z3.And(m.has(a), m.at(a).has(b))


def v2(m, a, b):
    return m.at(a).at(b)


def same_rates(n, o):
    return [("same rates", forall([x, y], z3.And(in2(n, x, y) == in2(o, x, y), Implies(in2(o, x, y), v2(n, x, y) == v2(o, x, y)))))]


C(Q + "Rate_Container()", ensures=lambda c: [("no rates", forall([x], Not(c.new.rates_.has(x))))], tags=["C21"])
C(Q + "Rate_Container(%s)" % RM, ensures=lambda c: same_rates(c.new.rates_, c.a(0)) +
  [("same sites", forall([x], c.new.rates_.has(x) == c.a(0).has(x)))], tags=["C21"])


def add1(c):
    n, o, s, t = c.new.rates_, c.this.rates_, c.a(0), c.a(1)
    return [("the site is known", forall([x], n.has(x) == z3.Or(o.has(x), x == s))),
            ("exactly one rate more", forall([x, y], in2(n, x, y) == z3.Or(in2(o, x, y), z3.And(x == s, y == t)))),
            ("its value", v2(n, s, t) == c.a(2)),
            ("other rates kept", forall([x, y], Implies(in2(o, x, y), v2(n, x, y) == v2(o, x, y))))]


C(Q + "addRate(int,int,double *)", modifies=["this.rates_"], throws=lambda c: [(IA, in2(c.this.rates_, c.a(0), c.a(1)))], ensures=add1, tags=["C21"])


def addn(c):
    n, o, a = c.new.rates_, c.this.rates_, c.a(0)
    return [("the union of the rates", forall([x, y], in2(n, x, y) == z3.Or(in2(o, x, y), in2(a, x, y)))),
            ("rates kept", forall([x, y], Implies(in2(o, x, y), v2(n, x, y) == v2(o, x, y)))),
            ("given values", forall([x, y], Implies(in2(a, x, y), v2(n, x, y) == v2(a, x, y)))),
            ("a rate given twice is rejected", forall([x, y], Not(z3.And(in2(o, x, y), in2(a, x, y)))))]


C(Q + "addRates(%s)" % RM, modifies=["this.rates_"], throw_frame=False, force_inline=[Q + "addRate(int,int,double *)"],
  throws=lambda c: [(IA, exists([x, y], z3.And(in2(c.this.rates_, x, y), in2(c.a(0), x, y))))], ensures=addn, tags=["C21"])
C(Q + "getRate(int,int)", throws=lambda c: [(IA, Not(in2(c.this.rates_, c.a(0), c.a(1))))], returns=lambda c: v2(c.this.rates_, c.a(0), c.a(1)), tags=["C21"])
C(Q + "incomingRateCount(int)", ensures=lambda c: [("number of sites with a rate to it", c.res == CARD(lam(x, in2(c.this.rates_, x, c.a(0)))))], tags=["C21"])
C(Q + "outgoingRateCount(int)", ensures=lambda c: [("number of its rates", c.res == z3.If(c.this.rates_.has(c.a(0)), CARD(c.this.rates_.at(c.a(0)).dom), 0))], tags=["C21"])
C(Q + "getIncomingRates(int)", ensures=lambda c: [
    ("exactly the rates to the site", forall([x, y], in2(c.res, x, y) == z3.And(in2(c.this.rates_, x, y), y == c.a(0)))),
    ("only sites with such a rate", forall([x], c.res.has(x) == in2(c.this.rates_, x, c.a(0)))),
    ("their values", forall([x, y], Implies(in2(c.res, x, y), v2(c.res, x, y) == v2(c.this.rates_, x, y))))], tags=["C21"])
C(Q + "getOutgoingRates(int)", ensures=lambda c: [
    ("exactly the rates off the site", forall([x, y], in2(c.res, x, y) == z3.And(in2(c.this.rates_, x, y), x == c.a(0)))),
    ("only that site", forall([x], c.res.has(x) == z3.And(x == c.a(0), c.this.rates_.has(x)))),
    ("their values", forall([x, y], Implies(in2(c.res, x, y), v2(c.res, x, y) == v2(c.this.rates_, x, y))))], tags=["C21"])


def listed(v, cond):
    """the vector lists exactly the ids satisfying cond, each once"""
    return [("listed ids qualify", forall([j], Implies(z3.And(0 <= j, j < v.len), cond(sel(v.ids, j))))),
            ("no id twice", forall([j, k], Implies(z3.And(0 <= j, j < k, k < v.len), sel(v.ids, j) != sel(v.ids, k)))),
            ("every qualifying id is listed", forall([x], Implies(cond(x), exists([j], z3.And(0 <= j, j < v.len, sel(v.ids, j) == x)))))]


def incoming(m, s):
    t = z3.Int("rc!in")
    return exists([t], in2(m, t, s))


C(Q + "getSourceSiteIds()", ensures=lambda c: listed(c.res, lambda s: z3.And(c.this.rates_.has(s), Not(incoming(c.this.rates_, s)))), tags=["C21"])
C(Q + "getSinkSiteIds()", ensures=lambda c: listed(c.res, lambda s: z3.And(incoming(c.this.rates_, s), Not(c.this.rates_.has(s)))), tags=["C21"])

# ------------------------------------------------------------------ sites
UNASSIGNED = z3.IntVal(-2147483648)


def same_site(a, b):
    return And([Eq(u, v) for u, v in zip(a.leaves, b.leaves)])


def stored(c, i=0):
    return c.this.sites_.has(c.a(i))


def unknown(c):
    return [(IA, Not(stored(c)))]


def others_kept(c, i=0):
    n, o = c.new.sites_, c.this.sites_
    return [("the same sites are stored", forall([x], n.has(x) == o.has(x))),
            ("other sites untouched", forall([x], Implies(z3.And(o.has(x), x != c.a(i)), same_site(n.at(x), o.at(x)))))]


def only(c, *fields):
    """of the addressed site only the named fields may differ"""
    n, o = c.new.sites_.at(c.a(0)), c.this.sites_.at(c.a(0))
    skip = set()
    for f in fields:
        off, cnt, t = n._l.field(n.ty, f)
        skip |= set(range(off, off + cnt))
    return [("nothing else of the site changes", And([Eq(a, b) for i, (a, b) in enumerate(zip(n.leaves, o.leaves)) if i not in skip]))]


def S(name, **kw):
    kw.setdefault("tags", ["C22"])
    C(P + name, **kw)


S("Site_Container()", ensures=lambda c: [("empty", forall([x], Not(c.new.sites_.has(x))))])
S("addSite(mythical::Site &)", modifies=["this.sites_"],
  throws=lambda c: [(RE, Not(c.a(0).id_set_)), (IA, z3.And(c.a(0).id_set_, c.this.sites_.has(c.a(0).id_)))],
  ensures=lambda c: [("exactly one site more", forall([x], c.new.sites_.has(x) == z3.Or(c.this.sites_.has(x), x == c.a(0).id_))),
                     ("stored as given", same_site(c.new.sites_.at(c.a(0).id_), c.a(0))),
                     ("other sites untouched", forall([x], Implies(c.this.sites_.has(x), same_site(c.new.sites_.at(x), c.this.sites_.at(x)))))])


def vsite(v, i):
    return v.at(i)


def adds(c):
    n, o, v = c.new.sites_, c.this.sites_, c.a(0)
    return [("given sites stored", forall([j], Implies(z3.And(0 <= j, j < v.len), z3.And(n.has(v.at(j).id_), same_site(n.at(v.at(j).id_), v.at(j)))))),
            ("nothing else is added", forall([x], Implies(z3.And(n.has(x), Not(o.has(x))), exists([j], z3.And(0 <= j, j < v.len, v.at(j).id_ == x))))),
            ("sites kept", forall([x], Implies(o.has(x), z3.And(n.has(x), same_site(n.at(x), o.at(x)))))),
            ("stored sites are not added again", forall([j], Implies(z3.And(0 <= j, j < v.len), Not(o.has(v.at(j).id_)))))]


S("addSites(std::vector<mythical::Site> &)", force_inline=[P + "addSite(mythical::Site &)"], modifies=["this.sites_"], throw_frame=False,
  throws=lambda c: [(RE, exists([j], z3.And(0 <= j, j < c.a(0).len, Not(c.a(0).at(j).id_set_)))),
                    (IA, z3.Or(exists([j], z3.And(0 <= j, j < c.a(0).len, c.this.sites_.has(c.a(0).at(j).id_))),
                               exists([j, k], z3.And(0 <= j, j < k, k < c.a(0).len, c.a(0).at(j).id_ == c.a(0).at(k).id_))))],
  ensures=adds)
S("getSite(const int &)", throws=unknown, resref=("this.sites_", lambda c: c.a(0)))
S("getSites(std::vector<int>)",
  throws=lambda c: [(IA, exists([j], z3.And(0 <= j, j < c.a(0).len, Not(c.this.sites_.has(sel(c.a(0).val, j))))))],
  ensures=lambda c: [("exactly the requested sites", forall([x], c.res.has(x) == exists([j], z3.And(0 <= j, j < c.a(0).len, sel(c.a(0).val, j) == x)))),
                     ("as stored", forall([x], Implies(c.res.has(x), same_site(c.res.at(x), c.this.sites_.at(x)))))])
S("getSites()", ensures=lambda c: [("all sites", forall([x], c.res.has(x) == c.this.sites_.has(x))),
                                   ("as stored", forall([x], Implies(c.res.has(x), same_site(c.res.at(x), c.this.sites_.at(x)))))])
S("size()const", returns=lambda c: CARD(c.this.sites_.dom))
S("exist(const int &)const", returns=lambda c: stored(c))
S("setClusterId(int,int)", throws=unknown, modifies=["this.sites_"],
  ensures=lambda c: others_kept(c) + only(c, "cluster_id_") + [("set", c.new.sites_.at(c.a(0)).cluster_id_ == c.a(1))])
S("getClusterIdOfSite(int)", throws=unknown, returns=lambda c: c.this.sites_.at(c.a(0)).cluster_id_)
S("partOfCluster(int)", throws=unknown, returns=lambda c: c.this.sites_.at(c.a(0)).cluster_id_ > -1)


def smallest(c):
    v, m = c.a(0), c.this.sites_
    cl = lambda i: m.at(sel(v.val, i)).cluster_id_
    dom = lambda i: z3.And(0 <= i, i < v.len)
    return [("no assigned cluster id is smaller", forall([j], Implies(z3.And(dom(j), cl(j) != UNASSIGNED), z3.And(c.res != UNASSIGNED, c.res <= cl(j))))),
            ("is the cluster id of one of the sites, or unassigned", z3.Or(c.res == UNASSIGNED, exists([j], z3.And(dom(j), cl(j) == c.res))))]


S("getSmallestClusterId(std::vector<int>)",
  requires=lambda c: [("ids are ints", forall([x], c.this.sites_.at(x).cluster_id_ >= UNASSIGNED))],
  throws=lambda c: [(IA, exists([j], z3.And(0 <= j, j < c.a(0).len, Not(c.this.sites_.has(sel(c.a(0).val, j))))))], ensures=smallest)


def code(c):
    return Implies(stored(c), c.eng.ctor_code(c.this.sites_.at(c.a(0))))


REQ = lambda c: [("behaviour selected by the constructor", code(c))]
S("isOccupied(const int &)", requires=REQ, throws=unknown, returns=lambda c: c.this.sites_.at(c.a(0)).occupied_ > 0)
S("vacate(const int &)", requires=REQ, throws=unknown, modifies=["this.sites_"],
  ensures=lambda c: others_kept(c) + only(c, "occupied_") + [("one walker less", c.new.sites_.at(c.a(0)).occupied_ == c.this.sites_.at(c.a(0)).occupied_ - 1)])
S("occupy(const int &)", requires=REQ, throws=unknown, modifies=["this.sites_"],
  ensures=lambda c: others_kept(c) + only(c, "occupied_", "total_visit_freq_") +
  [("one walker more", c.new.sites_.at(c.a(0)).occupied_ == c.this.sites_.at(c.a(0)).occupied_ + 1),
   ("one visit more", c.new.sites_.at(c.a(0)).total_visit_freq_ == c.this.sites_.at(c.a(0)).total_visit_freq_ + 1)])
S("getSiteIds()", ensures=lambda c: [("every stored site once", ENUM(c.res.ids, c.res.len, c.this.sites_.dom))])
S("getDwellTime(int)", requires=lambda c: [("unit random numbers", Implies(stored(c), sitec.uniform(c.this.sites_.at(c.a(0)))[1]))],
  throws=unknown, modifies=["this.sites_"],
  ensures=lambda c: others_kept(c) + only(c, "random_engine_") +
  [("drawn from the site's law", c.res == -LOG(DRAW(c.this.sites_.at(c.a(0)).random_engine_.leaves[0])) * c.this.sites_.at(c.a(0)).escape_time_constant_)])
S("getTimeConstant(int)", throws=unknown, returns=lambda c: c.this.sites_.at(c.a(0)).escape_time_constant_)
S("getRates()", ensures=lambda c: [("every stored site", forall([x], c.res.has(x) == c.this.sites_.has(x))),
                                   ("its rates", forall([x, y], Implies(c.this.sites_.has(x), z3.And(
                                       c.res.at(x).has(y) == c.this.sites_.at(x).neighRates_.has(y),
                                       Implies(c.res.at(x).has(y), c.res.at(x).at(y) == c.this.sites_.at(x).neighRates_.at(y))))))])


def nb(c):
    return c.this.sites_.at(c.a(0)).neighRates_


S("getFastestRateOffSite(int)", throws=unknown,
  requires=lambda c: [("rates are positive", Implies(stored(c), sitec.positive(nb(c), c.heap)))],
  ensures=lambda c: [("no rate off the site is faster", forall([x], Implies(nb(c).has(x), sitec.rate(nb(c), c.heap, x) <= c.res))),
                     ("is one of the rates, or zero without neighbors",
                      z3.Or(exists([x], z3.And(nb(c).has(x), c.res == sitec.rate(nb(c), c.heap, x))), z3.And(c.res == 0, CARD(nb(c).dom) == 0)))])
S("getRateToNeighborOfSite(int,int)", throws=unknown, aborts=lambda c: [("not a neighbor", Not(nb(c).has(c.a(1))))],
  ensures=lambda c: [("a neighbor", nb(c).has(c.a(1))), ("its rate", c.res == sitec.rate(nb(c), c.heap, c.a(1)))])
S("getSiteIdsOfNeighbors(int)", throws=unknown, ensures=lambda c: [("every neighbor once", ENUM(c.res.ids, c.res.len, nb(c).dom))])
