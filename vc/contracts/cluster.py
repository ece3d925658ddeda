"""Cluster: membership, occupancy, master equation, exit and internal distributions, time constants, dwell times, visits."""
import z3
from contract import Contract, Lemma, serving
from terms import *
from contract import cforall as forall
from prover import exists, ENUM
from contracts import site as sitec

CONTRACTS = []
LEMMAS = []
Q = "mythical::Cluster::"
T = "mythical::TopologyFeature::"
CL = "mythical::Cluster"
x, y, j, k = z3.Ints("cl!x cl!y cl!j cl!k")


def C(name, **kw):
    kw.setdefault("modular", True)
    CONTRACTS.append(Contract(name if name.startswith("mythical::") else Q + name, **kw))


# ------------------------------------------------------------------ vocabulary
def same(a, b):
    return And([Eq(p, q) for p, q in zip(a.leaves, b.leaves)])


def mem(t):
    return t.sitesInCluster_


def nb(t, s):
    return t.sitesInCluster_.at(s).neighRates_


def rt(t, heap, s, n):
    return sitec.rate(nb(t, s), heap, n)


def member(t, s):
    return t.sitesInCluster_.has(s)


def only(new, old, *fields):
    skip = set()
    for f in fields:
        off, cnt, t = new._l.field(new.ty, f)
        skip |= set(range(off, off + cnt))
    return And([Eq(a, b) for i, (a, b) in enumerate(zip(new.leaves, old.leaves)) if i not in skip])


def code(c, t):
    return ("behaviour selected by the constructor", c.eng.ctor_code(t))


def member_code(c, t):
    return ("members behave as sites", forall([x], Implies(member(t, x), c.eng.ctor_code(mem(t).at(x)))))


def others_same(c, s):
    n, o = mem(c.new), mem(c.this)
    return [("the same members", forall([x], n.has(x) == o.has(x))),
            ("other members untouched", forall([x], Implies(z3.And(o.has(x), x != s), same(n.at(x), o.at(x)))))]


# ------------------------------------------------------------------ construction and membership
def issued(c):
    """the id comes from a counter that only ever grows: it lies between the old and the new value of some global"""
    return Or([z3.And(a <= c.new.id_, c.new.id_ < b) for a, b in c.changed_globals()])


C("Cluster()", ensures=lambda c: [
    ("not occupied", c.new.occupied_ == 0), ("never visited", z3.And(c.new.total_visit_freq_ == 0, c.new.prev_total_visit_freq_ == 0)),
    ("no members", forall([x], Not(member(c.new, x)))), ("has an id", c.new.id_set_),
    ("no walkers", forall([x], Not(c.new.remaining_walker_dwell_times_.has(x)))),
    ("resolution at least two", c.new.resolution_ >= 2),
    ("an id never given before", issued(c)),
    sitec.uniform(c.new), code(c, c.new)], modifies=["g:"], tags=["C14", "C18", "C19"])

C("addSite(mythical::Site &)", modifies=["this.sitesInCluster_", "arg0.cluster_id_"],
  requires=lambda c: [("the cluster has an id", c.this.id_set_), ("the site has an id", c.a(0).id_set_)],
  aborts=lambda c: [("already a member", member(c.this, c.a(0).id_))],
  ensures=lambda c: [("a member twice is refused", Not(member(c.this, c.a(0).id_))),
                     ("exactly one member more", forall([x], member(c.new, x) == z3.Or(member(c.this, x), x == c.a(0).id_))),
                     ("marked with the cluster's id", c.na(0).cluster_id_ == c.this.id_),
                     ("stored as marked", same(mem(c.new).at(c.a(0).id_), c.na(0))),
                     ("other members untouched", forall([x], Implies(member(c.this, x), same(mem(c.new).at(x), mem(c.this).at(x)))))],
  tags=["C19"])
C("siteIsInCluster(int)const", returns=lambda c: member(c.this, c.a(0)), tags=["C19"])
C("getNumberOfSitesInCluster()const", returns=lambda c: CARD(mem(c.this).dom), tags=["C19"])
C("getSiteIdsInCluster()const", ensures=lambda c: [("every member once", ENUM(c.res.ids, c.res.len, mem(c.this).dom))], tags=["C19"])
C("getSitesInCluster()const", ensures=lambda c: [
    ("as many as members", c.res.len == CARD(mem(c.this).dom)),
    ("each is a member", forall([j], Implies(z3.And(0 <= j, j < c.res.len), exists([x], z3.And(member(c.this, x), same(c.res.at(j), mem(c.this).at(x))))))),
    ("each member occurs", forall([x], Implies(member(c.this, x), exists([j], z3.And(0 <= j, j < c.res.len, same(c.res.at(j), mem(c.this).at(x)))))))],
  tags=["C19"])

# ------------------------------------------------------------------ occupancy
OCC = lambda c: [code(c, c.this), member_code(c, c.this)]
C(T + "occupy(const int &)", this=CL, requires=lambda c: OCC(c) + [("a member with a visit count", z3.And(member(c.this, c.a(0)), c.this.site_visits_.has(c.a(0))))],
  modifies=["this.sitesInCluster_", "this.total_visit_freq_"],
  ensures=lambda c: others_same(c, c.a(0)) + [
      ("occupied", mem(c.new).at(c.a(0)).occupied_ > 0),
      ("nothing else of the member changes", only(mem(c.new).at(c.a(0)), mem(c.this).at(c.a(0)), "occupied_")),
      ("one visit of the cluster more", c.new.total_visit_freq_ == c.this.total_visit_freq_ + 1)], tags=["C14", "C20"])
C(T + "vacate(const int &)", this=CL, requires=lambda c: OCC(c) + [("a member", member(c.this, c.a(0)))],
  modifies=["this.sitesInCluster_", "this.occupied_"],
  ensures=lambda c: others_same(c, c.a(0)) + [
      ("one walker less", mem(c.new).at(c.a(0)).occupied_ == mem(c.this).at(c.a(0)).occupied_ - 1),
      ("nothing else of the member changes", only(mem(c.new).at(c.a(0)), mem(c.this).at(c.a(0)), "occupied_"))], tags=["C14"])
C(T + "isOccupied(const int &)", this=CL, requires=OCC, aborts=lambda c: [("not a member", Not(member(c.this, c.a(0))))],
  ensures=lambda c: [("a member", member(c.this, c.a(0))), ("answers for that member", c.res == (mem(c.this).at(c.a(0)).occupied_ > 0))], tags=["C14"])
C(T + "removeWalker(const int &,const int &)", this=CL, requires=lambda c: OCC(c) + [("a member", member(c.this, c.a(1)))],
  modifies=["this.sitesInCluster_", "this.occupied_", "this.remaining_walker_dwell_times_"],
  ensures=lambda c: others_same(c, c.a(1)) + [
      ("one walker less", mem(c.new).at(c.a(1)).occupied_ == mem(c.this).at(c.a(1)).occupied_ - 1),
      ("nothing else of the member changes", only(mem(c.new).at(c.a(1)), mem(c.this).at(c.a(1)), "occupied_")),
      ("the walker is forgotten", Not(c.new.remaining_walker_dwell_times_.has(c.a(0)))),
      ("other walkers are kept", forall([x], Implies(x != c.a(0), z3.And(
          c.new.remaining_walker_dwell_times_.has(x) == c.this.remaining_walker_dwell_times_.has(x),
          c.new.remaining_walker_dwell_times_.at(x) == c.this.remaining_walker_dwell_times_.at(x)))))], tags=["C14"])
C(T + "occupy()", this=CL, requires=lambda c: [code(c, c.this)],
  updates=lambda c: {"this.occupied_": c.this.occupied_ + 1, "this.total_visit_freq_": c.this.total_visit_freq_ + 1}, tags=["C14", "C23"])
C(T + "vacate()", this=CL, requires=lambda c: [code(c, c.this)], updates=lambda c: {"this.occupied_": c.this.occupied_ - 1}, tags=["C14", "C23"])
C(T + "isOccupied()", this=CL, requires=lambda c: [code(c, c.this)], returns=lambda c: c.this.occupied_ > 0, tags=["C14", "C23"])


# ------------------------------------------------------------------ resolution
def increment(t):
    return t.time_increment_ * t.resolution_ == t.escape_time_constant_


C("setResolution(double)", modifies=["this.resolution_", "this.time_increment_"], aborts=lambda c: [("too coarse", c.a(0) < 2)],
  ensures=lambda c: [("resolutions below two are refused", c.a(0) >= 2), ("set", c.new.resolution_ == c.a(0)),
                     ("time increment follows", increment(c.new))], tags=["C17"])
C("getResolution()const", returns=lambda c: c.this.resolution_, tags=["C17", "C23"])
C("getTimeIncrement()const", returns=lambda c: c.this.time_increment_, tags=["C17", "C23"])
C(T + "getTimeConstant()const", this=CL, returns=lambda c: c.this.escape_time_constant_, tags=["C17", "C23"])
C("setConvergenceTolerance(double)", modifies=["this.convergenceTolerance_"], aborts=lambda c: [("negative", c.a(0) < 0)],
  ensures=lambda c: [("negative values are refused", c.a(0) >= 0), ("set", c.new.convergenceTolerance_ == c.a(0))], tags=["C15"])
C("setConvergenceIterations(long)", modifies=["this.iterations_"], aborts=lambda c: [("not positive", c.a(0) <= 0)],
  ensures=lambda c: [("only positive values", c.a(0) > 0), ("set", c.new.iterations_ == c.a(0))], tags=["C15"])
C("getConvergenceTolerance()const", returns=lambda c: c.this.convergenceTolerance_, tags=["C15"])
C("getConvergenceIterations()const", returns=lambda c: c.this.iterations_, tags=["C15"])
C("setConvergenceMethod(mythical::Cluster::Method)", updates=lambda c: {"this.convergence_method_": c.a(0)}, tags=["C15"])


# ------------------------------------------------------------------ adding several sites
def addsites(c):
    n, o, v, w = mem(c.new), mem(c.this), c.a(0), c.na(0)
    inr = lambda i: z3.And(0 <= i, i < v.len)
    return [("given sites are members", forall([j], Implies(inr(j), n.has(v.at(j).id_)))),
            ("nothing else is added", forall([x], Implies(z3.And(n.has(x), Not(o.has(x))), exists([j], z3.And(inr(j), v.at(j).id_ == x))))),
            ("members are kept", forall([x], Implies(o.has(x), z3.And(n.has(x), same(n.at(x), o.at(x)))))),
            ("marked with the cluster's id", forall([j], Implies(inr(j), z3.And(w.at(j).cluster_id_ == c.this.id_, n.at(v.at(j).id_).cluster_id_ == c.this.id_)))),
            ("otherwise stored as given", forall([j], Implies(inr(j), z3.And(only(n.at(v.at(j).id_), v.at(j), "cluster_id_"), only(w.at(j), v.at(j), "cluster_id_"))))),
            ("as many as before", w.len == v.len),
            ("a member twice is refused", forall([j], Implies(inr(j), Not(o.has(v.at(j).id_)))))]


C("addSites(std::vector<mythical::Site> &)", modifies=["this.sitesInCluster_", "arg0"],
  requires=lambda c: [("the cluster has an id", c.this.id_set_), ("the sites have ids", forall([j], Implies(z3.And(0 <= j, j < c.a(0).len), c.a(0).at(j).id_set_)))],
  aborts=lambda c: [("already a member", exists([j], z3.And(0 <= j, j < c.a(0).len, member(c.this, c.a(0).at(j).id_)))),
                    ("given twice", exists([j, k], z3.And(0 <= j, j < k, k < c.a(0).len, c.a(0).at(j).id_ == c.a(0).at(k).id_)))],
  ensures=addsites, tags=["C19"])

# ------------------------------------------------------------------ dwell times and picks
def undef(c):
    """the value that marks a time constant as undefined"""
    return c.eng.constant("mythical::constants::unassigned_value")


def rem(t):
    return t.remaining_walker_dwell_times_


def other_walkers(c, w):
    return ("other walkers are not affected", forall([x], Implies(x != w, z3.And(rem(c.new).has(x) == rem(c.this).has(x), rem(c.new).at(x) == rem(c.this).at(x)))))


def piece(c):
    """hand out at most one time increment of what is left of the walker's dwell time"""
    w, o = c.a(0), rem(c.this)
    e0 = c.this.random_engine_.leaves[0]
    left = z3.If(o.has(w), o.at(w), -LOG(DRAW(e0)) * c.this.escape_time_constant_)
    return left


def dwell(c):
    w, o, n = c.a(0), rem(c.this), rem(c.new)
    e0, e1 = c.this.random_engine_.leaves[0], c.new.random_engine_.leaves[0]
    left, inc = piece(c), c.this.time_increment_
    return [("the walker is remembered", n.has(w)),
            ("a piece of one time increment, the last one the remainder", c.res == z3.If(left > inc, inc, left)),
            ("what is left is reduced by one time increment", n.at(w) == left - inc),
            ("pieces are positive", Implies(inc > 0, c.res > 0)),
            ("one random number for a new walker, none afterwards", e1 == z3.If(o.has(w), e0, NEXT(e0))),
            ("an undefined time constant is refused", c.this.escape_time_constant_ != undef(c)),
            other_walkers(c, w)]


C("getDwellTime(const int &)", modifies=["this.remaining_walker_dwell_times_", "this.random_engine_"], requires=lambda c: [sitec.uniform(c.this)],
  aborts=lambda c: [("undefined", c.this.escape_time_constant_ == undef(c)), ("used up", z3.And(piece(c) <= c.this.time_increment_, piece(c) <= 0))],
  ensures=dwell, tags=["C18"])
C("hopWithinCluster_(const int &)const", private=True, aborts=lambda c: [("unknown walker", Not(rem(c.this).has(c.a(0))))],
  ensures=lambda c: [("the walker has a dwell time", rem(c.this).has(c.a(0))), ("stays while time is left", c.res == (rem(c.this).at(c.a(0)) > 0))], tags=["C18"])


def inverse(v, u, res):
    """res is the entry of the cumulative list whose interval contains u"""
    return z3.Or(exists([j], z3.And(0 <= j, j < v.len, res == sel(v.ids, j), u < sel(v.snd, j),
                                    forall([k], Implies(z3.And(0 <= k, k < j), sel(v.snd, k) <= u)))),
                 z3.And(res == -1, forall([k], Implies(z3.And(0 <= k, k < v.len), sel(v.snd, k) <= u))))


def one_draw(c):
    return ("one fresh random number", c.new.random_engine_.leaves[0] == NEXT(c.this.random_engine_.leaves[0]))


def exitpick(c):
    u = DRAW(c.this.random_engine_.leaves[0])
    return [("exit whose cumulative interval contains the random number", inverse(c.this.cumulitive_probabilityHopToNeighbor_, u, c.res)),
            one_draw(c), ("the walker is forgotten", Not(rem(c.new).has(c.a(0)))), other_walkers(c, c.a(0))]


def inpick(c):
    u = DRAW(c.this.random_engine_.leaves[0])
    return [("member whose cumulative interval contains the random number", inverse(c.this.cumulitive_probabilityHopToInternalSite_, u, c.res)), one_draw(c)]


PICKMOD = ["this.remaining_walker_dwell_times_", "this.random_engine_"]
C("pickClusterNeighbor_(const int &)", private=True, modifies=PICKMOD, requires=lambda c: [sitec.uniform(c.this)], ensures=exitpick, tags=["C16", "C18"])
C("pickInternalSite_()", private=True, modifies=["this.random_engine_"], requires=lambda c: [sitec.uniform(c.this)], ensures=inpick, tags=["C16", "C18"])


def pick(c):
    u = DRAW(c.this.random_engine_.leaves[0])
    w = c.a(0)
    left = rem(c.this).at(w) > 0
    return [("a walker without dwell time is refused", rem(c.this).has(w)),
            ("while time is left a member is picked", Implies(left, inverse(c.this.cumulitive_probabilityHopToInternalSite_, u, c.res))),
            ("afterwards an exit is picked", Implies(Not(left), inverse(c.this.cumulitive_probabilityHopToNeighbor_, u, c.res))),
            ("the walker is kept while time is left", Implies(left, z3.And(rem(c.new).has(w), rem(c.new).at(w) == rem(c.this).at(w)))),
            ("and forgotten when it leaves", Implies(Not(left), Not(rem(c.new).has(w)))), one_draw(c), other_walkers(c, w)]


C("pickNewSiteId(const int &)", modifies=PICKMOD, requires=lambda c: [sitec.uniform(c.this)], aborts=lambda c: [("unknown walker", Not(rem(c.this).has(c.a(0))))],
  ensures=pick, tags=["C16", "C18"])


# ------------------------------------------------------------------ rates inside and off the cluster
def inside(t, s, n):
    return z3.And(member(t, s), nb(t, s).has(n), member(t, n))


def outward(t, s, n):
    return z3.And(member(t, s), nb(t, s).has(n), Not(member(t, n)))


def rates_of(c, which):
    m = c.res
    return [("only sites with such a rate", forall([x], m.has(x) == exists([y], which(c.this, x, y)))),
            ("exactly those rates", forall([x, y], z3.And(m.has(x), m.at(x).has(y)) == which(c.this, x, y))),
            ("their values", forall([x, y], Implies(which(c.this, x, y), m.at(x).at(y) == rt(c.this, c.heap, x, y))))]


C("getRatesToNeighborsOfCluster_()", private=True, ensures=lambda c: rates_of(c, outward), tags=["C16", "C17"])
C("getRatesBetweenInternalSites_()", private=True, ensures=lambda c: rates_of(c, inside), tags=["C15", "C17", "C20"])
C("getFastestRateOffCluster()", ensures=lambda c: [
    ("no rate off the cluster is faster", forall([x, y], Implies(outward(c.this, x, y), rt(c.this, c.heap, x, y) <= c.res))),
    ("is such a rate, or zero", z3.Or(c.res == 0, exists([x, y], z3.And(outward(c.this, x, y), c.res == rt(c.this, c.heap, x, y))))),
    ("not negative", c.res >= 0)], tags=["C17", "C23"])


# ------------------------------------------------------------------ master equation
def prob(t):
    return t.probabilityOnSite_


def tot(t, heap, s):
    """total rate off a member"""
    return sitec.total(nb(t, s), heap)


def hop(t, heap, s, n):
    """hop probability of member s to its neighbor n"""
    return rt(t, heap, s, n) / tot(t, heap, s)


def members_ok(c, t):
    """every member carries positive rates, their distribution and the matching time constant, and internal neighbors are mutual"""
    h = c.heap
    sv = lambda s: t.sitesInCluster_.at(s).probabilityHopToNeighbor_
    return [("rates of members are positive", forall([x, y], Implies(z3.And(member(t, x), nb(t, x).has(y)), rt(t, h, x, y) > 0))),
            ("members list their neighbors once", forall([x], Implies(member(t, x), ENUM(sv(x).ids, sv(x).len, nb(t, x).dom)))),
            ("with their share of the rate", forall([x, j], Implies(z3.And(member(t, x), 0 <= j, j < sv(x).len), sel(sv(x).snd, j) == hop(t, h, x, sel(sv(x).ids, j))))),
            ("total rates are positive", forall([x], Implies(member(t, x), tot(t, h, x) > 0))),
            ("time constants are one over the total rate", forall([x], Implies(member(t, x), mem(t).at(x).escape_time_constant_ * tot(t, h, x) == 1))),
            ("time constants are larger than the mark of an undefined one", forall([x], Implies(member(t, x), mem(t).at(x).escape_time_constant_ > undef(c)))),
            ("internal neighbors are mutual", forall([x, y], Implies(inside(t, x, y), nb(t, y).has(x)))),
            ("there are internal neighbors", exists([x, y], inside(t, x, y)))]


def psum(t):
    s = z3.Int("cl!ps")
    return mk_sum(s, prob(t).at(s), mem(t).dom)


def prob_ok(t):
    return [("exactly the members have a probability", forall([x], prob(t).has(x) == member(t, x))),
            ("probabilities are positive", forall([x], Implies(member(t, x), prob(t).at(x) > 0))),
            ("probabilities add up to one", psum(t) == 1)]


def inflow(t, heap, s):
    n = z3.Int("cl!in")
    return mk_sum(n, z3.If(member(t, n), hop(t, heap, n, s) * prob(t).at(n), z3.RealVal(0)), nb(t, s).dom)


def all_inflow(t, heap):
    s = z3.Int("cl!ai")
    return mk_sum(s, inflow(t, heap, s), mem(t).dom)


def sweep_hints(c):
    t, h = c.this, c.heap
    s = z3.Int("cl!sh")
    out = lambda q: (prob(t).at(q) / tot(t, h, q)) * tot(t, h, q)
    return [("a member loses what it has", forall([x], Implies(member(t, x), out(x) == prob(t).at(x)))),
            ("members together lose what they have", mk_sum(s, out(s), mem(t).dom) == psum(t)),
            ("no inflow is negative", forall([x], Implies(member(t, x), inflow(t, h, x) >= 0))),
            ("some inflow is positive", exists([x], z3.And(member(t, x), inflow(t, h, x) > 0))),
            ("the inflow is positive", all_inflow(t, h) > 0)]


def no_strangers(t):
    return ("only members have a probability", forall([x], Implies(prob(t).has(x), member(t, x))))


C("initializeProbabilityOnSites_()", private=True, modifies=["this.probabilityOnSite_"],
  requires=lambda c: [no_strangers(c.this), ("there are members", exists([x], member(c.this, x)))],
  ensures=lambda c: [("all members alike", forall([x], Implies(member(c.this, x), prob(c.new).at(x) * CARD(mem(c.this).dom) == 1)))] + prob_ok(c.new), tags=["C15"])
C("iterate_()", private=True, modifies=["this.probabilityOnSite_"], hints=sweep_hints,
  requires=lambda c: members_ok(c, c.this) + prob_ok(c.this),
  ensures=lambda c: [("half way to the normalised inflow", forall([x], Implies(member(c.this, x),
                      (2 * prob(c.new).at(x) - prob(c.this).at(x)) * all_inflow(c.this, c.heap) == inflow(c.this, c.heap, x))))] + prob_ok(c.new), tags=["C15"])


# ------------------------------------------------------------------ distributions
def tau(t, s):
    return mem(t).at(s).escape_time_constant_


def listed(v, dom, share, total, what):
    """v lists every id of dom once, with share(id)/total"""
    return [("every %s once" % what, ENUM(v.ids, v.len, dom)),
            ("%s: its share" % what, forall([j], Implies(z3.And(0 <= j, j < v.len), sel(v.snd, j) * total == share(sel(v.ids, j)))))]


def cumulative(cum, v, what):
    return [("%s: cumulative list, same order" % what, z3.And(cum.len == v.len, forall([j], Implies(z3.And(0 <= j, j < v.len), sel(cum.ids, j) == sel(v.ids, j))))),
            ("%s: cumulative sums" % what, forall([j], Implies(z3.And(0 <= j, j < v.len), sel(cum.snd, j) == PSUM(v.snd, j) + sel(v.snd, j))))]


def stay_share(t):
    return lambda s: prob(t).at(s) * tau(t, s)


def stay_total(t):
    s = z3.Int("cl!st")
    return mk_sum(s, prob(t).at(s) * tau(t, s), mem(t).dom)


def internal_ok(t, src):
    v = t.probabilityHopToInternalSite_
    return listed(v, mem(src).dom, stay_share(src), stay_total(src), "member") + cumulative(t.cumulitive_probabilityHopToInternalSite_, v, "member")


C("calculateProbabilityHopToInternalSite_()", private=True, modifies=["this.probabilityHopToInternalSite_", "this.cumulitive_probabilityHopToInternalSite_"],
  requires=lambda c: prob_ok(c.this) + [("time constants are positive", forall([x], Implies(member(c.this, x), tau(c.this, x) > 0))),
                                        ("there are members", exists([x], member(c.this, x)))],
  hints=lambda c: [("total is positive", stay_total(c.this) > 0)],
  ensures=lambda c: internal_ok(c.new, c.this), tags=["C16"])


def exits(t):
    n, s = z3.Int("cl!xn"), z3.Int("cl!xs")
    return lam(n, z3.Exists([s], outward(t, s, n)))


def exit_share(t, heap):
    s = z3.Int("cl!es")
    return lambda n: mk_sum(s, z3.If(z3.And(nb(t, s).has(n), Not(member(t, n))), hop(t, heap, s, n) * prob(t).at(s), z3.RealVal(0)), mem(t).dom)


def exit_total(t, heap):
    n = z3.Int("cl!et")
    return mk_sum(n, exit_share(t, heap)(n), exits(t))


def exit_hints(c):
    t, h = c.this, c.heap
    return [("exits have a positive share", forall([x], Implies(sel(exits(t), x), exit_share(t, h)(x) > 0))),
            ("the shares are positive together", Implies(exists([x], sel(exits(t), x)), exit_total(t, h) > 0))]


def exits_ok(t, src, heap):
    v = t.probabilityHopToNeighbor_
    return listed(v, exits(src), exit_share(src, heap), exit_total(src, heap), "exit") + cumulative(t.cumulitive_probabilityHopToNeighbor_, v, "exit")


C("calculateProbabilityHopToNeighbors_()", private=True, modifies=["this.probabilityHopToNeighbor_", "this.cumulitive_probabilityHopToNeighbor_"],
  requires=lambda c: members_ok(c, c.this) + prob_ok(c.this), hints=exit_hints,
  ensures=lambda c: exits_ok(c.new, c.this, c.heap), tags=["C16"])


# ------------------------------------------------------------------ time constants
def part(t, heap, s, inner):
    """total rate of member s to members (inner) or to sites outside"""
    n = z3.Int("cl!pt")
    cond = member(t, n) if inner else Not(member(t, n))
    return mk_sum(n, z3.If(cond, rt(t, heap, s, n), z3.RealVal(0)), nb(t, s).dom)


def r_out(t, heap, s):
    return part(t, heap, s, False)


def r_in(t, heap, s):
    return part(t, heap, s, True)


def has_exit(t, s):
    n = z3.Int("cl!hx")
    return z3.Exists([n], outward(t, s, n))


def has_inner(t, s):
    n = z3.Int("cl!hi")
    return z3.Exists([n], inside(t, s, n))


def sums_ok(m, t, heap, has, r, what):
    return [("only members have a sum of rates %s" % what, forall([x], Implies(m.has(x), member(t, x)))),
            ("sums of rates %s" % what, forall([x], Implies(member(t, x), m.at(x) == r(t, heap, x))))]


def out_sums(m, t, heap):
    return sums_ok(m, t, heap, has_exit, r_out, "off the cluster")


def in_sums(m, t, heap):
    return sums_ok(m, t, heap, has_inner, r_in, "inside")


C("calculateSumOfEscapeRatesFromSitesToTheirNeighbors_()", private=True, modifies=["this.sumOfEscapeRateFromSiteToNeighbor_"],
  ensures=lambda c: out_sums(c.new.sumOfEscapeRateFromSiteToNeighbor_, c.this, c.heap), tags=["C17"])
C("calculateSumOfEscapeRatesFromSitesToInternalSites_()", private=True, modifies=["this.sumOfEscapeRateFromSiteToInternalSite_"],
  ensures=lambda c: in_sums(c.new.sumOfEscapeRateFromSiteToInternalSite_, c.this, c.heap), tags=["C20"])


def weight(t, heap):
    """unnormalised probability of leaving the cluster from a member"""
    return lambda s: prob(t).at(s) * r_out(t, heap, s) * tau(t, s)


def weights(t, heap):
    s = z3.Int("cl!ws")
    return mk_sum(s, weight(t, heap)(s), mem(t).dom)


def some_exit(t):
    return exists([x, y], outward(t, x, y))


def taus_ok(t):
    return ("time constants of members are positive", forall([x], Implies(member(t, x), tau(t, x) > 0)))


def rates_ok(t, heap):
    return ("rates of members are positive", forall([x, y], Implies(z3.And(member(t, x), nb(t, x).has(y)), rt(t, heap, x, y) > 0)))


def off_ok(t, src, heap):
    """share of the members in leaving the cluster"""
    m = t.probabilityHopOffInternalSite_
    return [("exactly the members have a share in leaving", forall([x], m.has(x) == member(src, x))),
            ("share in leaving", Implies(some_exit(src), forall([x], Implies(member(src, x), m.at(x) * weights(src, heap) == weight(src, heap)(x)))))]


def sum_of(f, D):
    s = z3.Int("cl!so")
    return mk_sum(s, f(s), D)


def raw_sum(f, D):
    """the sum as written, factors not taken out"""
    s = z3.Int("cl!so")
    return SSUM(lam(s, f(s)), D)


def off_hints(c):
    t, h = c.this, c.heap
    e = some_exit(t)
    return [("outward rates are not negative", forall([x], Implies(member(t, x), r_out(t, h, x) >= 0))),
            ("outward rates are positive together", Implies(e, sum_of(lambda s: r_out(t, h, s), mem(t).dom) > 0)),
            ("time constants are positive together", Implies(e, sum_of(lambda s: tau(t, s), mem(t).dom) > 0)),
            ("weights are positive together", Implies(e, weights(t, h) > 0))]


C("calculateProbabilityHopOffInternalSite_()", private=True, modifies=["this.probabilityHopOffInternalSite_", "this.sumOfEscapeRateFromSiteToNeighbor_"],
  requires=lambda c: prob_ok(c.this) + [taus_ok(c.this), rates_ok(c.this, c.heap)] + out_sums(c.this.sumOfEscapeRateFromSiteToNeighbor_, c.this, c.heap),
  hints=off_hints, aborts=lambda c: [("a single site", CARD(mem(c.this).dom) <= 1)],
  ensures=lambda c: off_ok(c.new, c.this, c.heap) + out_sums(c.new.sumOfEscapeRateFromSiteToNeighbor_, c.this, c.heap), tags=["C17"])


def escape_sum(t, src, heap):
    s = z3.Int("cl!ec")
    m = t.probabilityHopOffInternalSite_
    return mk_sum(s, z3.If(r_out(src, heap, s) > 0, (1 / r_out(src, heap, s)) * m.at(s), z3.RealVal(0)), mem(src).dom)


def escape_ok(c, t, src):
    h = c.heap
    return [("average of the reciprocal outward rates", Implies(some_exit(src), t.escape_time_constant_ == escape_sum(t, src, h))),
            ("the time constant is positive", Implies(some_exit(src), t.escape_time_constant_ > 0)),
            ("and defined", Implies(some_exit(src), t.escape_time_constant_ != undef(c))),
            ("undefined without an outward rate", Implies(Not(some_exit(src)), t.escape_time_constant_ == undef(c))),
            ("time increment follows", increment(t))]


def escape_hints(c):
    t, h = c.this, c.heap
    e = some_exit(t)
    m = t.probabilityHopOffInternalSite_
    over = lambda s: z3.If(r_out(t, h, s) > 0, (1 / r_out(t, h, s)) * m.at(s), z3.RealVal(0)) - undef(c) * m.at(s)
    return [(n, f) + (() if n in ("the average is positive", "the average exceeds the mark") else ("local",)) for n, f in [("outward rates are not negative", forall([x], Implies(member(t, x), r_out(t, h, x) >= 0))),
            ("outward rates to somewhere are positive", forall([x, y], Implies(outward(t, x, y), r_out(t, h, x) > 0))),
            ("weights are not negative", forall([x], Implies(member(t, x), weight(t, h)(x) >= 0))),
            ("weights are positive together", Implies(e, weights(t, h) > 0)),
            ("shares are not negative", Implies(e, forall([x], Implies(member(t, x), m.at(x) >= 0)))),
            ("shares of members with outward rates are positive", Implies(e, forall([x, y], Implies(outward(t, x, y), m.at(x) > 0)))),
            ("the average is positive", Implies(e, escape_sum(t, t, h) > 0)),
            ("outward rates are part of all rates", forall([x], Implies(member(t, x), r_out(t, h, x) <= tot(t, h, x)))),
            ("leaving takes longer than the mark", forall([x], Implies(z3.And(member(t, x), r_out(t, h, x) > 0), 1 / r_out(t, h, x) > undef(c)))),
            ("shares add up to the weights", Implies(e, raw_sum(lambda s: m.at(s) * weights(t, h), mem(t).dom) == weights(t, h))),
            ("the factor is common", raw_sum(lambda s: m.at(s) * weights(t, h), mem(t).dom) == sum_of(lambda s: m.at(s) * weights(t, h), mem(t).dom)),
            ("shares add up to one", Implies(e, sum_of(lambda s: m.at(s), mem(t).dom) == 1)),
            ("no share without outward rates", Implies(e, forall([x], Implies(z3.And(member(t, x), r_out(t, h, x) <= 0), m.at(x) == 0)))),
            ("excess over the mark", Implies(e, raw_sum(over, mem(t).dom) > 0)),
            ("the excess in parts", raw_sum(over, mem(t).dom) == sum_of(over, mem(t).dom)),
            ("what exceeds", Implies(e, raw_sum(over, mem(t).dom) == escape_sum(t, t, h) - undef(c))),
            ("the average exceeds the mark", Implies(e, escape_sum(t, t, h) > undef(c)))]]


C("calculateEscapeTimeConstant_()", private=True, modifies=["this.escape_time_constant_", "this.time_increment_", "this.sumOfEscapeRateFromSiteToNeighbor_"],
  requires=lambda c: members_ok(c, c.this) + prob_ok(c.this) + [taus_ok(c.this), ("resolution at least two", c.this.resolution_ >= 2)] +
  out_sums(c.this.sumOfEscapeRateFromSiteToNeighbor_, c.this, c.heap) + off_ok(c.this, c.this, c.heap),
  hints=escape_hints, ensures=lambda c: escape_ok(c, c.new, c.this) + out_sums(c.new.sumOfEscapeRateFromSiteToNeighbor_, c.this, c.heap), tags=["C17"])
C("calculateProbabilityHopBetweenInternalSite_()", private=True, modifies=["this.probabilityHopBetweenInternalSite_"],
  requires=lambda c: prob_ok(c.this), aborts=lambda c: [("a single site", CARD(mem(c.this).dom) <= 1)],
  ensures=lambda c: [("only members", forall([x], Implies(c.new.probabilityHopBetweenInternalSite_.has(x), member(c.this, x))))], tags=["C17"])
C("calculateInternalTimeConstant_()", private=True, modifies=["this.internal_time_constant_", "this.sumOfEscapeRateFromSiteToInternalSite_"],
  ensures=lambda c: [], tags=["C17"])


def inner_dwell(t, src, heap):
    return ("internal dwell times", forall([x], Implies(z3.And(member(src, x), has_inner(src, x)), z3.And(
        t.internal_dwell_time_.has(x), t.internal_dwell_time_.at(x) * r_in(src, heap, x) == 1))))


C("calculateInternalDwellTimes_()", private=True, modifies=["this.internal_dwell_time_"], requires=lambda c: [rates_ok(c.this, c.heap)],
  hints=lambda c: [("inward rates are positive", forall([x, y], Implies(inside(c.this, x, y), r_in(c.this, c.heap, x) > 0)))],
  ensures=lambda c: [inner_dwell(c.new, c.this, c.heap),
                     ("nothing else is touched", forall([x], Implies(Not(z3.And(member(c.this, x), has_inner(c.this, x))), z3.And(
                         c.new.internal_dwell_time_.has(x) == c.this.internal_dwell_time_.has(x), c.new.internal_dwell_time_.at(x) == c.this.internal_dwell_time_.at(x)))))],
  tags=["C20"])
C("getProbabilityOfOccupyingInternalSite(int)", requires=lambda c: [("converged", forall([x], prob(c.this).has(x) == member(c.this, x)))],
  aborts=lambda c: [("not a member", Not(member(c.this, c.a(0))))],
  ensures=lambda c: [("only members are answered for", member(c.this, c.a(0))), ("its probability", c.res == prob(c.this).at(c.a(0)))], tags=["C15"])
C("getSiteIdsNeighboringCluster()const", ensures=lambda c: [
    ("the listed exits", z3.And(c.res.len == c.this.probabilityHopToNeighbor_.len,
                                forall([j], Implies(z3.And(0 <= j, j < c.res.len), sel(c.res.ids, j) == sel(c.this.probabilityHopToNeighbor_.ids, j)))))], tags=["C16", "C23"])


def listed_first(v, n, j):
    return z3.And(0 <= j, j < v.len, sel(v.ids, j) == n, forall([k], Implies(z3.And(0 <= k, k < j), sel(v.ids, k) != n)))


C("getProbabilityOfHoppingToNeighborOfCluster(int)",
  aborts=lambda c: [("not an exit", forall([k], Implies(z3.And(0 <= k, k < c.this.probabilityHopToNeighbor_.len), sel(c.this.probabilityHopToNeighbor_.ids, k) != c.a(0))))],
  ensures=lambda c: [("the listed share of that exit", exists([j], z3.And(listed_first(c.this.probabilityHopToNeighbor_, c.a(0), j), c.res == sel(c.this.probabilityHopToNeighbor_.snd, j))))],
  tags=["C16"])


# ------------------------------------------------------------------ the update as a whole
def solved(c, t):
    h = c.heap
    return prob_ok(t) + internal_ok(t, t) + exits_ok(t, t, h) + [inner_dwell(t, t, h)]


SOLVEMOD = ["this.probabilityOnSite_", "this.probabilityHopToInternalSite_", "this.cumulitive_probabilityHopToInternalSite_",
            "this.probabilityHopToNeighbor_", "this.cumulitive_probabilityHopToNeighbor_", "this.internal_dwell_time_"]
C("solveMasterEquation_()", private=True, modifies=SOLVEMOD,
  requires=lambda c: members_ok(c, c.this) + [no_strangers(c.this)], ensures=lambda c: serving("C15", prob_ok(c.new) + [inner_dwell(c.new, c.new, c.heap)]) + serving("C16", internal_ok(c.new, c.new) + exits_ok(c.new, c.new, c.heap)), tags=["C15", "C16"])


# ------------------------------------------------------------------ visits
def vis(t):
    return t.site_visits_


def irnd(v):
    h = z3.RealVal("1/2")
    return z3.If(v >= 0, z3.ToInt(v + h), -z3.ToInt(-v + h))


def rnd(v):
    return z3.ToReal(irnd(v))


def gained(t, s):
    """share of member s in the visits of the cluster since the last query"""
    d = z3.ToReal(t.total_visit_freq_ - t.prev_total_visit_freq_)
    return rnd(d * prob(t).at(s) * tau(t, s) / t.internal_dwell_time_.at(s) * t.escape_time_constant_ / t.resolution_)


def counted(t, s):
    return z3.If(t.total_visit_freq_ != t.prev_total_visit_freq_, vis(t).at(s) + gained(t, s), vis(t).at(s))


def visits_ready(c, t):
    """every member that is counted has a probability and an internal dwell time"""
    return [("counted sites are members", forall([x], Implies(vis(t).has(x), member(t, x)))),
            ("counted sites have a probability", forall([x], Implies(vis(t).has(x), prob(t).has(x)))),
            ("counted sites have an internal dwell time", forall([x], Implies(vis(t).has(x), t.internal_dwell_time_.has(x))))]


def defined(c, t):
    return t.escape_time_constant_ != undef(c)


C("setVisitFrequency(int,const int &)", updates=lambda c: {"this.site_visits_": [vis(c.this).dom, z3.Store(vis(c.this).val, c.a(1), z3.ToReal(c.a(0)))]},
  aborts=lambda c: [("not a member", Not(vis(c.this).has(c.a(1)))), ("undefined", Not(defined(c, c.this)))],
  ensures=lambda c: [("only members are counted", vis(c.this).has(c.a(1))), ("only with a time constant", defined(c, c.this))], tags=["C20"])


def after_count(c):
    return [("each count grows by its share, once", forall([x], Implies(vis(c.this).has(x), vis(c.new).at(x) == counted(c.this, x)))),
            ("the same sites are counted", forall([x], vis(c.new).has(x) == vis(c.this).has(x)))]


def count_all(c):
    t = c.this
    s = z3.Int("cl!ca")
    return {"this.site_visits_": [vis(t).dom, lam(s, z3.If(vis(t).has(s), counted(t, s), vis(t).at(s)))],
            "this.prev_total_visit_freq_": t.total_visit_freq_}


C("getVisitFrequency(const int &)", updates=count_all, returns=lambda c: irnd(counted(c.this, c.a(0))),
  requires=lambda c: visits_ready(c, c.this),
  aborts=lambda c: [("not a member", Not(vis(c.this).has(c.a(0)))), ("undefined", Not(defined(c, c.this)))],
  ensures=lambda c: after_count(c) + [("only members are counted", vis(c.this).has(c.a(0))), ("only with a time constant", defined(c, c.this))], tags=["C20"])
C("getVisitFrequencies_()", private=True, modifies=["this.site_visits_", "this.prev_total_visit_freq_"],
  requires=lambda c: visits_ready(c, c.this),
  aborts=lambda c: [("undefined", z3.And(exists([x], vis(c.this).has(x)), Not(defined(c, c.this))))],
  ensures=lambda c: after_count(c) + [
      ("one entry per counted site", forall([x], c.res.has(x) == vis(c.this).has(x))),
      ("their counts", forall([x], Implies(vis(c.this).has(x), z3.ToReal(c.res.at(x)) == rnd(counted(c.this, x))))),
      ("all visits of the cluster are accounted for", Implies(exists([x], vis(c.this).has(x)), c.new.prev_total_visit_freq_ == c.this.total_visit_freq_)),
      ("or none", Implies(Not(exists([x], vis(c.this).has(x))), c.new.prev_total_visit_freq_ == c.this.prev_total_visit_freq_))], tags=["C20"])


# ------------------------------------------------------------------ update and merge
def linked(t):
    return forall([x], Implies(member(t, x), has_inner(t, x)))


def kept(new, old, was_counted, value):
    return [("exactly the members are counted", forall([x], vis(new).has(x) == member(new, x))),
            ("visit counts are kept, new members start at zero", forall([x], Implies(member(new, x), vis(new).at(x) == z3.If(was_counted(x), value(x), z3.RealVal(0)))))]


UPDMOD = SOLVEMOD + ["this." + f for f in ("sumOfEscapeRateFromSiteToNeighbor_", "sumOfEscapeRateFromSiteToInternalSite_", "probabilityHopOffInternalSite_",
                                           "probabilityHopBetweenInternalSite_", "escape_time_constant_", "time_increment_", "internal_time_constant_",
                                           "site_visits_", "prev_total_visit_freq_")]
some_counted = lambda t: exists([x], vis(t).has(x))
C("updateProbabilitiesAndTimeConstant()", modifies=UPDMOD,
  requires=lambda c: members_ok(c, c.this) + [no_strangers(c.this), ("resolution at least two", c.this.resolution_ >= 2)] + visits_ready(c, c.this),
  aborts=lambda c: [("a single site", CARD(mem(c.this).dom) <= 1),
                    ("counts without a time constant", z3.And(some_counted(c.this), z3.Or(Not(defined(c, c.this)), Not(some_exit(c.this)))))],
  ensures=lambda c: serving("C15", prob_ok(c.new)) + serving("C16", internal_ok(c.new, c.new) + exits_ok(c.new, c.new, c.heap)) +
  serving("C17", off_ok(c.new, c.new, c.heap) + escape_ok(c, c.new, c.new)) +
  serving("C20", [inner_dwell(c.new, c.new, c.heap)] + kept(c.new, c.this, vis(c.this).has, lambda s: rnd(counted(c.this, s))) +
  [("all visits of the cluster are accounted for", Implies(some_counted(c.this), c.new.prev_total_visit_freq_ == c.this.total_visit_freq_)),
   ("or none", Implies(Not(some_counted(c.this)), c.new.prev_total_visit_freq_ == c.this.prev_total_visit_freq_))]),
  tags=["C15", "C16", "C17", "C20"])


def union(c):
    """members of both clusters, read from where they are before the merge"""
    a, b = c.this, c.a(0)
    has = lambda s: z3.Or(member(a, s), member(b, s))
    pick = lambda f: (lambda s: z3.If(member(a, s), f(a, s), f(b, s)))
    return has, pick


def merged_ok(c):
    """both clusters are well formed and their members fit together"""
    a, b, h = c.this, c.a(0), c.heap
    out = []
    for t, who in ((a, "this"), (b, "other")):
        for nm, f in members_ok(c, t):
            if nm not in ("internal neighbors are mutual",):
                out.append((nm + " (%s)" % who, f))
    has, _ = union(c)
    for s, t in ((a, a), (a, b), (b, a), (b, b)):
        out.append(("neighbors are mutual", forall([x, y], Implies(z3.And(member(s, x), nb(s, x).has(y), member(t, y)), nb(t, y).has(x)))))
    out.append(("no site is a member of both", forall([x], Not(z3.And(member(a, x), member(b, x))))))
    return out


def merge_members(c):
    n, a, b = c.new, c.this, c.a(0)
    return [("members of both", forall([x], member(n, x) == z3.Or(member(a, x), member(b, x)))),
            ("previous members are kept as they were", forall([x], Implies(member(a, x), same(mem(n).at(x), mem(a).at(x))))),
            ("merged members are kept, marked with this cluster's id", forall([x], Implies(member(b, x), z3.And(
                mem(n).at(x).cluster_id_ == a.id_, only(mem(n).at(x), mem(b).at(x), "cluster_id_"))))),
            ("the other cluster is empty", forall([x], Not(member(c.na(0), x)))),
            ("and undefined", c.na(0).escape_time_constant_ == undef(c)),
            ("and has no exits", c.na(0).probabilityHopToNeighbor_.len == 0)]


def merge_visits(c):
    a, b = c.this, c.a(0)
    return [("exactly the members are counted", forall([x], vis(c.new).has(x) == member(c.new, x))),
            ("merged counts", forall([x], Implies(member(b, x), vis(c.new).at(x) == rnd(counted(b, x))))),
            ("previous counts", forall([x], Implies(member(a, x), vis(c.new).at(x) == z3.If(vis(a).has(x), rnd(counted(a, x)), z3.RealVal(0)))))]


C("migrateSitesFrom(mythical::Cluster &)", modifies=UPDMOD + ["this.sitesInCluster_"] + ["arg0." + f for f in (
    "sitesInCluster_", "probabilityOnSite_", "sumOfEscapeRateFromSiteToNeighbor_", "site_visits_", "internal_dwell_time_", "probabilityHopToNeighbor_",
    "cumulitive_probabilityHopToNeighbor_", "escape_time_constant_", "internal_time_constant_", "prev_total_visit_freq_")],
  requires=lambda c: merged_ok(c) + [no_strangers(c.this), ("resolution at least two", c.this.resolution_ >= 2), ("the cluster has an id", c.this.id_set_)] +
  visits_ready(c, c.this) + [(n + " (other)", f) for n, f in visits_ready(c, c.a(0))] +
  [("every member of the other is counted", forall([x], Implies(member(c.a(0), x), vis(c.a(0)).has(x)))),
   ("both have a time constant", z3.And(defined(c, c.this), defined(c, c.a(0)))),
   ("the merged cluster has an exit", exists([x, y], z3.And(z3.Or(outward(c.this, x, y), outward(c.a(0), x, y)), Not(member(c.this, y)), Not(member(c.a(0), y)))))],
  ensures=lambda c: serving("C19", merge_members(c) + solved(c, c.new) + off_ok(c.new, c.new, c.heap) + escape_ok(c, c.new, c.new)) + serving("C20", merge_visits(c)), tags=["C19", "C20"])
