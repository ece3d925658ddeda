"""TopologyFeature and Site: rates, hop probabilities, picks, dwell times, occupancy."""
import z3
from contract import Contract, Lemma
from terms import *
from contract import cforall as forall
from prover import exists, ENUM

CONTRACTS = []
T = "mythical::TopologyFeature::"
S = "mythical::Site::"
k, j = z3.Int("sc!k"), z3.Int("sc!j")


def C(name, **kw):
    CONTRACTS.append(Contract(name, **kw))


# ------------------------------------------------------------------ vocabulary
def rate(m, heap, x):
    return sel(heap, sel(m.val, x))


def total(m, heap):
    x = z3.Int("sc!t")
    return mk_sum(x, rate(m, heap, x), m.dom)


def positive(m, heap):
    return forall([k], Implies(m.has(k), rate(m, heap, k) > 0))


def some(m):
    return exists([k], m.has(k))


def distribution(t, heap):
    """the stored hop distribution lists every neighbor once, each with its share of the total rate"""
    v = t.probabilityHopToNeighbor_
    m = t.neighRates_
    return [("every neighbor once", ENUM(v.ids, v.len, m.dom)),
            ("share of the total rate", forall([j], Implies(z3.And(0 <= j, j < v.len), sel(v.snd, j) == rate(m, heap, sel(v.ids, j)) / total(m, heap))))]


def uniform(t):
    return ("unit random numbers", z3.And(t.random_distribution_.leaves[0] == 0, t.random_distribution_.leaves[1] == 1))


def code(c, t):
    """the behaviour a constructor selects stays selected"""
    return ("behaviour selected by the constructor", c.eng.ctor_code(t))


# ------------------------------------------------------------------ construction
C(S + "Site()", ensures=lambda c: [
    ("not occupied", c.new.occupied_ == 0), ("never visited", c.new.total_visit_freq_ == 0),
    ("no neighbors", forall([k], Not(c.new.neighRates_.has(k)))), ("in no cluster", c.new.cluster_id_ <= -1),
    uniform(c.new), code(c, c.new)], tags=["C10", "C12", "C13"])

# ------------------------------------------------------------------ occupancy
SITE = "mythical::Site"
for suffix in ("()", "(const int &)"):
    C(T + "occupy" + suffix, this=SITE, requires=lambda c: [code(c, c.this)],
      updates=lambda c: {"this.occupied_": c.this.occupied_ + 1, "this.total_visit_freq_": c.this.total_visit_freq_ + 1}, tags=["C13"])
    C(T + "vacate" + suffix, this=SITE, requires=lambda c: [code(c, c.this)],
      updates=lambda c: {"this.occupied_": c.this.occupied_ - 1}, tags=["C13"])
    C(T + "isOccupied" + suffix, this=SITE, requires=lambda c: [code(c, c.this)], returns=lambda c: c.this.occupied_ > 0, tags=["C13"])
C(T + "removeWalker(const int &,const int &)", this=SITE, requires=lambda c: [code(c, c.this)],
  updates=lambda c: {"this.occupied_": c.this.occupied_ - 1}, tags=["C13"])
C(T + "setToOccupiedStatus()", this=SITE, requires=lambda c: [code(c, c.this)], modifies=["this.occupied_"],
  ensures=lambda c: [("occupied", c.new.occupied_ > 0)], tags=["C13"])
C(T + "setToUnoccupiedStatus()", this=SITE, requires=lambda c: [code(c, c.this)], modifies=["this.occupied_"],
  ensures=lambda c: [("free", c.new.occupied_ == 0)], tags=["C13"])
C(T + "setVisitFrequency(const int &)", this=SITE, updates=lambda c: {"this.total_visit_freq_": c.a(0)}, tags=["C13"])
C(T + "setVisitFrequency(const int &,int)", this=SITE, updates=lambda c: {"this.total_visit_freq_": c.a(0)}, tags=["C13"])
C(T + "getVisitFrequency()", this=SITE, returns=lambda c: c.this.total_visit_freq_, tags=["C13"])
C(T + "getVisitFrequency(int)", this=SITE, returns=lambda c: c.this.total_visit_freq_, tags=["C13"])

# ------------------------------------------------------------------ dwell times
C(T + "setRandomSeed(unsigned long)", this=SITE, updates=lambda c: {"this.random_engine_": SEED(c.a(0))}, tags=["C11", "C12"])
C(T + "getDwellTime(const int &)", this=SITE, requires=lambda c: [uniform(c.this)], modifies=["this.random_engine_"],
  ensures=lambda c: [("exponential law by inversion", c.res == -LOG(DRAW(c.this.random_engine_.leaves[0])) * c.this.escape_time_constant_),
                     ("one fresh random number", c.new.random_engine_.leaves[0] == NEXT(c.this.random_engine_.leaves[0]))], tags=["C12"])
C(T + "getTimeConstant()const", this=SITE, returns=lambda c: c.this.escape_time_constant_, tags=["C10", "C12"])

# ------------------------------------------------------------------ rates
RATEMOD = ["this.neighRates_", "this.probabilityHopToNeighbor_", "this.escape_time_constant_"]


def rates_ok(c):
    m = c.new.neighRates_
    return distribution(c.new, c.heap) + [("time constant is one over the total rate", c.new.escape_time_constant_ * total(m, c.heap) == 1),
                                          ("total rate is positive", total(m, c.heap) > 0)]


def set_bad(c):
    m = c.a(0)
    return [("no rates", forall([k], Not(m.has(k)))), ("a zero rate", exists([k], z3.And(m.has(k), sel(m.val, k) == 0)))]


C(S + "setRatesToNeighbors(std::unordered_map<int, double> &)",
  requires=lambda c: [("rates are not negative", forall([k], Implies(c.a(0).has(k), sel(c.a(0).val, k) >= 0))),
                      ("rates set before are positive", positive(c.this.neighRates_, c.heap))],
  aborts=set_bad, modifies=RATEMOD,
  ensures=lambda c: [("an empty set of rates is rejected", Not(set_bad(c)[0][1])), ("zero rates are rejected", Not(set_bad(c)[1][1])),
                     ("neighbors are the old and the given ones", forall([k], c.new.neighRates_.has(k) == z3.Or(c.this.neighRates_.has(k), c.a(0).has(k)))),
                     ("given rates in force", forall([k], Implies(c.a(0).has(k), rate(c.new.neighRates_, c.heap, k) == sel(c.a(0).val, k)))),
                     ("other rates kept", forall([k], Implies(z3.And(c.this.neighRates_.has(k), Not(c.a(0).has(k))), sel(c.new.neighRates_.val, k) == sel(c.this.neighRates_.val, k))))]
  + rates_ok(c), tags=["C10"])


def one_rate(c):
    n, o, a = c.new.neighRates_, c.this.neighRates_, c.a(0)
    return [("neighbor known", forall([k], n.has(k) == z3.Or(o.has(k), k == a.first))),
            ("its rate in force", sel(n.val, a.first) == a.second),
            ("other rates kept", forall([k], Implies(z3.And(o.has(k), k != a.first), sel(n.val, k) == sel(o.val, k))))] + rates_ok(c)


RQ = lambda c: [("rate is positive", sel(c.heap, c.a(0).second) > 0), ("rates set before are positive", positive(c.this.neighRates_, c.heap))]
C(S + "addNeighRate(std::pair<int, double *>)", requires=RQ, modifies=RATEMOD,
  aborts=lambda c: [("already a neighbor", c.this.neighRates_.has(c.a(0).first))],
  ensures=lambda c: [("a second rate to a neighbor is rejected", Not(c.this.neighRates_.has(c.a(0).first)))] + one_rate(c), tags=["C10"])
C(S + "resetNeighRate(std::pair<int, double *>)", requires=RQ, modifies=RATEMOD, ensures=one_rate, tags=["C10"])

C(S + "isNeighbor(int)const", returns=lambda c: c.this.neighRates_.has(c.a(0)), tags=["C10"])
C(S + "getRateToNeighbor(const int &)const", aborts=lambda c: [("not a neighbor", Not(c.this.neighRates_.has(c.a(0))))],
  returns=lambda c: rate(c.this.neighRates_, c.heap, c.a(0)),
  ensures=lambda c: [("an unknown neighbor is rejected", c.this.neighRates_.has(c.a(0)))], tags=["C10"])
C(S + "getFastestRate()", requires=lambda c: [("rates are positive", positive(c.this.neighRates_, c.heap))],
  ensures=lambda c: [("no rate is faster", forall([k], Implies(c.this.neighRates_.has(k), rate(c.this.neighRates_, c.heap, k) <= c.res))),
                     ("is one of the rates, or zero without neighbors",
                      z3.Or(exists([k], z3.And(c.this.neighRates_.has(k), c.res == rate(c.this.neighRates_, c.heap, k))),
                            z3.And(c.res == 0, CARD(c.this.neighRates_.dom) == 0)))], tags=["C10"])
C(S + "getNeighborSiteIds()const", ensures=lambda c: [("every neighbor once", ENUM(c.res.ids, c.res.len, c.this.neighRates_.dom))], tags=["C10"])


def all_rates(c):
    e = z3.Array("gr!e", I, I)
    m = c.this.neighRates_
    return z3.Exists([e], z3.And(ENUM(e, c.res.len, m.dom), z3.ForAll([j], Implies(z3.And(0 <= j, j < c.res.len), sel(c.res.val, j) == rate(m, c.heap, sel(e, j))))))


C(S + "getNeighborsAndRates()", returns=lambda c: c.this.neighRates_.leaves, tags=["C10"])
C(S + "getNeighborsAndRatesConst()const", returns=lambda c: c.this.neighRates_.leaves, tags=["C10"])
C(S + "getProbabilitiesAndIdsOfNeighbors()const", returns=lambda c: c.this.probabilityHopToNeighbor_.leaves, tags=["C10"])
C(S + "getProbabilityOfHoppingToNeighboringSite(const int &)",
  requires=lambda c: distribution(c.this, c.heap),
  aborts=lambda c: [("not a neighbor", Not(c.this.neighRates_.has(c.a(0))))],
  returns=lambda c: rate(c.this.neighRates_, c.heap, c.a(0)) / total(c.this.neighRates_, c.heap),
  ensures=lambda c: [("an unknown neighbor is rejected", c.this.neighRates_.has(c.a(0)))], tags=["C10"])
C(S + "partOfCluster()const", returns=lambda c: c.this.cluster_id_ > -1, tags=["C10"])
C(S + "getClusterId()const", returns=lambda c: c.this.cluster_id_, tags=["C10"])
C(S + "setClusterId(int)", updates=lambda c: {"this.cluster_id_": c.a(0)}, tags=["C10"])


# ------------------------------------------------------------------ picks
def picked(c):
    v = c.this.probabilityHopToNeighbor_
    u = DRAW(c.this.random_engine_.leaves[0])
    return [("inverse of the cumulative distribution", z3.Or(
        exists([j], z3.And(0 <= j, j < v.len, c.res == sel(v.ids, j), PSUM(v.snd, j) <= u, u < PSUM(v.snd, j) + sel(v.snd, j))),
        z3.And(c.res == -1, PSUM(v.snd, v.len) <= u))),
        ("one fresh random number", c.new.random_engine_.leaves[0] == NEXT(c.this.random_engine_.leaves[0]))]


for sg in ("pickNewSiteId()", "pickNewSiteId(const int &)"):
    C(S + sg, requires=lambda c: [uniform(c.this), ("probabilities are not negative", forall([j], Implies(z3.And(0 <= j, j < c.this.probabilityHopToNeighbor_.len), sel(c.this.probabilityHopToNeighbor_.snd, j) >= 0)))],
      modifies=["this.random_engine_"], ensures=picked, tags=["C11"])


def all_rates(c):
    m, v = c.this.neighRates_, c.res
    return [("as many as neighbors", v.len == CARD(m.dom)),
            ("each is the rate to some neighbor", forall([j], Implies(z3.And(0 <= j, j < v.len), exists([k], z3.And(m.has(k), sel(v.val, j) == rate(m, c.heap, k)))))),
            ("the rate to each neighbor occurs", forall([k], Implies(m.has(k), exists([j], z3.And(0 <= j, j < v.len, sel(v.val, j) == rate(m, c.heap, k)))))),
            ("total", PSUM(v.val, v.len) == total(m, c.heap))]


C(S + "getRateToNeighbors()const", ensures=all_rates, tags=["C10"])


# ------------------------------------------------------------------ lemmas
def hop_lemma():
    """with positive rates the stored distribution is a probability distribution, so for every random number in
    [0,1) the pick returns a neighbor"""
    D = z3.Const("hl!D", SET)
    Rt = z3.Const("hl!rate", arr(R))
    ids, snd = z3.Const("hl!ids", arr(I)), z3.Const("hl!snd", arr(R))
    n, w, res = z3.Ints("hl!n hl!w hl!res")
    u = z3.Real("hl!u")
    tot = z3.Real("hl!tot")
    x = z3.Int("hl!x")
    hyps = [ENUM(ids, n, D), sel(D, w), forall([k], Implies(sel(D, k), sel(Rt, k) > 0)),
            tot == mk_sum(x, sel(Rt, x), D),
            forall([j], Implies(z3.And(0 <= j, j < n), sel(snd, j) == sel(Rt, sel(ids, j)) / tot))]
    pick = z3.Or(exists([j], z3.And(0 <= j, j < n, res == sel(ids, j), PSUM(snd, j) <= u, u < PSUM(snd, j) + sel(snd, j))),
                 z3.And(res == -1, PSUM(snd, n) <= u))
    steps = [("total rate is positive", tot > 0),
             ("probabilities are positive", forall([j], Implies(z3.And(0 <= j, j < n), sel(snd, j) > 0))),
             ("scaled probabilities are the rates", PSUM(lam(x, sel(snd, x) * tot), n) == PSUM(lam(x, sel(Rt, sel(ids, x))), n)),
             ("shares as a sum over neighbors", PSUM(lam(x, sel(Rt, sel(ids, x))), n) == tot),
             ("scaled sum", PSUM(lam(x, sel(snd, x) * tot), n) == PSUM(snd, n) * tot),
             ("probabilities sum to one", PSUM(snd, n) * tot == tot),
             ("they sum to one", PSUM(snd, n) == 1),
             ("every pick is a neighbor", Implies(z3.And(0 <= u, u < 1, pick), sel(D, res)))]
    return hyps, steps


LEMMAS = [Lemma("hop probabilities form a distribution", hop_lemma, ["C10", "C11"])]
