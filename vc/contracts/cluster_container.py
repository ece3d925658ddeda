"""Cluster_Container."""
import z3
from contract import Contract, Lemma
from terms import *
from contract import cforall as forall
from prover import exists, ENUM
from contracts import site as sitec
from contracts import cluster as cl

CONTRACTS = []
P = "mythical::Cluster_Container::"
IA, RE = "std::invalid_argument", "std::runtime_error"
x, y, j, k = z3.Ints("cc!x cc!y cc!j cc!k")


def C(name, **kw):
    kw.setdefault("tags", ["C23"])
    CONTRACTS.append(Contract(P + name, **kw))


def held(c, i=0):
    return c.this.clusters_.has(c.a(i))


def it(c, i=0):
    return c.this.clusters_.at(c.a(i))


def unknown(i=0):
    return lambda c: [(IA, Not(held(c, i)))]


def others(c, i=0):
    n, o = c.new.clusters_, c.this.clusters_
    return [("the same clusters are stored", forall([x], n.has(x) == o.has(x))),
            ("other clusters untouched", forall([x], Implies(z3.And(o.has(x), x != c.a(i)), cl.same(n.at(x), o.at(x)))))]


def own(c, *fields):
    return [("nothing else of the cluster changes", cl.only(c.new.clusters_.at(c.a(0)), it(c), *fields))]


def coded(i=0):
    return lambda c: [("behaviour selected by the constructor", Implies(held(c, i), c.eng.ctor_code(it(c, i))))]


C("Cluster_Container()", ensures=lambda c: [("empty", forall([x], Not(c.new.clusters_.has(x))))])
C("addCluster(mythical::Cluster &)", modifies=["this.clusters_", "g:"],
  throws=lambda c: [(RE, Not(c.a(0).id_set_)), (IA, z3.And(c.a(0).id_set_, c.this.clusters_.has(c.a(0).id_)))],
  ensures=lambda c: [("exactly one cluster more", forall([x], c.new.clusters_.has(x) == z3.Or(c.this.clusters_.has(x), x == c.a(0).id_))),
                     ("stored as given", cl.same(c.new.clusters_.at(c.a(0).id_), c.a(0))),
                     ("other clusters untouched", forall([x], Implies(c.this.clusters_.has(x), cl.same(c.new.clusters_.at(x), c.this.clusters_.at(x)))))])
C("addClusters(std::vector<mythical::Cluster> &)", force_inline=[P + "addCluster(mythical::Cluster &)"], modifies=["this.clusters_", "g:"], throw_frame=False, shards=2,
  throws=lambda c: [(RE, exists([j], z3.And(0 <= j, j < c.a(0).len, Not(c.a(0).at(j).id_set_)))),
                    (IA, z3.Or(exists([j], z3.And(0 <= j, j < c.a(0).len, c.this.clusters_.has(c.a(0).at(j).id_))),
                               exists([j, k], z3.And(0 <= j, j < k, k < c.a(0).len, c.a(0).at(j).id_ == c.a(0).at(k).id_))))],
  ensures=lambda c: [
      ("given clusters stored", forall([j], Implies(z3.And(0 <= j, j < c.a(0).len), z3.And(c.new.clusters_.has(c.a(0).at(j).id_), cl.same(c.new.clusters_.at(c.a(0).at(j).id_), c.a(0).at(j)))))),
      ("nothing else is added", forall([x], Implies(z3.And(c.new.clusters_.has(x), Not(c.this.clusters_.has(x))), exists([j], z3.And(0 <= j, j < c.a(0).len, c.a(0).at(j).id_ == x))))),
      ("clusters kept", forall([x], Implies(c.this.clusters_.has(x), z3.And(c.new.clusters_.has(x), cl.same(c.new.clusters_.at(x), c.this.clusters_.at(x)))))),
      ("stored clusters are not added again", forall([j], Implies(z3.And(0 <= j, j < c.a(0).len), Not(c.this.clusters_.has(c.a(0).at(j).id_)))))])
C("getCluster(int)", throws=unknown(), resref=("this.clusters_", lambda c: c.a(0)))
C("size()const", returns=lambda c: CARD(c.this.clusters_.dom))
C("exist(const int &)const", returns=lambda c: held(c))
C("erase(int)", modifies=["this.clusters_"], ensures=lambda c: [
    ("exactly that cluster is gone", forall([x], c.new.clusters_.has(x) == z3.And(c.this.clusters_.has(x), x != c.a(0)))),
    ("other clusters untouched", forall([x], Implies(c.new.clusters_.has(x), cl.same(c.new.clusters_.at(x), c.this.clusters_.at(x)))))])
C("isOccupied(const int &)", requires=coded(), throws=unknown(), returns=lambda c: it(c).occupied_ > 0)
C("vacate(const int &)", requires=coded(), throws=unknown(), modifies=["this.clusters_"],
  ensures=lambda c: others(c) + own(c, "occupied_") + [("one walker less", c.new.clusters_.at(c.a(0)).occupied_ == it(c).occupied_ - 1)])
C("occupy(const int &)", requires=coded(), throws=unknown(), modifies=["this.clusters_"],
  ensures=lambda c: others(c) + own(c, "occupied_", "total_visit_freq_") +
  [("one walker more", c.new.clusters_.at(c.a(0)).occupied_ == it(c).occupied_ + 1),
   ("one visit more", c.new.clusters_.at(c.a(0)).total_visit_freq_ == it(c).total_visit_freq_ + 1)])
C("getClusterIds()", ensures=lambda c: [("every stored cluster once", ENUM(c.res.ids, c.res.len, c.this.clusters_.dom))])
def dwell(c):
    """what Cluster::getDwellTime promises, for the named cluster"""
    w, o, n = c.a(0), it(c, 1), c.new.clusters_.at(c.a(1))
    e0, r = o.random_engine_.leaves[0], cl.rem(o)
    total = z3.If(r.has(w), r.at(w), -LOG(DRAW(e0)) * o.escape_time_constant_)
    return others(c, 1) + [
        ("a piece of the walker's time", c.res == z3.If(total > o.time_increment_, o.time_increment_, total)),
        ("the rest is remembered", z3.And(cl.rem(n).has(w), cl.rem(n).at(w) == total - o.time_increment_)),
        ("other walkers keep theirs", forall([x], Implies(x != w, z3.And(cl.rem(n).has(x) == r.has(x), cl.rem(n).at(x) == r.at(x))))),
        ("nothing else of the cluster changes", cl.only(n, o, "remaining_walker_dwell_times_", "random_engine_"))]


def spent(c):
    o = it(c, 1)
    total = z3.If(cl.rem(o).has(c.a(0)), cl.rem(o).at(c.a(0)), -LOG(DRAW(o.random_engine_.leaves[0])) * o.escape_time_constant_)
    return z3.And(total <= o.time_increment_, total <= 0)


C("getDwellTime(int,int)", throws=unknown(1), modifies=["this.clusters_"],
  requires=lambda c: [("unit random numbers", Implies(held(c, 1), sitec.uniform(it(c, 1))[1]))],
  aborts=lambda c: [("undefined", z3.And(held(c, 1), it(c, 1).escape_time_constant_ == cl.undef(c))), ("used up", z3.And(held(c, 1), spent(c)))], ensures=dwell)
C("getTimeConstant(int)", throws=unknown(), returns=lambda c: it(c).escape_time_constant_)
C("getFastestRateOffCluster(int)", throws=unknown(),
  ensures=lambda c: [("no rate off the cluster is faster", forall([x, y], Implies(cl.outward(it(c), x, y), cl.rt(it(c), c.heap, x, y) <= c.res))),
                     ("is one of those rates, or zero", z3.Or(c.res == 0, exists([x, y], z3.And(cl.outward(it(c), x, y), c.res == cl.rt(it(c), c.heap, x, y)))))])
C("getSiteIdsOfNeighbors(int)", throws=unknown(), ensures=lambda c: [
    ("the exits of that cluster", z3.And(c.res.len == it(c).probabilityHopToNeighbor_.len,
                                         forall([j], Implies(z3.And(0 <= j, j < c.res.len), sel(c.res.ids, j) == sel(it(c).probabilityHopToNeighbor_.ids, j)))))])


def each(f):
    return lambda c: [("one entry per stored cluster", forall([x], c.res.has(x) == c.this.clusters_.has(x))),
                      ("of that cluster", forall([x], Implies(c.this.clusters_.has(x), f(c.res.at(x), c.this.clusters_.at(x)))))]


C("getResolutionOfClusters()", ensures=each(lambda r, t: r == t.resolution_))
C("getTimeIncrementOfClusters()", ensures=each(lambda r, t: r == t.time_increment_))
C("getSiteIdsOfClusters()", ensures=each(lambda r, t: ENUM(r.ids, r.len, cl.mem(t).dom)))
