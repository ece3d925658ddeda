"""Queue of (walker, time) pairs."""
import z3
from contract import Contract
from terms import *
from contract import cforall as forall
from prover import exists

Q = "mythical::Queue::"
CONTRACTS = []


def times_sorted(q):
    p, r = z3.Ints("qs!p qs!r")
    return forall([p, r], Implies(z3.And(0 <= p, p < r, r < q.len), sel(q.leaves[2], p) <= sel(q.leaves[2], r)), manual=True)


def inv(t):
    return [("the sorted flag is truthful", Implies(t.sorted_, times_sorted(t.walker_queue_)))]


def C(name, **kw):
    kw.setdefault("tags", ["C08"])
    CONTRACTS.append(Contract(Q + name, **kw))


def same(q, i, r, j):
    return z3.And([sel(a, i) == sel(b, j) for a, b in zip(q.leaves[1:], r.leaves[1:])])


def isw(q, i, w):
    return z3.And(sel(q.leaves[1], i) == w.first, sel(q.leaves[2], i) == w.second)


j = z3.Int("qc!j")


def rng(q, lo=0):
    return z3.And(lo <= j, j < q.len)


C("Queue()", ensures=lambda c: inv(c.new) + [("empty", c.new.walker_queue_.len == 0), ("an empty queue is sorted", c.new.sorted_)])
C("size()const", returns=lambda c: c.this.walker_queue_.len)
C("isSorted()const", returns=lambda c: c.this.sorted_)
C("add(std::pair<int, double>)", requires=lambda c: inv(c.this), modifies=["this"],
  ensures=lambda c: inv(c.new) + [
      ("one more", c.new.walker_queue_.len == c.this.walker_queue_.len + 1),
      ("appended at the end", isw(c.new.walker_queue_, c.this.walker_queue_.len, c.a(0))),
      ("others kept in place", forall([j], Implies(rng(c.this.walker_queue_), same(c.new.walker_queue_, j, c.this.walker_queue_, j))))])
C("pop_current()", requires=lambda c: inv(c.this) + [("not empty", c.this.walker_queue_.len > 0)], modifies=["this"],
  ensures=lambda c: inv(c.new) + [
      ("one less", c.new.walker_queue_.len == c.this.walker_queue_.len - 1),
      ("the front is returned", isw(c.this.walker_queue_, z3.IntVal(0), c.res)),
      ("others keep their order", forall([j], Implies(rng(c.new.walker_queue_), same(c.new.walker_queue_, j, c.this.walker_queue_, j + 1)))),
      ("sorted stays sorted", c.new.sorted_ == c.this.sorted_)])


def inserted(c):
    p = z3.Int("qi!p")
    q, o, w = c.new.walker_queue_, c.this.walker_queue_, c.a(0)
    body = z3.And(0 <= p, p <= o.len, isw(q, p, w),
                  forall([j], Implies(z3.And(0 <= j, j < p), z3.And(same(q, j, o, j), sel(o.leaves[2], j) <= w.second))),
                  forall([j], Implies(z3.And(p <= j, j < o.len), same(q, j + 1, o, j))),
                  Implies(p < o.len, w.second < sel(o.leaves[2], p)))
    return exists([p], body)


C("sortedAdd(std::pair<int, double>)", requires=lambda c: inv(c.this), modifies=["this"],
  ensures=lambda c: inv(c.new) + [
      ("one more", c.new.walker_queue_.len == c.this.walker_queue_.len + 1),
      ("inserted before the first later entry, everything else in order", inserted(c)),
      ("sorted stays sorted", Implies(times_sorted(c.this.walker_queue_), times_sorted(c.new.walker_queue_))),
      ("flag", Implies(c.new.sorted_, c.this.sorted_))])


def permuted(c):
    q, o = c.new.walker_queue_, c.this.walker_queue_
    i, k = z3.Int("qp!i"), z3.Int("qp!k")
    return [("same size", q.len == o.len),
            ("nothing invented", forall([j], Implies(rng(q), exists([k], z3.And(0 <= k, k < o.len, same(q, j, o, k)))))),
            ("nothing lost", forall([j], Implies(rng(o), exists([k], z3.And(0 <= k, k < q.len, same(q, k, o, j))))))]


C("sort()", requires=lambda c: inv(c.this), modifies=["this"],
  ensures=lambda c: inv(c.new) + permuted(c) + [("sorted by time", times_sorted(c.new.walker_queue_)), ("flag set", c.new.sorted_)])
C("at(int)const",
  throws=lambda c: [("std::out_of_range", z3.Or(c.a(0) < 0, c.a(0) >= c.this.walker_queue_.len))],
  ensures=lambda c: [("the entry at that place", isw(c.this.walker_queue_, c.a(0), c.res))])
