"""Contracts of the C++ standard library operations the code uses (assumed, never proved):
containers as finite maps / sequences, algorithms, <cmath>, <random>, streams and strings."""
import z3
from ir import *
from terms import *
import prover
from prover import forall, exists, ENUM


def install(E):
    import engine
    Val, LV, Py, Outcome = engine.Val, engine.LV, engine.Py, engine.Outcome
    Unsupported = engine.Unsupported
    VEC, MAPS, SETS, ENGINES, OPAQUE = engine.VEC, engine.MAPS, engine.SETS, engine.ENGINES, engine.OPAQUE

    def method(f):
        setattr(E, f.__name__, f)
        return f

    VO = lambda: Val(VOID, [])

    def plain(self, ty):
        """element types whose default value is one fixed value"""
        ty = ty.noref()
        if ty.k in ("int", "double", "bool", "ptr", "enum"):
            return True
        if ty.k == "rec":
            if ty.n == "std::pair":
                return all(plain(self, a) for a in ty.args[:2])
            return ty.n in VEC + MAPS + SETS
        return False
    E.plain = plain

    # ---------------------------------------------------------------- exits
    @method
    def throw_if(self, st, c, exc, line):
        """fork off an exceptional exit under condition c"""
        c = tb(c)
        if z3.is_false(c):
            return
        if self.implied(st, Not(c)):
            return
        x = st.copy()
        self.assume(x, c)
        self.exits.append(Outcome("throw", x, exc=exc, line=line))
        self.assume(st, Not(c))

    # ---------------------------------------------------------------- iterators
    @method
    def mk_it(self, lv, **kw):
        d = dict(lv=lv, pos=None, key=None, end=None, ids=None, mapk=None)
        d.update(kw)
        return Py("it", **d)

    @method
    def contval(self, st, lv):
        return self.read(st, lv) if isinstance(lv, LV) else lv

    @method
    def it_begin(self, st, o):
        v = self.contval(st, o)
        if v.ty.n in VEC:
            return self.mk_it(o, pos=z3.IntVal(0), mapk=False)
        return self.mk_it(o, pos=z3.IntVal(0), mapk=True)

    @method
    def it_end(self, st, o):
        v = self.contval(st, o)
        if v.ty.n in VEC:
            return self.mk_it(o, pos=v.leaves[0], mapk=False, isend=True)
        return self.mk_it(o, pos=CARD(v.leaves[0]), mapk=True, isend=True)

    @method
    def deref_it(self, st, it):
        if it.key is not None:
            if it.end is not None and not self.implied(st, Not(it.end)):
                self.oblige(st, "dereference of an end iterator", Not(it.end), "safety", 0)
                self.assume(st, Not(it.end))
            return self.map_elem(st, it.lv, it.key)
        if it.pos is None:
            raise Unsupported("dereference of iterator")
        v = self.contval(st, it.lv)
        if v.ty.n in VEC:
            g = z3.And(it.pos >= 0, it.pos < v.leaves[0])
            if not self.implied(st, g):
                self.oblige(st, "iterator within the sequence", g, "safety", 0)
                self.assume(st, g)
            return self.elem(it.lv, it.pos)
        if it.ids is None:
            raise Unsupported("map iterator outside a loop")
        return self.map_elem(st, it.lv, sel(it.ids, it.pos))

    @method
    def map_elem(self, st, lv, key):
        v = self.contval(st, lv)
        if v.ty.n in SETS and len(v.leaves) == 1:
            return Val(v.ty.args[0], [key])
        if v.ty.n in SETS:
            return Val(v.ty.args[0], [key] + [sel(x, key) for x in v.leaves[1:]])
        return Py("mapelem", key=Val(v.ty.args[0], [key]), val=self.elem(lv, key))

    @method
    def step_it(self, st, x, cur, d, post):
        if cur.pos is None:
            raise Unsupported("step of a lookup iterator")
        n = Py("it", **{k: v for k, v in cur.__dict__.items() if k != "kind"})
        n.pos = cur.pos + d
        self.write(st, x, n)
        return cur if post else x

    @method
    def cmp_it(self, st, op, a, b):
        if op not in ("==", "!="):
            if a.pos is not None and b.pos is not None:
                x, y = a.pos, b.pos
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            raise Unsupported("iterator order")
        if a.key is not None and getattr(b, "isend", False):
            r = a.end if a.end is not None else z3.BoolVal(False)
        elif b.key is not None and getattr(a, "isend", False):
            r = b.end if b.end is not None else z3.BoolVal(False)
        elif a.pos is not None and b.pos is not None:
            r = Eq(a.pos, b.pos)
        else:
            raise Unsupported("iterator comparison")
        return r if op == "==" else Not(r)

    # ---------------------------------------------------------------- containers
    @method
    def keyz(self, st, x):
        v = self.rv(st, x)
        if not isinstance(v, Val):
            raise Unsupported("key")
        return self.coerce(v, INT).z if v.z.sort() != I else v.z

    @method
    def map_index(self, st, lv, k):
        """operator[]"""
        if isinstance(lv, Val):
            raise Unsupported("operator[] on temporary map")
        v = self.read(st, lv)
        dom = v.leaves[0]
        et = lv.ty.args[1]
        if self.loopdisc or not self.implied(st, sel(dom, k)):
            leaves = [self.store(dom, k, z3.BoolVal(True))]
            if self.plain(et):
                leaves += list(v.leaves[1:])      # canonical maps: an absent key already reads as the default
            else:
                dv = self.default_value(st, et)
                v = self.read(st, lv)
                leaves += [self.store(a, k, If(sel(dom, k), sel(a, k), d)) for a, d in zip(v.leaves[1:], dv.leaves)]
            self.write(st, lv, Val(lv.ty, leaves))
        return self.elem(lv, k)

    @method
    def map_insert(self, st, lv, k, leaves, overwrite):
        v = self.read(st, lv)
        dom = v.leaves[0]
        new = []
        for a, x in zip(v.leaves[1:], leaves):
            new.append(self.store(a, k, x if overwrite else If(sel(dom, k), sel(a, k), x)))
        was = sel(dom, k)
        self.write(st, lv, Val(lv.ty, [self.store(dom, k, z3.BoolVal(True))] + new))
        return was

    @method
    def map_erase(self, st, lv, k):
        v = self.read(st, lv)
        dom = v.leaves[0]
        was = sel(dom, k)
        leaves = [self.store(dom, k, z3.BoolVal(False))]
        et = lv.ty.args[1] if lv.ty.n in MAPS else None
        for a in v.leaves[1:]:
            if et is not None and self.plain(et):
                leaves.append(self.store(a, k, default(a.sort().range())))
            else:
                leaves.append(a)
        self.write(st, lv, Val(lv.ty, leaves))
        return was

    @method
    def vec_push(self, st, lv, leaves):
        v = self.read(st, lv)
        n = v.leaves[0]
        self.write(st, lv, Val(lv.ty, [self.num1(n + 1)] + [self.store_push(a, n, x) for a, x in zip(v.leaves[1:], leaves)]))

    @method
    def store_push(self, a, k, v):
        return z3.Store(a, k, v)

    @method
    def num1(self, t):
        return z3.simplify(t) if z3.is_int_value(z3.simplify(t)) else t

    def vec_insert(self, st, lv, p, leaves):
        v = self.read(st, lv)
        n = v.leaves[0]
        j = z3.Int("vi!j")
        new = [lam(j, If(j < p, sel(a, j), If(j == p, x, sel(a, j - 1)))) for a, x in zip(v.leaves[1:], leaves)]
        self.write(st, lv, Val(lv.ty, [self.num1(n + 1)] + new))

    def vec_erase(self, st, lv, p):
        v = self.read(st, lv)
        n = v.leaves[0]
        j = z3.Int("ve!j")
        new = [lam(j, If(j < p, sel(a, j), sel(a, j + 1))) for a in v.leaves[1:]]
        self.write(st, lv, Val(lv.ty, [self.num1(n - 1)] + new))

    def convert_elem(self, st, x, et):
        v = self.rv(st, x)
        if isinstance(v, Py) and v.kind == "mapelem":
            k, b = self.rv(st, v.key), self.rv(st, v.val)
            return list(self.coerce(k, et.args[0]).leaves) + list(self.coerce(b, et.args[1]).leaves)
        if isinstance(v, Py) and v.kind == "ilist":
            if et.isrec("std::pair"):
                return list(self.coerce(v.vals[0], et.args[0]).leaves) + list(self.coerce(v.vals[1], et.args[1]).leaves)
            raise Unsupported("braced element")
        return list(self.coerce(v, et).leaves)
    E.convert_elem = convert_elem

    def pair_of(self, st, a, b, et):
        a, b = self.rv(st, a), self.rv(st, b)
        return list(self.coerce(a, et.args[0]).leaves) + list(self.coerce(b, et.args[1]).leaves)

    @method
    def lib_method(self, st, o, f, e):
        n = f["n"]
        ov = self.rv(st, o)
        if isinstance(ov, Py):
            if ov.kind == "it" and n in ("operator->", "operator*"):
                return self.deref_it(st, ov)
            raise Unsupported("method %s of executor object" % n)
        t = ov.ty
        line = e.get("l", 0)
        args = e["args"]
        if t.k != "rec":
            raise Unsupported("method " + f["q"])
        if t.n.startswith("std::chrono"):
            return Val(e["t"].noref(), [fresh("clock", s) for s in self.lay.of(e["t"].noref())])
        if t.n in OPAQUE:
            for a in args:
                self.ev(st, a)
            tt = e["t"].noref()
            if tt.k == "void":
                return VO()
            return Val(tt, [fresh("opaque", s) for s in self.lay.of(tt)])
        if t.n in ENGINES:
            if n == "seed":
                s = self.keyz(st, self.ev(st, args[0])) if args else z3.IntVal(5489)
                self.write(st, o, Val(t, [SEED(s)]))
                return VO()
            if n == "discard":
                raise Unsupported("discard")
        if t.n in ("std::uniform_real_distribution", "std::uniform_int_distribution"):
            if n == "reset":
                return VO()
            if n in ("a", "min"):
                return Val(e["t"], [ov.leaves[0]])
            if n in ("b", "max"):
                return Val(e["t"], [ov.leaves[1]])
        if n in ("begin", "cbegin"):
            return self.it_begin(st, o)
        if n in ("end", "cend"):
            return self.it_end(st, o)
        if t.n in VEC:
            L = ov.leaves[0]
            et = t.args[0]
            if n == "size":
                return Val(SIZE, [L])
            if n == "empty":
                return Val(BOOL, [Eq(L, z3.IntVal(0))])
            if n in ("reserve", "shrink_to_fit"):
                for a in args:
                    self.ev(st, a)
                return VO()
            if n == "clear":
                self.write(st, o, Val(t, [z3.IntVal(0)] + list(ov.leaves[1:])))
                return VO()
            if n == "at":
                k = self.keyz(st, self.ev(st, args[0]))
                self.throw_if(st, Not(z3.And(k >= 0, k < L)), "std::out_of_range", line)
                return self.elem(o, k)
            if n in ("front", "back"):
                self.safety(st, L > 0, "%s() of an empty sequence" % n, line)
                return self.elem(o, z3.IntVal(0) if n == "front" else self.num1(L - 1))
            if n == "pop_front":
                self.safety(st, L > 0, "pop_front() of an empty sequence", line)
                j = z3.Int("pf!j")
                self.write(st, o, Val(t, [L - 1] + [lam(j, sel(a, j + 1)) for a in ov.leaves[1:]]))
                return VO()
            if n == "pop_back":
                self.safety(st, L > 0, "pop_back() of an empty sequence", line)
                self.write(st, o, Val(t, [L - 1] + list(ov.leaves[1:])))
                return VO()
            if n == "push_back":
                x = convert_elem(self, st, self.ev(st, args[0]), et)
                if not st.dead:
                    self.vec_push(st, o, x)
                return VO()
            if n == "emplace_back":
                xs = [self.ev(st, a) for a in args]
                if st.dead:
                    return VO()
                if et.isrec("std::pair") and len(xs) == 2:
                    self.vec_push(st, o, pair_of(self, st, xs[0], xs[1], et))
                elif len(xs) == 1:
                    self.vec_push(st, o, convert_elem(self, st, xs[0], et))
                else:
                    raise Unsupported("emplace_back")
                return VO()
            if n == "push_front" or n == "emplace_front":
                x = convert_elem(self, st, self.ev(st, args[0]), et)
                vec_insert(self, st, o, z3.IntVal(0), x)
                return VO()
            if n in ("insert", "emplace"):
                it = self.rv(st, self.ev(st, args[0]))
                if len(args) == 2 and isinstance(it, Py) and it.kind == "it" and it.pos is not None:
                    x = convert_elem(self, st, self.ev(st, args[1]), et)
                    self.safety(st, z3.And(it.pos >= 0, it.pos <= L), "insert position within the sequence", line)
                    vec_insert(self, st, o, it.pos, x)
                    return self.mk_it(o, pos=it.pos, mapk=False)
                if len(args) == 3 and n == "insert" and isinstance(it, Py) and it.kind == "it" and getattr(it, "isend", False):
                    a, b = self.rv(st, self.ev(st, args[1])), self.rv(st, self.ev(st, args[2]))
                    self.copy_range(st, a, b, Py("backins", lv=o), line)
                    return VO()
                raise Unsupported("insert form")
            if n == "erase":
                it = self.rv(st, self.ev(st, args[0]))
                if len(args) == 1 and isinstance(it, Py) and it.pos is not None:
                    self.safety(st, z3.And(it.pos >= 0, it.pos < L), "erase position within the sequence", line)
                    vec_erase(self, st, o, it.pos)
                    return self.mk_it(o, pos=it.pos, mapk=False)
                raise Unsupported("erase form")
            if n == "resize" and len(args) == 1:
                k = self.keyz(st, self.ev(st, args[0]))
                dv = self.default_value(st, et)
                j = z3.Int("rz!j")
                self.write(st, o, Val(t, [k] + [lam(j, If(j < L, sel(a, j), d)) for a, d in zip(ov.leaves[1:], dv.leaves)]))
                return VO()
            if n == "swap":
                o2 = self.ev(st, args[0])
                v2 = self.read(st, o2)
                self.write(st, o2, ov)
                self.write(st, o, v2)
                return VO()
        if t.n in MAPS + SETS:
            dom = ov.leaves[0]
            ismap = t.n in MAPS
            if n == "size":
                return Val(SIZE, [CARD(dom)])
            if n == "empty":
                return Val(BOOL, [Eq(CARD(dom), z3.IntVal(0))])
            if n in ("reserve", "rehash"):
                self.ev(st, args[0])
                return VO()
            if n == "clear":
                self.write(st, o, Val(t, [EMPTY] + ([default(a.sort()) for a in ov.leaves[1:]] if ismap and self.plain(t.args[1]) else list(ov.leaves[1:]))))
                return VO()
            if n in ("count", "contains", "find", "at"):
                ke = self.ev(st, args[0])
                if not ismap and len(ov.leaves) > 1:
                    raise Unsupported("lookup in a set of pairs")
                k = self.keyz(st, ke)
                if n == "count":
                    return Val(SIZE, [If(sel(dom, k), z3.IntVal(1), z3.IntVal(0))])
                if n == "contains":
                    return Val(BOOL, [sel(dom, k)])
                if n == "find":
                    return self.mk_it(o, key=k, end=Not(sel(dom, k)), mapk=True)
                self.throw_if(st, Not(sel(dom, k)), "std::out_of_range", line)
                return self.elem(o, k)
            if n == "erase":
                x = self.rv(st, self.ev(st, args[0]))
                if isinstance(x, Py) and x.kind == "it" and len(args) == 1:
                    if x.key is None:
                        raise Unsupported("erase by position")
                    if x.end is not None:
                        self.safety(st, Not(x.end), "erase of an end iterator", line)
                    self.map_erase(st, o, x.key)
                    return Py("bad", why="iterator after erase")
                if len(args) != 1:
                    raise Unsupported("erase range")
                was = self.map_erase(st, o, self.keyz(st, x))
                return Val(SIZE, [If(was, z3.IntVal(1), z3.IntVal(0))])
            if n in ("insert", "emplace", "insert_or_assign", "try_emplace"):
                xs = [self.ev(st, a) for a in args]
                if st.dead:
                    return VO()
                xv = [self.rv(st, x) for x in xs]
                if n == "insert" and len(xv) == 2 and all(isinstance(x, Py) and x.kind == "it" for x in xv):
                    self.copy_range(st, xv[0], xv[1], Py("ins", lv=o), line)
                    return VO()
                if ismap:
                    et = Ty("rec", "std::pair", (t.args[0], t.args[1]))
                    if len(xs) == 2:
                        ls = pair_of(self, st, xs[0], xs[1], et)
                    elif len(xs) == 1:
                        ls = convert_elem(self, st, xs[0], et)
                    else:
                        raise Unsupported("insert form")
                    was = self.map_insert(st, o, ls[0], ls[1:], n == "insert_or_assign")
                    k = ls[0]
                elif len(ov.leaves) == 1:
                    k = self.keyz(st, xs[0])
                    was = self.map_insert(st, o, k, [], False)
                else:
                    et = t.args[0]
                    ls = pair_of(self, st, xs[0], xs[1], et) if len(xs) == 2 else convert_elem(self, st, xs[0], et)
                    self.set_of_pairs_ok(st, t)
                    k = ls[0]
                    self.safety(st, Or(Not(sel(dom, k)), And([Eq(sel(a, k), v) for a, v in zip(ov.leaves[1:], ls[1:])])),
                                "one value per id in an ordered set of pairs", line)
                    was = self.map_insert(st, o, k, ls[1:], False)
                return Py("insres", it=self.mk_it(o, key=k, end=z3.BoolVal(False), mapk=True), ok=Val(BOOL, [Not(was)]))
            if n == "swap":
                o2 = self.ev(st, args[0])
                v2 = self.read(st, o2)
                self.write(st, o2, ov)
                self.write(st, o, v2)
                return VO()
        raise Unsupported("method " + f["q"])

    @method
    def safety(self, st, g, what, line):
        if self.implied(st, g):
            return
        self.oblige(st, what, g, "safety", line)
        self.assume(st, g)

    @method
    def set_of_pairs_ok(self, st, t):
        """a std::set<pair<int,X>, Cmp> is treated as a map keyed by the first component; this is
        justified when Cmp is a strict order under which two pairs are equivalent iff their first
        components are equal: proved here from the comparator's own code."""
        if getattr(self, "_cmpok", {}).get(t.key):
            return
        cmp_t = t.args[1] if len(t.args) > 1 else None
        if cmp_t is None or cmp_t.key not in self.prog.recs:
            raise Unsupported("set comparator")
        et = t.args[0]
        saved = self.record
        self.record = False
        try:
            def call(a, b):
                s = engine.State()
                s.cells["heap"] = st.cells.get("heap", ())
                lv = self.newcell(s, cmp_t, [], "cmp")
                ex = self.exits
                self.exits = []
                r = self.call_functor(s, lv, [a, b])
                self.exits = ex
                return self.tobool(self.rv(s, r)), s.pc
            mk = lambda nm: Val(et, [fresh(nm, s) for s in self.lay.of(et)])
            a, b, c = mk("ca"), mk("cb"), mk("cc")
            ab, p1 = call(a, b)
            ba, p2 = call(b, a)
            bc, p3 = call(b, c)
            ac, p4 = call(a, c)
        finally:
            self.record = saved
        probs = [(Not(And(ab, ba)), "irreflexive/asymmetric"),
                 (Eq(And(Not(ab), Not(ba)), a.leaves[0] == b.leaves[0]), "equivalence is equality of the first component"),
                 (Implies(And(ab, bc), ac), "transitive")]
        # one value per id: obliged at every insertion
        hy = [Implies(x.leaves[0] == y.leaves[0], And([Eq(u, v) for u, v in zip(x.leaves[1:], y.leaves[1:])])) for x, y in ((a, b), (b, c), (a, c))]
        for g, nm in probs:
            r = prover.prove(p1 + p2 + p3 + p4, g, 10)
            if r[0] != "proved":
                r = prover.prove(p1 + p2 + p3 + p4 + hy, g, 10)
            if r[0] != "proved":
                raise Unsupported("set comparator is not " + nm)
        if not hasattr(self, "_cmpok"):
            self._cmpok = {}
        self._cmpok[t.key] = True

    # ---------------------------------------------------------------- operators
    @method
    def lib_op(self, st, e, f, op):
        a = e["args"]
        q = f["q"]
        line = e.get("l", 0)
        if op == "<<" and ("ostream" in q or q == "std::operator<<"):
            for x in a:
                if x["e"] in ("str", "gref"):
                    continue
                self.ev(st, x)
            return VO()
        x = self.ev(st, a[0])
        if st.dead:
            return VO()
        xv = self.rv(st, x)
        if isinstance(xv, Py):
            if op == "*" or op == "->":
                r = self.deref_it(st, xv) if xv.kind == "it" else None
                if r is None:
                    raise Unsupported("deref of " + xv.kind)
                if op == "->":
                    return r if isinstance(r, Py) else Py("ptr", lv=r)
                return r
            if op in ("++", "--"):
                return self.step_it(st, x, xv, 1 if op == "++" else -1, len(a) == 2)
            if op in ("==", "!=", "<", "<=", ">", ">="):
                yv = self.rv(st, self.ev(st, a[1]))
                return Val(BOOL, [self.compare(st, op, xv, yv)])
            if op == "()":
                args = [self.ev(st, y) for y in a[1:]]
                return self.call_functor(st, x, args)
            if op == "=":
                yv = self.rv(st, self.ev(st, a[1]))
                self.write(st, x, yv)
                return x
            if op in ("+", "-") and xv.kind == "it" and xv.pos is not None:
                y = self.rv(st, self.ev(st, a[1]))
                if isinstance(y, Py):
                    return Val(INT, [xv.pos - y.pos])
                n = self.mk_it(xv.lv, pos=xv.pos + y.z if op == "+" else xv.pos - y.z, mapk=xv.mapk, ids=xv.ids)
                return n
            if op in ("+=", "-=") and xv.kind == "it" and xv.pos is not None:
                y = self.rv(st, self.ev(st, a[1]))
                n = self.mk_it(xv.lv, pos=xv.pos + y.z if op == "+=" else xv.pos - y.z, mapk=xv.mapk, ids=xv.ids)
                self.write(st, x, n)
                return x
            raise Unsupported("operator %s on executor object" % op)
        t = xv.ty
        if op == "[]":
            k = self.keyz(st, self.ev(st, a[1]))
            if st.dead:
                return VO()
            if t.n in MAPS:
                return self.map_index(st, x, k)
            if t.n in VEC:
                self.safety(st, z3.And(k >= 0, k < xv.leaves[0]), "index within the sequence", line)
                return self.elem(x, k)
            if t.n == "std::array":
                return self.elem(x, k)
            raise Unsupported("operator[] on " + t.key)
        if op == "=":
            y = self.rv(st, self.ev(st, a[1]))
            if st.dead:
                return VO()
            if isinstance(y, Py) and y.kind == "ilist":
                y = self.from_ilist(st, t, y)
            if isinstance(y, Py) and y.kind == "mapelem":
                y = Val(t, self.convert_elem(st, y, t))
            self.write(st, x, self.coerce(y, x.ty) if isinstance(y, Val) else y)
            return x
        if op == "()":
            if t.n == "std::uniform_real_distribution":
                g = self.ev(st, a[1])
                s = self.read(st, g).z
                lo, hi = xv.leaves
                self.write(st, g, Val(g.ty, [NEXT(s)]))
                u = DRAW(s)
                if z3.is_rational_value(lo) and z3.is_rational_value(hi) and lo.as_fraction() == 0 and hi.as_fraction() == 1:
                    return Val(DOUBLE, [u])
                return Val(DOUBLE, [lo + (hi - lo) * u])
            if t.n == "std::uniform_int_distribution":
                g = self.ev(st, a[1])
                s = self.read(st, g).z
                self.write(st, g, Val(g.ty, [NEXT(s)]))
                return Val(INT, [IDRAW(s, xv.leaves[0], xv.leaves[1])])
            if t.n in ENGINES:
                raise Unsupported("raw engine draw")
            return self.call_functor(st, x, [self.ev(st, y) for y in a[1:]])
        if op in ("+", "+=") and (t.n in OPAQUE or t.k in ("ptr", "int")):
            if len(a) > 1:
                self.ev(st, a[1])
            return Val(STR, [z3.IntVal(0)])
        if op in ("==", "!=", "<", "<=", ">", ">="):
            y = self.rv(st, self.ev(st, a[1]))
            if t.n in OPAQUE:
                return Val(BOOL, [fresh("streq", B)])
            if t.isrec("std::pair"):
                ls = [(p, q2) for p, q2 in zip(xv.leaves, y.leaves)]
                if len(ls) == 2:
                    (p, q1), (r, s) = ls
                    eq = And(Eq(p, q1), Eq(r, s))
                    lt = Or(p < q1, And(Eq(p, q1), r < s))
                    res = {"==": eq, "!=": Not(eq), "<": lt, "<=": Or(lt, eq), ">": And(Not(lt), Not(eq)), ">=": Not(lt)}[op]
                    return Val(BOOL, [res])
            if op in ("==", "!=") and t.n in MAPS + SETS and self.plain(t.args[-1]):
                eq = And([Eq(p, q2) for p, q2 in zip(xv.leaves, y.leaves)])
                return Val(BOOL, [eq if op == "==" else Not(eq)])
            raise Unsupported("comparison of " + t.key)
        raise Unsupported("operator %s on %s" % (op, t.key))

    # ---------------------------------------------------------------- constructors
    @method
    def from_ilist(self, st, t, il):
        if t.n in VEC:
            et = t.args[0]
            leaves = [default(arr(s)) for s in self.lay.of(et)]
            for i, x in enumerate(il.vals):
                ls = self.convert_elem(st, x, et)
                leaves = [z3.Store(a, z3.IntVal(i), y) for a, y in zip(leaves, ls)]
            return Val(t, [z3.IntVal(len(il.vals))] + leaves)
        if t.n in SETS and len(self.lay.of(t)) == 1:
            d = EMPTY
            for x in il.vals:
                d = z3.Store(d, self.coerce(x, INT).z, z3.BoolVal(True))
            return Val(t, [d])
        if t.n in MAPS:
            lv = self.newcell(st, t, [default(s) for s in self.lay.of(t)], "il")
            et = Ty("rec", "std::pair", (t.args[0], t.args[1]))
            for x in il.vals:
                ls = self.convert_elem(st, x, et)
                self.map_insert(st, lv, ls[0], ls[1:], False)
            return self.read(st, lv)
        raise Unsupported("initialiser list of " + t.key)

    @method
    def lib_ctor(self, st, e, f, t):
        args = e["args"]
        n = t.n or ""
        if n in OPAQUE:
            for a in args:
                if a["e"] != "str":
                    self.ev(st, a)
            return Val(t, [z3.IntVal(0)])
        if not args or (len(args) == 1 and args[0]["t"].noref().isrec("std::allocator")):
            return self.default_value(st, t)
        if "iterator" in n:
            return self.rv(st, self.ev(st, args[0]))
        if n == "std::pair":
            if len(args) == 2:
                a, b = self.rv(st, self.ev(st, args[0])), self.rv(st, self.ev(st, args[1]))
                if st.dead:
                    return VO()
                return Val(t, self.coerce(a, t.args[0]).leaves + self.coerce(b, t.args[1]).leaves)
            v = self.rv(st, self.ev(st, args[0]))
            if isinstance(v, Py) and v.kind == "mapelem":
                return Val(t, self.convert_elem(st, v, t))
            return self.coerce(v, t)
        if n in ENGINES:
            return Val(t, [SEED(self.keyz(st, self.ev(st, args[0])))])
        if n == "std::uniform_real_distribution":
            a = [self.coerce(self.rv(st, self.ev(st, x)), DOUBLE).z for x in args]
            return Val(t, [a[0], a[1] if len(a) > 1 else z3.RealVal(1)])
        if n == "std::uniform_int_distribution":
            a = [self.coerce(self.rv(st, self.ev(st, x)), INT).z for x in args]
            return Val(t, [a[0], a[1] if len(a) > 1 else z3.IntVal(2 ** 31 - 1)])
        if n in VEC + MAPS + SETS:
            v = [self.rv(st, self.ev(st, x)) for x in args if not x["t"].noref().isrec("std::allocator")
                 and not (x["t"].noref().n or "") in ("std::less", "std::hash", "std::equal_to")]
            if st.dead:
                return VO()
            if len(v) == 1 and isinstance(v[0], Val) and v[0].ty.key == t.key:
                return v[0]
            if v and isinstance(v[0], Py) and v[0].kind == "ilist":
                return self.from_ilist(st, t, v[0])
            if len(v) >= 2 and isinstance(v[0], Py) and v[0].kind == "it":
                lv = self.newcell(st, t, self.default_value(st, t).leaves, "ctr")
                self.copy_range(st, v[0], v[1], Py("backins" if n in VEC else "ins", lv=lv), e.get("l", 0))
                return self.read(st, lv)
            if n in VEC and isinstance(v[0], Val) and v[0].z.sort() == I:
                k = v[0].z
                if len(v) > 1 and isinstance(v[1], Val):
                    ls = self.coerce(v[1], t.args[0]).leaves
                else:
                    ls = self.default_value(st, t.args[0]).leaves
                return Val(t, [k] + [z3.K(I, x) for x in ls])
        raise Unsupported("constructor " + f["q"])

    # ---------------------------------------------------------------- functions
    @method
    def pred_term(self, st, fo, elem):
        """boolean (or other) value of a side-effect free callable on an element"""
        s = st.copy()
        ex = self.exits
        self.exits = []
        r = self.rv(s, self.call_functor(s, fo, elem))
        bad = self.exits
        self.exits = ex
        if bad or s.dead:
            raise Unsupported("callable with exits")
        for cid in st.cells:
            a, b = st.cells[cid], s.cells[cid]
            if a is not b and not (isinstance(a, tuple) and isinstance(b, tuple) and all(x.eq(y) for x, y in zip(a, b))):
                raise Unsupported("callable with side effects")
        return r, s.pc[len(st.pc):]

    @method
    def it_range(self, st, a, b):
        """(container, lo, hi) of an iterator pair; hi None = whole map"""
        if not (isinstance(a, Py) and isinstance(b, Py) and a.kind == b.kind == "it"):
            raise Unsupported("iterator range")
        if isinstance(a.lv, LV) and isinstance(b.lv, LV) and not a.lv.same(b.lv):
            raise Unsupported("iterators of different containers")
        v = self.contval(st, a.lv)
        if v.ty.n in VEC:
            return v, a.pos, b.pos
        if a.pos is not None and z3.is_int_value(a.pos) and a.pos.as_long() == 0 and getattr(b, "isend", False):
            return v, None, None
        raise Unsupported("map sub-range")

    def is0(x):
        return z3.is_int_value(x) and x.as_long() == 0

    @method
    def lib_find_if(self, st, args, line, neg=False, value=None):
        a, b = self.rv(st, args[0]), self.rv(st, args[1])
        v, lo, hi = self.it_range(st, a, b)
        if lo is None:
            raise Unsupported("find_if over a map")
        j = fresh("fj", I)
        ev = Val(v.ty.args[0], [sel(x, j) for x in v.leaves[1:]])
        if value is not None:
            p, extra = And([Eq(x, y) for x, y in zip(ev.leaves, self.coerce(value, ev.ty).leaves)]), []
        else:
            r, extra = self.pred_term(st, args[2], [ev])
            p = self.tobool(r)
        if extra:
            raise Unsupported("predicate with assumptions")
        if neg:
            p = Not(p)
        pos = fresh("fpos", I)
        self.assume(st, z3.And(lo <= pos, pos <= hi))
        self.assume(st, Implies(pos < hi, subst(p, (j, pos))))
        q = z3.Int("ff!q")
        pats = [sel(v.leaves[1], q)] if z3.is_const(v.leaves[1]) else None
        self.assume(st, forall([q], Implies(z3.And(lo <= q, q < pos), Not(subst(p, (j, q)))), pats, manual=True))
        return self.mk_it(a.lv, pos=pos, mapk=False)

    @method
    def copy_range(self, st, a, b, dst, line):
        v, lo, hi = self.it_range(st, a, b)
        if not (isinstance(dst, Py) and dst.kind in ("backins", "ins")):
            raise Unsupported("copy destination")
        lv = dst.lv

        def put(s, ls):
            if lv.ty.n in VEC:
                self.vec_push(s, lv, ls)
            elif lv.ty.n in SETS and len(self.lay.of(lv.ty)) == 1:
                self.map_insert(s, lv, ls[0], [], False)
            else:
                self.map_insert(s, lv, ls[0], ls[1:], False)
        if lo is None:
            dom = v.leaves[0]

            def run(s, x):
                put(s, [x] + [sel(l, x) for l in v.leaves[1:]])
            self.loop_set(st, dom, run, line, order=v.ty)
        else:
            en = v.meta.get("enum") if v.meta else None
            if en is not None and is0(lo):
                D, fs = self.enum_parts(v)

                def run2(s, x):
                    put(s, [subst(t, (ev_, x)) for ev_, t in fs])
                self.loop_set(st, D, run2, line)
                return

            def run3(s, k):
                put(s, [sel(l, lo + k) for l in v.leaves[1:]])
            self.loop_cnt(st, If(hi > lo, hi - lo, z3.IntVal(0)) if not is0(lo) else hi, run3, line)

    @method
    def enum_parts(self, v):
        """set and element function of a vector known to enumerate a set"""
        ids, n, D = v.meta["enum"]
        x = fresh("ep", I)
        fs = []
        for l in v.leaves[1:]:
            j = fresh("ej", I)
            t = sel(l, j)
            t = subst(t, (z3.Select(ids, j), x))
            if occurs(t, j):
                return None, None
            fs.append((x, t))
        return D, fs

    @method
    def lib_sort(self, st, args, line, stable=False):
        a, b = self.rv(st, args[0]), self.rv(st, args[1])
        v, lo, hi = self.it_range(st, a, b)
        if lo is None or not is0(lo) or not hi.eq(v.leaves[0]):
            raise Unsupported("sort of a sub-range")
        n = v.leaves[0]
        et = v.ty.args[0]
        meta = None
        parts = self.enum_parts(v) if v.meta and v.meta.get("enum") else (None, None)
        if parts[0] is not None:
            D, fs = parts
            ids2 = fresh("ids", arr(I))
            j = z3.Int("so!j")
            leaves = [lam(j, subst(t, (x, z3.Select(ids2, j)))) for x, t in fs]
            self.assume(st, ENUM(ids2, n, D))
            meta = {"enum": (ids2, n, D)}
        else:
            perm, inv = fresh("perm", arr(I)), fresh("inv", arr(I))
            j = z3.Int("so!j")
            new = [fresh("sorted", x.sort()) for x in v.leaves[1:]]
            rng = z3.And(0 <= j, j < n)
            body = z3.And([0 <= perm[j], perm[j] < n, inv[perm[j]] == j] + [w[j] == sel(x, perm[j]) for w, x in zip(new, v.leaves[1:])])
            self.assume(st, forall([j], Implies(rng, body), [new[0][j]]))
            self.assume(st, forall([j], Implies(rng, z3.And(0 <= inv[j], inv[j] < n, perm[inv[j]] == j)), [inv[j]], manual=True))
            leaves = new
        i2, j2 = fresh("si", I), fresh("sj", I)
        A = Val(et, [sel(x, i2) for x in leaves])
        Bv = Val(et, [sel(x, j2) for x in leaves])
        if len(args) > 2:
            r, extra = self.pred_term(st, args[2], [Bv, A])
            c = self.tobool(r)
        else:
            if len(A.leaves) != 1:
                raise Unsupported("sort without comparator")
            c, extra = Bv.z < A.z, []
        if extra:
            raise Unsupported("comparator with assumptions")
        p, q = z3.Ints("so!p so!q")
        fact = Implies(z3.And(0 <= p, p < q, q < n), Not(subst(c, (i2, p), (j2, q))))
        self.assume(st, forall([p, q], fact, [mpat(sel(leaves[-1], p), sel(leaves[-1], q))] if z3.is_const(leaves[-1]) else None, manual=True))
        if stable:
            pass
        nv = Val(v.ty, [n] + leaves, meta)
        self.write(st, a.lv, nv)
        return VO()

    @method
    def lib_call(self, st, e, f):
        q = f["q"]
        n = f["n"]
        line = e.get("l", 0)
        if n == "__assert_fail":
            self.exits.append(Outcome("abort", st.copy(), line=line))
            st.dead = True
            return VO()
        if n in ("abort", "exit", "terminate", "_Exit"):
            self.exits.append(Outcome("abort", st.copy(), line=line))
            st.dead = True
            return VO()
        if n == "now":
            return Val(e["t"], [fresh("clock", s) for s in self.lay.of(e["t"])])
        if n == "time":
            return Val(e["t"], [fresh("clock", I)])
        args = [self.ev(st, a) for a in e["args"]]
        if st.dead:
            return VO()
        if n == "to_string":
            return Val(STR, [z3.IntVal(0)])
        if n in ("move", "forward") and len(args) == 1:
            return args[0]
        if n in ("move", "copy") and len(args) == 3:
            vs = [self.rv(st, a) for a in args]
            self.copy_range(st, vs[0], vs[1], vs[2], line)
            return vs[2]
        if n == "copy_if" and len(args) == 4:
            raise Unsupported("copy_if")
        if n == "back_inserter":
            return Py("backins", lv=args[0])
        if n == "inserter":
            if args[0].ty.n in VEC:
                raise Unsupported("inserter into a sequence")
            return Py("ins", lv=args[0])
        if n == "find_if":
            return self.lib_find_if(st, args, line)
        if n == "find_if_not":
            return self.lib_find_if(st, args, line, neg=True)
        if n == "find":
            return self.lib_find_if(st, args, line, value=self.rv(st, args[2]))
        if n in ("any_of", "all_of", "none_of"):
            a, b = self.rv(st, args[0]), self.rv(st, args[1])
            v, lo, hi = self.it_range(st, a, b)
            j = z3.Int("ao!j%d" % line)
            if lo is not None:
                ev = Val(v.ty.args[0], [sel(x, j) for x in v.leaves[1:]])
                g = z3.And(lo <= j, j < hi)
            else:
                ev = self.map_elem(st, a.lv, j)
                g = sel(v.leaves[0], j)
            r, extra = self.pred_term(st, args[2], [ev])
            p = self.tobool(r)
            if extra:
                raise Unsupported("predicate with assumptions")
            if n == "any_of":
                return Val(BOOL, [exists([j], And(g, p))])
            return Val(BOOL, [forall([j], Implies(g, p if n == "all_of" else Not(p)))])
        if n in ("sort", "stable_sort"):
            return self.lib_sort(st, args, line, n == "stable_sort")
        if n == "accumulate":
            return self.lib_accumulate(st, args, e, line)
        if n == "for_each":
            return self.lib_for_each(st, args, line)
        if n == "make_pair":
            a, b = self.rv(st, args[0]), self.rv(st, args[1])
            t = e["t"]
            return Val(t, self.coerce(a, t.args[0]).leaves + self.coerce(b, t.args[1]).leaves)
        if n == "swap" and len(args) == 2:
            a, b = self.rv(st, args[0]), self.rv(st, args[1])
            self.write(st, args[0], b)
            self.write(st, args[1], a)
            return VO()
        if n in ("begin", "end", "cbegin", "cend"):
            return self.it_begin(st, args[0]) if "begin" in n else self.it_end(st, args[0])
        if n == "distance":
            a, b = self.rv(st, args[0]), self.rv(st, args[1])
            return Val(INT, [b.pos - a.pos])
        if n in ("next", "prev", "advance"):
            a = self.rv(st, args[0])
            d = self.rv(st, args[1]).z if len(args) > 1 else z3.IntVal(1)
            it = self.mk_it(a.lv, pos=a.pos + d if n != "prev" else a.pos - d, mapk=a.mapk, ids=a.ids)
            if n == "advance":
                self.write(st, args[0], it)
                return VO()
            return it
        vs = [self.rv(st, a) for a in args]
        rt = e["t"].noref()
        if any(isinstance(v, Py) for v in vs):
            raise Unsupported("call " + q)
        if n == "tie" or n == "get":
            raise Unsupported("call " + q)
        if n in ("min", "max") and len(vs) == 2:
            a, b = vs[0].z, vs[1].z
            c = (b < a) if n == "min" else (a < b)
            return Val(rt, [If(c, b, a)])
        if n in ("abs", "labs", "fabs"):
            z = vs[0].z
            if rt.k == "double":
                z = toreal(z)
            return Val(rt, [z3.If(z >= 0, z, -z)])
        if n in ("pow", "exp", "log", "sqrt", "floor", "ceil", "round", "trunc", "fmin", "fmax", "fmod", "hypot", "lround", "isnan", "isinf", "isfinite", "cbrt", "remainder"):
            a = [toreal(v.z) for v in vs]
            return self.mathfn(st, n, a, rt)
        if q.startswith("std::numeric_limits") and rt.k == "int" and rt.w:
            lo, hi = (-(1 << (rt.w - 1)), (1 << (rt.w - 1)) - 1) if rt.s else (0, (1 << rt.w) - 1)
            if n in ("min", "lowest", "max"):
                return Val(rt, [z3.IntVal(hi if n == "max" else lo)])
        if n == "numeric_limits" or q.startswith("std::numeric_limits"):
            return Val(rt, [z3.Const("const:" + q, self.lay.of(rt)[0])])
        raise Unsupported("call " + q)

    @method
    def mathfn(self, st, n, a, rt):
        x = a[0]
        if n == "pow":
            y = z3.simplify(a[1])
            if z3.is_rational_value(y):
                fr = y.as_fraction()
                if fr.denominator == 1 and 0 <= fr.numerator <= 8:
                    r = z3.RealVal(1)
                    for _ in range(fr.numerator):
                        r = x if r.eq(z3.RealVal(1)) else r * x
                    return Val(DOUBLE, [r])
                if fr == fr.__class__(1, 2):
                    return Val(DOUBLE, [SQRT(x)])
                if fr.denominator == 1 and -8 <= fr.numerator < 0:
                    r = x
                    for _ in range(-fr.numerator - 1):
                        r = r * x
                    return Val(DOUBLE, [1 / r])
            return Val(DOUBLE, [POW(x, a[1])])
        if n == "sqrt":
            return Val(DOUBLE, [SQRT(x)])
        if n == "exp":
            return Val(DOUBLE, [EXP(x)])
        if n == "log":
            return Val(DOUBLE, [LOG(x)])
        if n == "hypot":
            s = x * x
            for y in a[1:]:
                s = s + y * y
            return Val(DOUBLE, [SQRT(s)])
        fl = z3.ToInt(x)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            fl = x.arg(0)
        if n == "floor":
            r = fl
        elif n == "ceil":
            r = -z3.ToInt(-x)
        elif n == "trunc":
            r = self.trunc(x)
        elif n in ("round", "lround"):
            h = z3.RealVal("1/2")
            r = z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h))
        elif n in ("fmin", "fmax"):
            c = x < a[1] if n == "fmin" else x > a[1]
            return Val(DOUBLE, [If(c, x, a[1])])
        elif n in ("isnan", "isinf"):
            return Val(BOOL, [z3.BoolVal(False)])
        elif n == "isfinite":
            return Val(BOOL, [z3.BoolVal(True)])
        else:
            raise Unsupported("math function " + n)
        return Val(rt, [z3.ToReal(r) if rt.k == "double" else r])

    @method
    def lib_accumulate(self, st, args, e, line):
        a, b = self.rv(st, args[0]), self.rv(st, args[1])
        v, lo, hi = self.it_range(st, a, b)
        acct = self.rv(st, args[2])
        rt = e["t"].noref()
        acct = self.coerce(acct, rt)
        acc = self.newcell(st, rt, acct.leaves, "acc")

        def one(s, ev):
            cur = self.read(s, acc)
            if len(args) > 3:
                r = self.rv(s, self.call_functor(s, args[3], [cur, ev]))
            else:
                r = self.num(s, "+", cur, self.rv(s, ev), rt, {})
            if not s.dead:
                self.write(s, acc, self.coerce(r, rt))
        if lo is None:
            self.loop_set(st, v.leaves[0], lambda s, x: one(s, self.map_elem(s, a.lv, x)), line)
        elif v.meta and v.meta.get("enum") and is0(lo) and self.enum_parts(v)[0] is not None:
            D, fs = self.enum_parts(v)
            self.loop_set(st, D, lambda s, x: one(s, Val(v.ty.args[0], [subst(t, (ev_, x)) for ev_, t in fs])), line)
        else:
            n = hi if is0(lo) else If(hi > lo, hi - lo, z3.IntVal(0))
            self.loop_cnt(st, n, lambda s, k: one(s, Val(v.ty.args[0], [sel(l, lo + k if not is0(lo) else k) for l in v.leaves[1:]])), line)
        return self.read(st, acc)

    @method
    def lib_for_each(self, st, args, line):
        a, b = self.rv(st, args[0]), self.rv(st, args[1])
        v, lo, hi = self.it_range(st, a, b)
        fo = args[2]
        if lo is None:
            self.loop_set(st, v.leaves[0], lambda s, x: self.call_functor(s, fo, [self.map_elem(s, a.lv, x)]), line)
        else:
            n = hi if is0(lo) else If(hi > lo, hi - lo, z3.IntVal(0))
            self.loop_cnt(st, n, lambda s, k: self.call_functor(s, fo, [self.elem(a.lv, lo + k if not is0(lo) else k)]), line)
        return VO()
