"""Loops.  Every loop is replaced by an inductive summary: for each location the body can change, a
closed form over the visited part of the iteration space is guessed from one symbolic execution of the
body and then proved inductive (base by construction, step by the prover).  Locations for which no
closed form is provable are havocked and constrained by those candidate invariants that are provable."""
import z3
from ir import *
from terms import *
import terms
import prover
from prover import forall, exists, ENUM

LSTAT = {"loops": 0, "closed": 0, "havoc": 0, "inv": 0, "steps": 0, "steptime": 0.0}
CMPS = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ)
PUSH = {}     # id of summarised length constant -> (base len, base arrays, events)


class Ev:
    """one push_back event: binders = [(const, kind, dom)], guard, value leaves"""
    def __init__(self, binders, guard, vals):
        self.binders, self.guard, self.vals = binders, guard, vals


def depth(s):
    d = 0
    while s.kind() == z3.Z3_ARRAY_SORT:
        s = s.range()
        d += 1
    return d, s


def seln(a, ys):
    for y in ys:
        a = sel(a, y)
    return a


def lamn(ys, body):
    for y in reversed(ys):
        body = lam(y, body)
    return body


def cnum_next():
    terms._ctr[0] += 1
    return terms._ctr[0]


def cnum(c):
    n = c.decl().name()
    if "!" in n:
        t = n.rsplit("!", 1)[1]
        if t.isdigit():
            return int(t)
    return -1


def leaves_of_ite(t, path=()):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return leaves_of_ite(a, path + (c,)) + leaves_of_ite(b, path + (Not(c),))
    if t.sort() == B and z3.is_app(t):
        k = t.decl().kind()
    return [(path, t)]


class Ctx:
    def __init__(self, kind, D=None, n=None):
        self.kind, self.D, self.n = kind, D, n
        if kind == "set":
            self.x = fresh("e", I)
            self.V = fresh("V", SET)
        else:
            self.x = fresh("k", I)
            self.V = None

    def facts(self):
        if self.kind == "set":
            y = z3.Int("vs!y")
            return [sel(self.D, self.x), Not(sel(self.V, self.x)),
                    forall([y], Implies(sel(self.V, y), sel(self.D, y)), [z3.Select(self.V, y)])]
        f = [self.x >= 0]
        if self.n is not None:
            f.append(self.x < self.n)
        return f

    def norm(self, t):
        """simplify with e not in V"""
        if self.kind == "set":
            return subst(t, (z3.Select(self.V, self.x), z3.BoolVal(False)))
        return t

    def mem(self, t):
        if self.kind == "set":
            return sel(self.V, t)
        return z3.And(t >= 0, t < self.x)

    def sum(self, body, j):
        """sum of body over the visited elements j"""
        if self.kind == "set":
            return mk_sum(j, body, D=self.V)
        return mk_sum(j, body, n=self.x, nonneg=True)

    def step(self, t):
        if self.kind == "set":
            return subst(t, (self.V, z3.Store(self.V, self.x, z3.BoolVal(True))))
        return subst(t, (self.x, self.x + 1))

    def final(self, t):
        if self.kind == "set":
            return resum(subst(t, (self.V, self.D)))
        return subst(t, (self.x, self.n))

    def init(self, t):
        if self.kind == "set":
            return subst(t, (self.V, EMPTY))
        return subst(t, (self.x, z3.IntVal(0)))

    def visited_forall(self, body, upto=None):
        """for every already visited element x: body(x)"""
        j = z3.Int("lv!j%d" % cnum(self.x))
        b = subst(body, (self.x, j))
        if self.kind == "set":
            return forall([j], Implies(sel(upto if upto is not None else self.V, j), b), manual=True)
        hi = upto if upto is not None else self.x
        return forall([j], Implies(z3.And(0 <= j, j < hi), b), manual=True)


def install(E):
    import engine
    Val, LV, Py, Outcome, State = engine.Val, engine.LV, engine.Py, engine.Outcome, engine.State
    Unsupported = engine.Unsupported
    VEC, MAPS, SETS = engine.VEC, engine.MAPS, engine.SETS

    def method(f):
        setattr(E, f.__name__, f)
        return f

    # ------------------------------------------------------------ canonical representation
    @method
    def canon(self, ty, leaves):
        out = []

        def go(ty, leaves, ys):
            ty = ty.noref()
            if ty.k != "rec":
                return
            off = 0

            def q(body, trig):
                if not ys and False:
                    return
                out.append((list(ys), body, trig))
            if ty.n in MAPS + SETS:
                dom = leaves[0]
                y = z3.Int("cn!%d" % len(ys))
                if ty.n in MAPS and self.plain(ty.args[1]):
                    for l, s in zip(leaves[1:], self.lay.of(ty.args[1])):
                        d, base = depth(s)
                        zs = [z3.Int("cn!%d" % (len(ys) + 1 + i)) for i in range(d)]
                        t = seln(sel(l, y), zs)
                        body = Implies(Not(sel(dom, y)), Eq(t, default(base)) if base != B else Not(t))
                        out.append((ys + [y] + zs, body, t))
                    go(ty.args[1], [sel(l, y) for l in leaves[1:]], ys + [y])
                elif ty.n in MAPS:
                    go(ty.args[1], [sel(l, y) for l in leaves[1:]], ys + [y])
                return
            if ty.n in VEC:
                out.append((list(ys), leaves[0] >= 0, leaves[0]))
                return
            if ty.n == "std::pair":
                k = len(self.lay.of(ty.args[0]))
                go(ty.args[0], leaves[:k], ys)
                go(ty.args[1], leaves[k:], ys)
                return
            if ty.key in self.prog.recs:
                r = self.prog.recs[ty.key]
                off = 0
                for t in [b["t"] for b in r["bases"]] + [f["t"] for f in r["fields"]]:
                    k = len(self.lay.of(t))
                    go(t, leaves[off:off + k], ys)
                    off += k
        go(ty, list(leaves), [])
        res = []
        for ys, body, trig in out:
            if not ys:
                res.append(body)
                continue
            ok = z3.is_app(trig) and trig.decl().kind() == z3.Z3_OP_SELECT and all(occurs(trig, y) for y in ys) and not _haslam(trig)
            res.append(forall(ys, body, [trig] if ok else None))
        return res

    def _haslam(t):
        st = [t]
        while st:
            x = st.pop()
            if z3.is_quantifier(x):
                return True
            if z3.is_app(x):
                if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE):
                    return True
                st.extend(x.children())
        return False

    # ------------------------------------------------------------ statements
    @method
    def s_rfor(self, st, s):
        r = self.ev(st, s["r"])
        if st.dead:
            return
        v = self.rv(st, r)
        if isinstance(v, Py) and v.kind == "ilist":
            for x in v.vals:
                raise Unsupported("loop over initialiser list")
        if isinstance(v, Py):
            raise Unsupported("range over executor object")
        var = s["v"]
        if isinstance(r, Val):
            r = self.newcell(st, v.ty, v.leaves, "range")
            if v.meta:
                st.meta[(r.cid,)] = v.meta
        byref = var["t"].k == "ref"

        def bindvar(s2, elem):
            if byref:
                if isinstance(elem, (LV, Py)):
                    s2.env[var["v"]] = elem
                else:
                    s2.env[var["v"]] = self.newcell(s2, elem.ty, elem.leaves, var["n"])
                return
            t = var["t"]
            if isinstance(elem, Py) and elem.kind == "mapelem":
                ls = self.convert_elem(s2, elem, t)
                s2.env[var["v"]] = self.newcell(s2, t, ls, var["n"])
            else:
                self.bind(s2, var["v"], t, elem, var["n"])
            for h in var.get("bind", []):
                raise Unsupported("structured binding")
        n = v.ty.n
        line = s.get("l", 0)
        if n in MAPS + SETS:
            dom0 = v.leaves[0]

            def run(s2, x):
                bindvar(s2, self.map_elem(s2, r, x))
                self.stmt(s2, s["b"])
                if not s2.dead:
                    cur = self.read(s2, r).leaves[0]
                    if not cur.eq(dom0) and not self.implied(s2, Eq(cur, dom0)):
                        if prover.prove(s2.pc, Eq(cur, dom0), 3)[0] != "proved":
                            raise Unsupported("container changed during iteration")
            self.loop_set(st, dom0, run, line, order=v.ty)
            return
        if n in VEC:
            en = v.meta.get("enum") if v.meta else None
            if en is not None:
                D, fs = self.enum_parts(v)
                if D is not None and not byref or D is not None and var["t"].to.const:
                    def run(s2, x):
                        bindvar(s2, Val(v.ty.args[0], [subst(t, (ev_, x)) for ev_, t in fs]))
                        self.stmt(s2, s["b"])
                    # as a loop over the listed set; when the order matters, over the positions
                    keep = st.copy()
                    nobl, nex, nlp = len(self.obls), len(self.exits), len(self.loops)
                    try:
                        self.loop_set(st, D, run, line, strict=True)
                        return
                    except Unsupported:
                        pass
                    del self.obls[nobl:], self.exits[nex:], self.loops[nlp:]
                    st.cells, st.env, st.pc, st.meta, st.dead = keep.cells, keep.env, keep.pc, keep.meta, keep.dead

            def run(s2, k):
                bindvar(s2, self.elem(r, k))
                self.stmt(s2, s["b"])
                if not s2.dead:
                    cur = self.read(s2, r).leaves[0]
                    if not cur.eq(v.leaves[0]):
                        raise Unsupported("sequence changed during iteration")
            self.loop_cnt(st, v.leaves[0], run, line)
            return
        raise Unsupported("range over " + v.ty.key)

    @method
    def s_for(self, st, s):
        env0 = st.env
        st.env = dict(st.env)
        if s.get("init"):
            self.stmt(st, s["init"])
        if st.dead:
            return
        self.gen_loop(st, s.get("c"), s.get("inc"), s["b"], s.get("l", 0), s)
        if not st.dead:
            st.env = env0

    @method
    def s_while(self, st, s):
        if s.get("cv"):
            raise Unsupported("condition variable")
        self.gen_loop(st, s["c"], None, s["b"], s.get("l", 0), s)

    @method
    def s_do(self, st, s):
        # first iteration, then a while loop
        saved = self.exits
        self.exits = []
        self.stmt(st, s["b"])
        outs = self.exits
        self.exits = saved
        normal = [] if st.dead else [st.copy()]
        brk = []
        for o in outs:
            if o.kind == "continue":
                normal.append(o.st)
            elif o.kind == "break":
                brk.append(o.st)
            else:
                self.exits.append(o)
        fin = list(brk)
        if normal:
            w = self.join(st, normal)
            w.dead = False
            self.gen_loop(w, s["c"], None, s["b"], s.get("l", 0), s)
            if not w.dead:
                fin.append(w)
        if not fin:
            st.dead = True
            return
        acc = self.join(st, fin)
        st.cells, st.env, st.pc, st.meta, st.dead = acc.cells, acc.env, acc.pc, acc.meta, False

    @method
    def gen_loop(self, st, cond, inc, body, line, node):
        # iterator loop over a whole map: treat as a loop over its key set
        mi = self.map_iterator_loop(st, cond, inc)
        if mi is not None:
            vid, it, D = mi

            def runm(s2, x):
                cell = s2.env[vid]
                s2.cells[cell.cid] = self.mk_it(it.lv, key=x, mapk=True)
                self.stmt(s2, body)
                if not s2.dead:
                    cur = self.contval(s2, it.lv).leaves[0]
                    if not cur.eq(D) and prover.prove(s2.pc, Eq(cur, D), 3)[0] != "proved":
                        raise Unsupported("container changed during iteration")
                    s2.cells[cell.cid] = it
            cellid = st.env[vid].cid
            st.cells[cellid] = it
            self.loop_set(st, D, runm, line)
            if not st.dead:
                st.cells[cellid] = Py("bad", why="iterator after loop")
            return

        def run(s2, k):
            if cond is not None:
                c = self.cond(s2, cond)
                if s2.dead:
                    return
                if not z3.is_true(c):
                    x = s2.copy()
                    self.assume(x, Not(c))
                    self.exits.append(Outcome("lexit", x, val=c, line=line))
                    self.assume(s2, c)
            ex = self.exits
            self.exits = []
            self.stmt(s2, body)
            outs = self.exits
            self.exits = ex
            cont = [] if s2.dead else [s2.copy()]
            for o in outs:
                if o.kind == "continue":
                    cont.append(o.st)
                else:
                    self.exits.append(o)
            if not cont:
                s2.dead = True
                return
            m = self.join(s2, cont) if len(cont) > 1 else cont[0]
            s2.cells, s2.pc, s2.meta, s2.dead = m.cells, m.pc, m.meta, False
            if inc is not None:
                self.ev(s2, inc)
        if self.loopinv is not None and self.ann_loop(st, run, line, engine.has_loop(body)):
            return
        self.loop_cnt(st, None, run, line)

    @method
    def ann_loop(self, st, run, line, nested):
        """a loop with the invariant the contract states for it: established, preserved by one arbitrary iteration, assumed after"""
        mods = {}
        nobl = len(self.obls)

        def head():
            s = st.copy()
            for ref, u in mods.items():
                self.setleaf(s, ref, u)
            for cid in sorted({c for c, i in mods if i != "pos"}):
                ty = s.ctys.get(cid)
                if ty is not None:
                    for f in self.canon(ty, s.cells[cid]):
                        self.assume(s, f)
            return s

        def once(s):
            s0 = s.copy()
            saved, self.exits = self.exits, []
            try:
                run(s, fresh("it", I))
            finally:
                outs, self.exits = self.exits, saved
            normal = [] if s.dead else [s]
            normal += [o.st for o in outs if o.kind == "continue"]
            after = [o.st for o in outs if o.kind in ("lexit", "break")]
            return s0, normal, after, [o for o in outs if o.kind not in ("continue", "lexit", "break")]
        self.loopdisc += 1
        paths, self.splits = self.splits, None
        try:
            while True:
                s0, normal, after, rest = once(head())
                new = [r for q in normal + after + [o.st for o in rest] for r in self.leafrefs(s0, q) if r not in mods]
                if not new:
                    break
                for r in new:
                    mods[r] = fresh("u", getleaf(st, r).sort())
        finally:
            self.loopdisc -= 1
            self.splits = paths
            del self.obls[nobl:]
        # the counter: the one integer every completed iteration moves by one
        cnt = [r for r, u in mods.items() if r[1] != "pos" and u.sort() == I and normal and
               all(z3.is_int_value(d) and abs(d.as_long()) == 1 for d in [z3.simplify(getleaf(q, r) - u) for q in normal])]
        if len(cnt) != 1:
            return False
        if not self.loopdisc:
            self.loopctx.append(cnt[0])
            superseded = set()
            try:
                def clauses(s):
                    return self.loopinv(s, [getleaf(s, r) for r in self.loopctx])
                if clauses(st) is None:
                    return False
                for nm, f, *_ in [x for x in clauses(st) if len(x) < 3]:
                    self.oblige(st, nm + " (before the loop)", f, "invariant", line)
                h = head()
                old = [v for v in (getleaf(st, r) for r in mods) if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED]
                superseded = {f.get_id() for f in st.pc if z3.is_quantifier(f) and any(occurs(f, v) for v in old)} - self.stale
                self.stale |= superseded
                for nm, f, *_ in clauses(h):      # marked: what a name of the contract stands for at this point
                    self.assume(h, f)
                # one path through the body at a time
                normal, after, rest, todo, outer = [], [], [], [[]], self.splits
                try:
                    while todo:
                        self.splits = sp = engine.Splits(todo.pop())
                        sp.local, sp.start = "loops" if nested else "all", len(self.obls)
                        s0, n1, a1, r1 = once(h.copy())
                        normal += n1
                        after += [a for a in a1 if not any(len(a.pc) == len(b.pc) and all(f.eq(g) for f, g in zip(a.pc, b.pc)) for b in after)]
                        rest += r1
                        todo += sp.rest()
                finally:
                    self.splits = outer
                if not nested:
                    for q in normal:
                        self.use_names(q, len(h.pc), [n for x in clauses(h) if len(x) > 3 for n in x[3]])
                for q in normal:
                    for nm, f, *_ in [x for x in clauses(q) if len(x) < 3]:
                        self.oblige(q, nm + " (kept by an iteration)", f, "invariant", line)
            finally:
                self.loopctx.pop()
                self.stale -= superseded
            self.loops.append({"fn": self.fn, "line": line, "kind": "invariant", "closed": 0, "havoc": len(mods)})
        self.exits += rest
        if not after:
            st.dead = True
        else:
            m = self.join(s0, after) if len(after) > 1 else after[0]
            st.cells, st.pc, st.meta, st.dead = m.cells, m.pc, m.meta, False
        return True

    @method
    def use_names(self, q, base, names):
        """rewrite what the iteration computed into the names of the contract, where it is provably that"""
        known = lambda: [f for f in q.pc if f.get_id() not in self.stale and not z3.is_quantifier(f)]
        for n in names:
            if n.sort() == B:
                for f in (n, Not(n)):
                    if prover.prove(known(), f, 3, budget=4)[0] == "proved":
                        self.assume(q, f)
                        break
                continue
            cands, seen, st = {}, set(), q.pc[base:] + [x for c in q.cells.values() if not isinstance(c, Py) for x in c]
            while st:
                t = st.pop()
                if t.get_id() in seen or not z3.is_app(t):
                    continue
                seen.add(t.get_id())
                st.extend(t.children())
                kd = t.decl().kind()
                for a in t.children()[1:] if kd in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) else t.children() if kd in CMPS else []:
                    if a.sort() == n.sort() and prover.size(a) > 8 and a.decl().kind() not in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_ITE) and a.decl().name() != n.decl().name():
                        cands[a.get_id()] = a
            for t in list(cands.values())[:6]:
                if not t.eq(n) and prover.prove(known(), Eq(t, n), 3, budget=3)[0] == "proved":
                    q.pc[base:] = [subst(f, (t, n)) for f in q.pc[base:]]
                    for cid, c in q.cells.items():
                        if not isinstance(c, Py):
                            q.cells[cid] = tuple(subst(x, (t, n)) for x in c)

    @method
    def map_iterator_loop(self, st, cond, inc):
        if cond is None or inc is None:
            return None
        c = cond
        while c["e"] in ("cast", "bind", "mat"):
            c = c["s"]
        if c["e"] != "opcall" or c["op"] != "!=":
            return None

        def refof(x):
            while x["e"] in ("cast", "bind", "mat") or (x["e"] == "ctor" and len(x["args"]) == 1):
                x = x["s"] if x["e"] != "ctor" else x["args"][0]
            return x["v"] if x["e"] == "ref" else None
        a, b = c["args"]
        vid = refof(a)
        if vid is None or not (isinstance(st.env.get(vid), LV)):
            return None
        it = st.cells.get(st.env[vid].cid)
        if not (isinstance(it, Py) and it.kind == "it" and it.mapk and it.pos is not None and z3.is_int_value(it.pos) and it.pos.as_long() == 0):
            return None
        s2 = st.copy()
        ev = self.rv(s2, self.ev(s2, b))
        if not (isinstance(ev, Py) and getattr(ev, "isend", False)):
            return None
        i = inc
        while i["e"] in ("cast", "bind", "mat"):
            i = i["s"]
        if i["e"] != "opcall" or i["op"] != "++" or refof(i["args"][0]) != vid:
            return None
        return vid, it, self.contval(st, it.lv).leaves[0]

    @method
    def loop_set(self, st, D, run, line, order=None, strict=False):
        if D.eq(EMPTY):
            return
        ctx = Ctx("set", D=D)
        ctx.strict = strict
        self.loop(st, ctx, run, line)

    @method
    def loop_cnt(self, st, n, run, line):
        if n is not None and z3.is_int_value(n) and n.as_long() <= 4:
            for i in range(max(0, n.as_long())):
                ex = self.exits
                self.exits = []
                run(st, z3.IntVal(i))
                outs = self.exits
                self.exits = ex
                if any(o.kind in ("break", "continue", "lexit") for o in outs):
                    raise Unsupported("unrolled loop with jumps")
                self.exits += outs
                if st.dead:
                    return
            return
        self.loop(st, Ctx("cnt", n=n), run, line)

    # ------------------------------------------------------------ the core
    @method
    def leafrefs(self, a, b):
        """changed leaves between two states, restricted to cells of a"""
        out = []
        for cid, x in a.cells.items():
            y = b.cells.get(cid)
            if y is None:
                continue
            if isinstance(x, Py) or isinstance(y, Py):
                if x is not y:
                    if isinstance(x, Py) and isinstance(y, Py) and x.kind == y.kind == "it" and x.pos is not None and y.pos is not None:
                        if not x.pos.eq(y.pos):
                            out.append((cid, "pos"))
                    else:
                        raise Unsupported("executor object changed in loop")
                continue
            for i, (p, q) in enumerate(zip(x, y)):
                if not p.eq(q):
                    out.append((cid, i))
        return out

    def getleaf(s, ref):
        c = s.cells[ref[0]]
        return c.pos if ref[1] == "pos" else c[ref[1]]

    @method
    def setleaf(self, s, ref, v):
        c = s.cells[ref[0]]
        if ref[1] == "pos":
            n = Py("it", **{k: w for k, w in c.__dict__.items() if k != "kind"})
            n.pos = v
            s.cells[ref[0]] = n
            return
        l = list(c)
        l[ref[1]] = v
        s.cells[ref[0]] = tuple(l)
        for mk in [m for m in s.meta if m[0] == ref[0]]:
            del s.meta[mk]

    @method
    def vecgroups(self, st, mods):
        """groups (cid, len leaf, [array leaves]) of sequences stored directly in modified cells"""
        out = []
        for cid in sorted({c for c, i in mods}):
            ty = st.ctys.get(cid)
            if ty is None or isinstance(st.cells[cid], Py):
                continue

            def go(ty, off):
                ty = ty.noref()
                if ty.k != "rec":
                    return
                if ty.n in VEC:
                    k = len(self.lay.of(ty))
                    idx = list(range(off, off + k))
                    if any((cid, i) in mods for i in idx):
                        out.append((cid, idx[0], idx[1:], ty))
                    return
                if ty.n == "std::pair":
                    go(ty.args[0], off)
                    go(ty.args[1], off + len(self.lay.of(ty.args[0])))
                    return
                if ty.key in self.prog.recs:
                    r = self.prog.recs[ty.key]
                    for t in [b["t"] for b in r["bases"]] + [f["t"] for f in r["fields"]]:
                        go(t, off)
                        off += len(self.lay.of(t))
            go(ty, 0)
        return out

    @method
    def parse_push(self, ul, ua, L, A):
        """events turning (ul, ua) into (L, A); None when not of that form"""
        if L.eq(ul) and all(x.eq(y) for x, y in zip(A, ua)):
            return []
        cond = None
        for t in [L] + list(A):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                cond = t.arg(0)
                break
        if cond is not None:
            def br(t, i):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                    if t.arg(0).eq(cond):
                        return t.arg(i)
                    if t.arg(0).eq(Not(cond)) or Not(t.arg(0)).eq(cond):
                        return t.arg(3 - i)
                return t
            a = self.parse_push(ul, ua, br(L, 1), [br(x, 1) for x in A])
            b = self.parse_push(ul, ua, br(L, 2), [br(x, 2) for x in A])
            if a is None or b is None:
                return None
            return [Ev(e.binders, And(cond, e.guard), e.vals) for e in a] + [Ev(e.binders, And(Not(cond), e.guard), e.vals) for e in b]
        if L.get_id() in PUSH:
            bl, ba, evs, arrs, _ = PUSH[L.get_id()]
            if all(x.eq(y) for x, y in zip(A, arrs)):
                pre = self.parse_push(ul, ua, bl, ba)
                return None if pre is None else pre + evs
        if all(z3.is_store(x) for x in A) and A:
            i = A[0].arg(1)
            if all(x.arg(1).eq(i) for x in A):
                d = z3.simplify(L - i)
                if z3.is_int_value(d) and d.as_long() == 1:
                    pre = self.parse_push(ul, ua, i, [x.arg(0) for x in A])
                    if pre is None:
                        return None
                    return pre + [Ev([], z3.BoolVal(True), [x.arg(2) for x in A])]
        return None

    @method
    def loop(self, st, ctx, run, line):
        LSTAT["loops"] += 1
        start = terms._ctr[0]
        x = ctx.x
        mods = {}
        outer_obls, outer_record = self.obls, self.record
        for rnd in range(8):
            s = st.copy()
            for ref, u in mods.items():
                self.setleaf(s, ref, u)
            if mods:
                for cid in sorted({c for c, i in mods if i != "pos"}):
                    ty = s.ctys.get(cid)
                    if ty is not None:
                        for f in self.canon(ty, s.cells[cid]):
                            if any(occurs(f, u) for u in mods.values()):
                                self.assume(s, f)
            for f in ctx.facts():
                self.assume(s, f)
            nb = len(s.pc)
            s0 = s.copy()
            saved = self.exits
            self.exits = []
            self.obls = []
            self.record = outer_record
            env = dict(s.env)
            try:
                run(s, x)
            finally:
                outs, self.exits = self.exits, saved
                body_obls, self.obls = self.obls, outer_obls
            normal = [] if s.dead else [s]
            exits = []
            for o in outs:
                if o.kind == "continue":
                    normal.append(o.st)
                else:
                    exits.append(o)
            m = None
            if normal:
                m = self.join(s0, normal) if len(normal) > 1 else normal[0]
            new = [r for r in (self.leafrefs(s0, m) if m else []) if r not in mods]
            if not new:
                break
            for r in new:
                mods[r] = fresh("u", getleaf(st, r).sort())
        else:
            raise Unsupported("loop modification set does not stabilise")
        base = st
        lx = [o for o in exits if o.kind == "lexit"]
        exits = [o for o in exits if o.kind != "lexit"]
        if m is None:
            # the body never completes: at most one iteration
            if ctx.kind == "set":
                raise Unsupported("set loop whose body always exits")
        us = {u.get_id(): r for r, u in mods.items()}
        known = set(us) | {x.get_id()} | ({ctx.V.get_id()} if ctx.V is not None else set())
        # --- per-iteration constants become functions of the iteration
        fmap = {}

        def functionise(t):
            pairs = []
            for i, c in consts(t).items():
                if i in known or cnum(c) <= start:
                    continue
                if i not in fmap:
                    fmap[i] = (c, fresh("f_" + c.decl().name().split("!")[0], arr(c.sort())))
                pairs.append((c, z3.Select(fmap[i][1], x)))
            return subst(t, *pairs) if pairs else t
        U = {}
        N = []
        phi = {}
        bad = set()
        pushes = {}
        hyps0 = s0.pc
        if m is not None:
            # --- push_back groups first
            for cid, li, ai, vty in self.vecgroups(st, mods):
                ins_l = getleaf(s0, (cid, li))
                ins_a = [getleaf(s0, (cid, i)) for i in ai]
                evs = self.parse_push(ins_l, ins_a, getleaf(m, (cid, li)), [getleaf(m, (cid, i)) for i in ai])
                if evs:
                    pushes[(cid, li)] = (ai, vty, evs, ins_l, ins_a)
            pushed = {}
            for (cid, li), p in pushes.items():
                pushed[(cid, li)] = (cid, li)
                for i in p[0]:
                    pushed[(cid, i)] = (cid, li)
            N = [functionise(f) for f in m.pc[nb:]]
            for r in mods:
                if r not in pushed:
                    U[r] = functionise(getleaf(m, r))
            sub = lambda t: ctx.norm(subst(t, *[(mods[r], p) for r, p in phi.items()])) if phi else ctx.norm(t)
            unsolved = lambda t: [r for r, u in mods.items() if r not in phi and occurs(t, u)]
            progress = True
            pending = [r for r in mods if r not in pushed]
            tried = {}
            while progress and pending:
                progress = False
                for r in list(pending):
                    t = sub(U[r])
                    others = [q for q in unsolved(t) if q != r]
                    if others:
                        continue
                    key = t.get_id()
                    if tried.get(r) == key:
                        continue
                    tried[r] = key
                    cand = self.solve_leaf(ctx, mods[r], t, getleaf(st, r), s0, N, sub, r, mods, phi)
                    if cand is not None:
                        phi[r] = cand
                        pending.remove(r)
                        progress = True
                if not progress and self.dependent_push(ctx, pushes, phi, mods, functionise, sub, unsolved):
                    pass
            for r in pending:
                bad.add(r)
            # push groups: explicit closed form for unconditional single pushes of counted loops
            for key, (ai, vty, evs, ul, ua) in list(pushes.items()):
                cid, li = key
                l0 = getleaf(st, key)
                a0 = [getleaf(st, (cid, i)) for i in ai]
                evs2 = []
                ok = True
                for ev in evs:
                    bs = [(c, k, tuple(sub(functionise2(functionise, ev, w)) for w in d) if k == "rng" else sub(functionise2(functionise, ev, d))) for c, k, d in ev.binders]
                    g = sub(functionise2(functionise, ev, ev.guard))
                    vs = [sub(functionise2(functionise, ev, v)) for v in ev.vals]
                    bad_terms = [t for t in [g] + vs + [w for _, _, d in bs for w in (d if isinstance(d, tuple) else [d])]
                                 if unsolved(t) or (ctx.kind == "set" and occurs(t, ctx.V))]
                    if bad_terms:
                        ok = False
                    evs2.append(Ev(bs, g, vs))
                if not ok:
                    for r in [key] + [(cid, i) for i in ai]:
                        bad.add(r)
                    del pushes[key]
                    continue
                pushes[key] = (ai, vty, evs2, ul, ua, l0, a0)
                if ctx.kind == "cnt" and len(evs2) == 1 and not evs2[0].binders and z3.is_true(evs2[0].guard):
                    y = z3.Int("pb!y")
                    phi[key] = self.num1(l0 + x)
                    for i, v, a in zip(ai, evs2[0].vals, a0):
                        idx = z3.simplify(y - l0)
                        phi[(cid, i)] = lam(y, If(z3.And(l0 <= y, y < l0 + x), subst(v, (x, idx)), sel(a, y)))
                    del pushes[key]
        if bad and getattr(ctx, "strict", False):
            raise Unsupported("the order of the iterations matters")
        # --- havocked leaves: candidate invariants
        inv = []
        hav = {r: mods[r] for r in bad}
        for key, p in pushes.items():
            for r in [key] + [(key[0], i) for i in p[0]]:
                hav[r] = mods[r]
        sub = lambda t: ctx.norm(subst(t, *[(mods[r], p) for r, p in phi.items()])) if phi else ctx.norm(t)
        Nsub = [sub(f) for f in N]
        Nsub = [f for f in Nsub if not z3.is_true(f)]
        canon_u = []
        for f in hyps0[len(st.pc):]:
            canon_u.append(sub(f))
        # what previous iterations established, and constants that stay per-iteration
        drop = list(hav.values()) + ([ctx.V] if ctx.kind == "set" else [])
        Nall = [weaken(f, drop, True, ctx.norm) for f in Nsub]
        Nall = [f for f in Nall if not z3.is_true(f)]
        prev = [ctx.visited_forall(f) for f in Nall]
        lenfacts = []
        for key, p in pushes.items():
            lenfacts.append(mods[key] >= getleaf(st, key))
        if hav and m is not None:
            inv = self.houdini(st, s0, m, ctx, {r: u for r, u in hav.items() if r in bad}, sub, Nsub, canon_u, prev, functionise)
            LSTAT["havoc"] += len(bad)
            LSTAT["inv"] += len(inv)
        LSTAT["closed"] += len(phi)
        common = canon_u + prev + [f for f in inv] + lenfacts + lw_facts(ctx)
        # --- iteration count of a condition-controlled loop
        nfact = None
        if ctx.kind == "cnt" and ctx.n is None:
            n = None
            if len(lx) == 1 and lx[0].val is not None:
                c = sub(functionise(lx[0].val))
                n = self.solve_bound(ctx, c, st.pc + common)
            if n is not None:
                ctx.n = n
                common = common + [x < n]
        # --- obligations of the body, in the summarised state
        for o in body_obls:
            o.hyps = [sub(h) for h in o.hyps] + common
            o.goal = sub(o.goal)
            outer_obls.append(o)
        self.obls = outer_obls
        # --- early exits
        falls = []
        for o in exits + (lx if ctx.kind == "cnt" and ctx.n is None else []):
            e = o.st
            pc = [sub(f) for f in e.pc[:]] + common
            z = State()
            z.ctys = st.ctys
            z.pc = pc
            z.meta = {}
            z.env = dict(st.env)
            z.cells = {}
            for cid, leaves in e.cells.items():
                if isinstance(leaves, Py):
                    if leaves.kind == "it" and leaves.pos is not None:
                        n2 = Py("it", **{k: w for k, w in leaves.__dict__.items() if k != "kind"})
                        n2.pos = sub(n2.pos)
                        leaves = n2
                    z.cells[cid] = leaves
                else:
                    z.cells[cid] = tuple(sub(l) for l in leaves)
            for k, v in e.meta.items():
                z.meta[k] = v
            v = o.val
            if isinstance(v, Val):
                v = Val(v.ty, [sub(l) for l in v.leaves], v.meta)
            if self.dead_path(pc):
                continue
            if o.kind in ("break", "lexit"):
                # push groups have a partial result
                for key, p in pushes.items():
                    pass
                falls.append(z)
            else:
                self.exits.append(Outcome(o.kind, z, v, o.exc, o.line))
        # --- normal exit
        if ctx.kind == "set" or ctx.n is not None:
            z = st.copy()
            if m is not None:
                for r, p in phi.items():
                    if ctx.kind == "cnt":
                        self.setleaf(z, r, ctx.final(p) if True else p)
                    else:
                        self.setleaf(z, r, ctx.final(p))
                fin = {}
                for r in bad:
                    fin[r] = fresh("h", getleaf(st, r).sort())
                    self.setleaf(z, r, fin[r])
                for f in inv:
                    self.assume(z, ctx.final(subst(f, *[(mods[r], v) for r, v in fin.items()])))
                for cid in sorted({c for c, i in bad if i != "pos"}):
                    ty = z.ctys.get(cid)
                    if ty is not None:
                        for f in self.canon(ty, z.cells[cid]):
                            if any(occurs(f, v) for v in fin.values()):
                                self.assume(z, f)
                for f in lw_facts(ctx):
                    self.assume(z, f)
                for f in Nall:
                    self.assume(z, ctx.visited_forall(f, upto=ctx.D if ctx.kind == "set" else ctx.n))
                for key, p in pushes.items():
                    self.materialise(z, ctx, key, p, self.counter_shift(st, ctx, phi))
                if ctx.kind == "cnt" and not z3.is_int_value(ctx.n):
                    self.assume(z, ctx.n >= 0)
            else:
                # one iteration at most: falls through only when it runs zero times
                self.assume(z, ctx.n <= 0)
            falls.append(z)
        if not falls:
            st.dead = True
            return
        falls2 = [z for z in falls if not z.dead]
        if not falls2:
            st.dead = True
            return
        acc = falls2[0] if len(falls2) == 1 else self.join(st, falls2)
        st.cells, st.pc, st.meta, st.dead = acc.cells, acc.pc, acc.meta, False
        self.loops.append({"fn": self.fn, "line": line, "kind": ctx.kind, "closed": len(phi), "havoc": len(bad),
                           "pushes": len(pushes), "inv": len(inv)})

    def ctx_sub(d, functionise, sub):
        return sub(functionise(d))

    def functionise2(functionise, ev, t):
        """functionise but keep the event's own binders"""
        if not ev.binders:
            return functionise(t)
        keep = [(c, z3.Int("bind!%s" % c.decl().name().replace("!", "_"))) for c, _, _ in ev.binders]
        t2 = z3.substitute(t, *keep)
        t2 = functionise(t2)
        return z3.substitute(t2, *[(b, a) for a, b in keep])

    @method
    def dependent_push(self, *a):
        return False

    @method
    def dead_path(self, pc):
        try:
            r = prover.check(prover.prepare(pc, z3.BoolVal(False), []), 2.0)[0]
        except z3.Z3Exception:
            return False
        return r == "unsat"

    # ------------------------------------------------------------ closed forms
    @method
    def step_ok(self, ctx, u, t, cand, s0, N, sub, timeout=4.0):
        import time
        t0 = time.time()
        full = lambda q: ctx.norm(subst(sub(q), (u, cand)))
        lhs = ctx.norm(subst(t, (u, cand)))
        rhs = ctx.step(cand)
        hyps = [full(f) for f in s0.pc] + [full(f) for f in N]
        if ctx.kind == "set":
            hyps.append(Not(z3.Select(ctx.V, ctx.x)))
        hyps += lw_facts(ctx, True)
        if self.step_quick(ctx, lhs, rhs):
            return True
        few = [f for f in ctx.facts() if not z3.is_quantifier(f)] + lw_facts(ctx, True)
        r = prover.prove(few, Eq(lhs, rhs), 1.0, deep=False)
        if r[0] != "proved":
            r = prover.prove(hyps, Eq(lhs, rhs), timeout, budget=4 * timeout)
        LSTAT["steps"] += 1
        LSTAT["steptime"] += time.time() - t0
        return r[0] == "proved"

    @method
    def step_quick(self, ctx, lhs, rhs):
        """key by key, at the current key by substitution, without any facts about sums"""
        ys = []
        while lhs.sort().kind() == z3.Z3_ARRAY_SORT:
            y = fresh("y", I)
            ys.append(y)
            lhs, rhs = sel(lhs, y), sel(rhs, y)
        if not ys or ctx.kind != "set":
            return False
        base = [f for f in ctx.facts() if not z3.is_quantifier(f)]
        y = ys[0]
        eqs = [([], subst(lhs, (y, ctx.x)), subst(rhs, (y, ctx.x))), ([y != ctx.x], lhs, rhs)]
        for extra, a, b in eqs:
            a, b = ctx.norm(a), ctx.norm(b)
            if a.eq(b):
                continue
            forms = prover.name_lambdas(base + extra + [Not(Eq(a, b))])
            lf = prover.lin_abstract(forms)
            if prover.check(forms if lf is None else lf, 1.0, mbqi=False)[0] != "unsat":
                return False
        return True

    @method
    def solve_leaf(self, ctx, u, t, u0, s0, N, sub, ref, mods, phi):
        if ctx.kind == "set" and occurs(t, ctx.V) and not occurs(u0, ctx.V):
            # what one iteration does may only look as if it depended on the iterations before
            ts = without(t, ctx.V)
            same = len(ts) == 2 and ts[0].eq(ts[1])
            if len(ts) == 2 and not same:
                hy = [f for f in ctx.facts() if not z3.is_quantifier(f)] + [sel(ctx.D, ctx.x)]
                same = prover.prove(hy, Eq(*ts), 2.0, budget=4)[0] == "proved"
                if not same:
                    ground = [sub(f) for f in N]
                    ground = [f for f in ground if not z3.is_quantifier(f) and not occurs(f, ctx.V) and not any(occurs(f, w) for w in mods.values())]
                    same = prover.prove(hy + ground, Eq(*ts), 3.0, budget=8)[0] == "proved"
            if same:
                t = ts[1]
        d, base = depth(u.sort())
        ys = [fresh("y", I) for _ in range(d)]
        a, b = seln(u, ys), seln(t, ys)
        x = ctx.x
        a0 = seln(u0, ys)
        if b.eq(a):
            return u0
        cands = []
        # overwrite
        ow = self.tmpl_overwrite(ctx, u, a, b, a0, ys, x, u0)
        if ow is not None:
            cands.append(ow)
        if base in (I, R) and occurs(b, u):
            zero = default(u.sort())
            z = subst(b, (u, zero))
            for z in ([z] if not (ctx.kind == "set" and occurs(z, ctx.V)) else without(z, ctx.V)):
                j = fresh("j", I)
                try:
                    sm = ctx.sum(subst(z, (x, j)), j)
                    cf = a0 + sm if not iszero(a0) else sm
                    if ow is None:
                        # for every value before: one iteration adds z(x, y), so the visited iterations add their sum
                        hy = [ctx.x >= 0] if ctx.kind == "cnt" else []
                        ok = prover.prove(hy, Eq(b, a + z), 2.0, deep=False)[0] == "proved"
                        if not ok:
                            hy += [sub(f) for f in s0.pc if occurs(f, u)] + [f for f in ctx.facts() if not z3.is_quantifier(f)]
                            ok = prover.prove(hy, Eq(b, a + z), 2.0, deep=False)[0] == "proved"
                        if ok:
                            LSTAT["steps"] += 1
                            return lamn(ys, cf) if ys else cf
                    cands.append(cf)
                except z3.Z3Exception:
                    pass
            mx = self.tmpl_max(ctx, u, a, b, a0, x)
            cands += mx
        # all of it happens in the first iteration, the others leave it alone
        first = subst(b, (u, u0), (ctx.V, EMPTY)) if ctx.kind == "set" else subst(b, (u, u0), (x, z3.IntVal(0)))
        if ow is None and occurs(b, u) and not occurs(first, x):
            some = Not(Eq(CARD(ctx.V), z3.IntVal(0))) if ctx.kind == "set" else x > 0
            (cands.insert(0, If(some, first, a0)) if ctx.kind == "set" and occurs(t, ctx.V) else cands.append(If(some, first, a0)))
        for c in cands:
            cf = lamn(ys, c) if ys else c
            try:
                if self.step_ok(ctx, u, t, cf, s0, N, sub):
                    return cf
            except z3.Z3Exception as ex:
                continue
        return None

    def without(t, V):
        """t with the conditions that depend on V all true, all false"""
        atoms = {}

        def go(e):
            """collects the innermost conditions on V; False when V occurs outside of any condition"""
            if not occurs(e, V):
                return True
            if z3.is_quantifier(e) or e.num_args() == 0:
                ok = False
            else:
                ok = all([go(c) for c in e.children()])
            if not ok and e.sort() == B:
                atoms[e.get_id()] = e
                return True
            return ok
        go(t)
        out = []
        for v in (True, False):
            r = subst(t, *[(a, z3.BoolVal(v)) for a in atoms.values()]) if atoms else t
            if not occurs(r, V):
                out.append(r)
        return out

    @method
    def tmpl_max(self, ctx, u, a, b, a0, x):
        if ctx.kind != "set" and False:
            return []
        out = []
        seen = set()
        for path, leaf in leaves_of_ite(b):
            if leaf.eq(a) or occurs(leaf, u) or leaf.get_id() in seen:
                continue
            seen.add(leaf.get_id())
            if ctx.kind == "set" and occurs(leaf, ctx.V):
                continue
            j = fresh("j", I)
            F = lam(j, subst(leaf, (x, j)))
            # guards not about u restrict the set
            gs = [g for g in path if not occurs(g, u)]
            if ctx.kind == "set":
                D = ctx.V
            else:
                D = lam(z3.Int("mx!j"), z3.And(z3.Int("mx!j") >= 0, z3.Int("mx!j") < x))
            if gs:
                jj = z3.Int("mx!g")
                D = lam(jj, And([sel(D, jj)] + [subst(g, (x, jj)) for g in gs]))
            out.append((SMAX if b.sort() == R else ISMAX)(F, D, a0))
        # maximum of an inner maximum: ite-free form smax(F(x), D(x), u)
        if z3.is_app(b) and b.decl().name() in ("smax", "ismax") and b.arg(2).eq(a) and not occurs(b.arg(0), u) and not occurs(b.arg(1), u):
            j = fresh("j", I)
            f2 = subst(b.decl()(b.arg(0), b.arg(1), a0), (x, j))
            if ctx.kind == "set":
                out.append(b.decl()(lam(j, f2), ctx.V, a0))
        return out

    @method
    def tmpl_overwrite(self, ctx, u, a, b, a0, ys, x, u0=None):
        if b.sort() == B:
            # or-accumulation: b == a or c
            lv = bool_writes(b, a)
        else:
            lv = leaves_of_ite(b)
        if lv is None:
            return None
        writes = []
        for path, leaf in lv:
            if leaf.eq(a):
                continue
            gs = [g for g in split_conj(path)]
            gs2 = [g for g in gs if not occurs(g, u)]
            if occurs(leaf, u):
                if u0 is None or ctx.kind != "set" or pin(gs2, x)[0] is None:
                    return None
                # each key is visited once: an update of its own key sees the value before the loop
                leaf = subst(leaf, (u, u0))
            writes.append((gs2, leaf))
        res = a0
        if not writes:
            return None
        for gs, w in reversed(writes):
            t, rest = pin(gs, x)
            if t is None and ctx.kind == "cnt" and ys:
                lw = last_writer(self, ctx, gs, w, ys, x, res)
                if lw is not None:
                    res = lw
                    continue
            if ctx.kind == "set" and any(occurs(q, ctx.V) for q in gs + [w]):
                # V inside: only acceptable when pinned away
                return None
            if t is not None:
                c = And([ctx.mem(t)] + [subst(g, (x, t)) for g in rest])
                wv = subst(w, (x, t))
            elif not occurs(w, x):
                j = z3.Int("ow!j%d" % cnum(x))
                body = And(gs)
                if not occurs(body, x):
                    # every iteration writes
                    if ctx.kind == "cnt":
                        c = And(x > 0, body)
                    else:
                        c = And(Not(Eq(CARD(ctx.V), z3.IntVal(0))), body)
                else:
                    jb = subst(body, (x, j))
                    c = exists([j], And(ctx.mem(j), jb))
                wv = w
            elif ctx.kind == "cnt" and not [g for g in gs if occurs(g, x)] and not ys:
                c = And(x > 0, And(gs))
                wv = subst(w, (x, x - 1))
            else:
                return None
            res = If(c, wv, res)
        return res

    def last_writer(self, ctx, gs, w, ys, x, old):
        """a write at key f(x) under G(x): the surviving value is that of the last iteration that wrote the key.
        LW(k)[y] is that iteration among the first k, or -1 (defined by recursion on k)"""
        key = None
        rest = []
        for g in split_conj(gs):
            if key is None and z3.is_app(g) and g.decl().kind() == z3.Z3_OP_EQ and g.arg(0).sort() == I:
                a, b = g.children()
                if any(a.eq(y) for y in ys[:1]) and occurs(b, x) and not any(occurs(b, y) for y in ys):
                    key = b
                    continue
                if any(b.eq(y) for y in ys[:1]) and occurs(a, x) and not any(occurs(a, y) for y in ys):
                    key = a
                    continue
            rest.append(g)
        if key is None or any(occurs(g, y) for g in rest for y in ys):
            return None
        G = And(rest)
        memo = ctx.__dict__.setdefault("lw", {})
        mk = (key.get_id(), G.get_id())
        if mk not in memo:
            f = fresh("LW", arr(arr(I)))
            k, j, y = z3.Int("lw!k"), z3.Int("lw!j"), z3.Int("lw!y")
            at = lambda n, q: z3.Select(z3.Select(f, n), q)
            fk, Gk = subst(key, (x, k)), subst(G, (x, k))
            fj, Gj = subst(key, (x, j)), subst(G, (x, j))
            v = at(k, y)
            pj = [mpat(z3.Select(f, k), fj)] if z3.is_app(fj) and fj.decl().kind() == z3.Z3_OP_SELECT else None
            ax = [z3.ForAll([y], at(z3.IntVal(0), y) == -1, patterns=[at(z3.IntVal(0), y)]),
                  z3.ForAll([k, y], And(v >= -1, Implies(v >= 0, And(v < k, subst(fk, (k, v)) == y, subst(Gk, (k, v))))), patterns=[v]),
                  forall([k, j], Implies(And(0 <= j, j < k, Gj), at(k, fj) >= j), pj, manual=True)]
            # the recursion, at this iteration
            st_ = forall([y], at(x + 1, y) == If(And(Eq(y, key), G), x, at(x, y)), [at(x + 1, y)], manual=True)
            memo[mk] = (f, ax, st_, key, G)
        f, ax, st_, _, _ = memo[mk]
        ix = z3.Select(z3.Select(f, x), ys[0])
        wv = subst(w, (x, ix)) if occurs(w, x) else w
        return If(ix >= 0, wv, old)

    def weaken(f, drop, pos=True, norm=None):
        """a formula implied by f (implying f when not pos) that does not mention the dropped symbols"""
        if not any(occurs(f, d) for d in drop):
            return f
        if z3.is_app(f):
            k = f.decl().kind()
            if k == z3.Z3_OP_NOT:
                return Not(weaken(f.arg(0), drop, not pos, norm))
            if k == z3.Z3_OP_AND:
                return And([weaken(c, drop, pos, norm) for c in f.children()])
            if k == z3.Z3_OP_OR:
                return Or([weaken(c, drop, pos, norm) for c in f.children()])
            if k == z3.Z3_OP_IMPLIES:
                return Implies(weaken(f.arg(0), drop, not pos, norm), weaken(f.arg(1), drop, pos, norm))
        if z3.is_quantifier(f) and f.is_forall():
            vs = [z3.Const("wk!%d!%s" % (cnum_next(), f.var_name(i)), f.var_sort(i)) for i in range(f.num_vars())]
            b = terms.rebeta(z3.substitute_vars(f.body(), *reversed(vs)))
            b = weaken(norm(b) if norm else b, drop, pos, norm)
            if z3.is_true(b) or z3.is_false(b):
                return b
            return forall(vs, b, manual=True)
        return z3.BoolVal(pos)

    def lw_facts(ctx, step=False):
        out = []
        for f, ax, st_, _, _ in ctx.__dict__.get("lw", {}).values():
            out += ax
            if step:
                out.append(st_)
        return out

    def bool_writes(b, a):
        """b as guarded writes over the old value a (boolean leaf)"""
        if b.eq(a):
            return [((), a)]
        if z3.is_app(b):
            k = b.decl().kind()
            if k == z3.Z3_OP_OR:
                ch = b.children()
                if any(c.eq(a) for c in ch):
                    rest = [c for c in ch if not c.eq(a)]
                    return [((Or(rest),), z3.BoolVal(True)), ((), a)]
            if k == z3.Z3_OP_AND:
                ch = b.children()
                if any(c.eq(a) for c in ch):
                    rest = [c for c in ch if not c.eq(a)]
                    return [((Not(And(rest)),), z3.BoolVal(False)), ((), a)]
            if k == z3.Z3_OP_ITE:
                if occurs(b.arg(0), a):
                    return leaves_of_ite(b)
                out = []
                for c, br in ((b.arg(0), b.arg(1)), (Not(b.arg(0)), b.arg(2))):
                    w = bool_writes(br, a)
                    if w is None:
                        return None
                    out += [((c,) + tuple(p), l) for p, l in w]
                return out
        if not occurs(b, a):
            return [((), b)]
        return None

    # ------------------------------------------------------------ bounds
    @method
    def solve_bound(self, ctx, c, hyps):
        k = ctx.x
        n = None
        c0 = c
        neg = False
        while z3.is_not(c0):
            c0 = c0.arg(0)
            neg = not neg
        if not z3.is_app(c0) or c0.num_args() != 2:
            return None
        kind = c0.decl().kind()
        ops = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "=="}
        if kind not in ops:
            return None
        op = ops[kind]
        if neg:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!="}[op]
        a, b = c0.children()
        if a.sort() != I:
            return None
        if op in (">", ">="):
            a, b = b, a
            op = {">": "<", ">=": "<="}[op]
        d = z3.simplify(b - a, som=True)      # continue while d > 0 (<), d >= 0 (<=), d != 0
        d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
        if occurs(d0, k):
            return None
        if op in ("<", "<="):
            if not iszero(z3.simplify(d - d0 + k)):
                return None
            m = d0 if op == "<" else z3.simplify(d0 + 1)
            n = If(m >= 0, m, z3.IntVal(0)) if not z3.is_int_value(m) else z3.IntVal(max(0, m.as_long()))
        elif op == "!=":
            if iszero(z3.simplify(d - d0 + k)):
                n = d0
            elif iszero(z3.simplify(d - d0 - k)):
                n = z3.simplify(-d0)
            else:
                return None
            if prover.prove(hyps, n >= 0, 3, budget=3)[0] != "proved" and prover.prove([h for h in hyps if not occurs(h, k)], n >= 0, 3, budget=3)[0] != "proved":
                return None
            return n
        else:
            return None
        hy = [h for h in hyps if not occurs(h, k)]
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE and prover.prove(hy, m >= 0, 2, budget=2)[0] == "proved":
            n = m
        return n

    # ------------------------------------------------------------ push_back results
    @method
    def counter_shift(self, st, ctx, phi):
        """start value of the program variable that counts the iterations of a loop"""
        if ctx.kind != "cnt":
            return None
        for r in sorted(phi, key=str):
            if isinstance(r[1], int) and phi[r].sort() == I:
                d = z3.simplify(phi[r] - ctx.x)
                if not occurs(d, ctx.x) and iszero(z3.simplify(getleaf(st, r) - d)):
                    return phi[r], getleaf(st, r)
        return None

    @method
    def materialise(self, z, ctx, key, p, shift=None):
        ai, vty, evs, ul, ua, l0, a0 = p
        cid, li = key
        x = ctx.x
        j = z3.Int("mt!j")
        D = ctx.D if ctx.kind == "set" else None
        l0z = z3.is_int_value(l0) and l0.as_long() == 0
        if ctx.kind == "set" and len(evs) == 1 and not evs[0].binders and z3.is_true(evs[0].guard) and l0z:
            ids = fresh("ids", arr(I))
            n = CARD(D)
            self.setleaf(z, key, n)
            for i, v in zip(ai, evs[0].vals):
                self.setleaf(z, (cid, i), lam(j, subst(v, (x, z3.Select(ids, j)))))
            self.assume(z, ENUM(ids, n, D))
            lv = self.lv_of_leaf(z, cid, li, vty)
            if lv is not None:
                z.meta[self.lvkey(lv)] = {"enum": (ids, n, D)}
            return
        L = fresh("len", I)
        A = [fresh("arr", getleaf(z, (cid, i)).sort()) for i in ai]
        full = []
        for ev in evs:
            if shift is not None and not iszero(shift[1]):
                v = fresh("cv", I)
                sh = lambda t: subst(t, (shift[0], v), (x, v - shift[1]))
                b = (v, "rng", (shift[1], shift[1] + ctx.n))
                bs2 = [(c, k, tuple(sh(w) for w in d) if k == "rng" else sh(d)) for c, k, d in ev.binders]
                full.append(Ev([b] + bs2, sh(ev.guard), [sh(w) for w in ev.vals]))
                continue
            b = (x, ctx.kind, D if ctx.kind == "set" else ctx.n)
            full.append(Ev([b] + ev.binders, ev.guard, ev.vals))
        PUSH[L.get_id()] = (l0, a0, full, A, L)
        self.setleaf(z, key, L)
        for i, a in zip(ai, A):
            self.setleaf(z, (cid, i), a)
        self.assume(z, L >= l0)
        if not l0z:
            q = z3.Int("mt!q")
            for a, o in zip(A, a0):
                self.assume(z, forall([q], Implies(z3.And(0 <= q, q < l0), Eq(z3.Select(a, q), sel(o, q))), [z3.Select(a, q)]))
        evno = fresh("evno", arr(I)) if len(full) > 1 else None
        alts = []
        for ei, ev in enumerate(full):
            m = len(ev.binders)
            orgs = [fresh("org", arr(I)) for _ in range(m)]
            terms._ctr[0] += 1
            pos = z3.Function("pos!%d" % terms._ctr[0], *([I] * m + [I]))
            cs = [c for c, _, _ in ev.binders]

            def inst_(t, vals):
                return subst(t, *[(c, v) for c, v in zip(cs, vals)])

            def dom(vals):
                out = []
                for (c, k, d), v in zip(ev.binders, vals):
                    if k == "rng":
                        out.append(z3.And(v >= inst_(d[0], vals), v < inst_(d[1], vals)))
                        continue
                    d2 = inst_(d, vals)
                    out.append(sel(d2, v) if k == "set" else z3.And(v >= 0, v < d2))
                return out
            ov = [z3.Select(o, j) for o in orgs]
            body = dom(ov) + [inst_(ev.guard, ov)] + [Eq(z3.Select(a, j), inst_(v, ov)) for a, v in zip(A, ev.vals)] + [pos(*ov) == j]
            if evno is not None:
                alts.append(And([z3.Select(evno, j) == ei] + body))
            else:
                alts.append(And(body))
            bs = [z3.Int("mt!b%d" % i) for i in range(m)]
            pj = pos(*bs)
            back = And([l0 <= pj, pj < L] + [z3.Select(o, pj) == b for o, b in zip(orgs, bs)] +
                       ([z3.Select(evno, pj) == ei] if evno is not None else []) +
                       [Eq(z3.Select(a, pj), inst_(v, bs)) for a, v in zip(A, ev.vals)])
            self.assume(z, forall(bs, Implies(And(dom(bs) + [inst_(ev.guard, bs)]), back), [pj], manual=True))
        self.assume(z, forall([j], Implies(z3.And(l0 <= j, j < L), Or(alts)), [z3.Select(A[0], j)], manual=True))

    @method
    def lv_of_leaf(self, z, cid, li, vty):
        """lvalue of a sequence stored in a cell, by leaf offset"""
        ty = z.ctys.get(cid)
        if ty is None:
            return None
        lv = LV(cid, (), ty)
        off = 0
        for _ in range(10):
            t = lv.ty.noref()
            if t.key == vty.key and off == li:
                return lv
            if t.n == "std::pair" or t.key not in self.prog.recs:
                return None
            r = self.prog.recs[t.key]
            found = False
            o2 = off
            for b in r["bases"]:
                k = len(self.lay.of(b["t"]))
                if o2 <= li < o2 + k:
                    lv = LV(lv.cid, lv.steps + (("f", o2 - off, k, t),), b["t"])
                    off = o2
                    found = True
                    break
                o2 += k
            if found:
                continue
            for f in r["fields"]:
                k = len(self.lay.of(f["t"]))
                if o2 <= li < o2 + k:
                    lv = LV(lv.cid, lv.steps + (("f", o2 - off, k, t),), f["t"])
                    off = o2
                    found = True
                    break
                o2 += k
            if not found:
                return None
        return None

    # ------------------------------------------------------------ candidate invariants
    @method
    def houdini(self, st, s0, m, ctx, hav, sub, N, canon_u, prev, functionise):
        cands = []
        cells = sorted({c for c, i in hav})

        def gen(state):
            out = []
            for cid in cells:
                ty = state.ctys.get(cid)
                if ty is None or isinstance(state.cells[cid], Py):
                    continue

                def go(t, off):
                    t = t.noref()
                    k = len(self.lay.of(t))
                    ls = state.cells[cid][off:off + k]
                    l0 = st.cells[cid][off:off + k]
                    touched = any((cid, off + i) in hav for i in range(k))
                    if not touched:
                        return
                    if t.k in ("int", "double"):
                        z = default(ls[0].sort())
                        out.append(ls[0] >= z)
                        out.append(ls[0] > z)
                        out.append(Eq(ls[0], l0[0]))
                        out.append(ls[0] >= l0[0])
                        return
                    if t.k in ("bool", "ptr", "fnptr", "enum"):
                        out.append(Eq(ls[0], l0[0]))
                        return
                    if t.k != "rec":
                        return
                    y = z3.Int("hd!y")
                    if t.n in MAPS:
                        out.append(forall([y], Eq(sel(ls[0], y), sel(l0[0], y)), manual=True))
                        if t.args[1].k == "double":
                            v = sel(ls[1], y)
                            out.append(forall([y], Implies(sel(ls[0], y), v > 0), manual=True))
                            out.append(forall([y], Implies(sel(ls[0], y), v >= 0), manual=True))
                            out.append(mk_sum(y, v, D=ls[0]) == 1)
                        return
                    if t.n in SETS or t.n in VEC:
                        for p, q in zip(ls, l0):
                            out.append(Eq(p, q))
                        return
                    if t.n == "std::pair":
                        go(t.args[0], off)
                        go(t.args[1], off + len(self.lay.of(t.args[0])))
                        return
                    if t.key in self.prog.recs:
                        r = self.prog.recs[t.key]
                        o = off
                        for ft in [b["t"] for b in r["bases"]] + [f["t"] for f in r["fields"]]:
                            go(ft, o)
                            o += len(self.lay.of(ft))
                go(ty, 0)
            for f in self.candinv:
                try:
                    out += f(self, st, state)
                except Exception:
                    pass
            return out
        pre, mid, post = gen(st), gen(s0), gen(m)
        if not (len(pre) == len(mid) == len(post)):
            return []
        j = z3.Int("xt!j%d" % cnum(ctx.x))
        for r, u in hav.items():
            if u.sort() not in (I, R):
                continue
            h0 = getleaf(st, r)
            t = sub(functionise(getleaf(m, r)))
            seen = set()
            for path, leaf in leaves_of_ite(t):
                if leaf.eq(u) or leaf.get_id() in seen or any(occurs(leaf, v) for v in hav.values()) or not occurs(leaf, ctx.x) or \
                        (ctx.kind == "set" and occurs(leaf, ctx.V)):
                    continue
                seen.add(leaf.get_id())
                cj = subst(leaf, (ctx.x, j))
                vis = ctx.mem(j)
                vis2 = z3.Or(vis, j == ctx.x)

                def F(h, v, kind):
                    if kind == "W":
                        return z3.Or(h == h0, exists([j], z3.And(v, h == cj)))
                    if kind == "L":
                        return forall([j], Implies(v, h <= cj), manual=True)
                    if kind == "G":
                        return forall([j], Implies(v, h >= cj), manual=True)
                    if kind == "L0":
                        return forall([j], Implies(z3.And(v, cj != h0), z3.And(h != h0, h <= cj)), manual=True)
                    return forall([j], Implies(z3.And(v, cj != h0), z3.And(h != h0, h >= cj)), manual=True)
                for kind in ("W", "L", "G", "L0", "G0"):
                    pre.append(z3.BoolVal(True))
                    mid.append(F(u, vis, kind))
                    post.append(F(t, vis2, kind))
        live = []

        def scalar(f):
            return z3.is_app(f) and not prover.collect([f], SUMS)
        for i in range(len(pre)):
            if z3.is_true(tb(mid[i])) and z3.is_true(tb(post[i])):
                continue
            if prover.prove(st.pc, tb(pre[i]), 3, budget=2 if scalar(mid[i]) else 5)[0] == "proved":
                live.append(i)
        changed = True
        hy = [sub(f) for f in s0.pc] + prev + N
        while changed and live:
            changed = False
            hyps = hy + [sub(mid[i]) for i in live]
            for i in list(live):
                g = sub(functionise(post[i]))
                if prover.prove(hyps, g, 6, budget=4 if scalar(mid[i]) else 20)[0] != "proved":
                    live.remove(i)
                    changed = True
                    break
        return [sub(mid[i]) for i in live]
