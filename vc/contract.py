"""Function contracts: how a caller uses one, and how a function body is verified against its own.

A contract is written against the code's observable names (function signature, parameters by
position, fields by name); nothing of a function body is repeated in it.  Verifying a function runs
its real body (the IR extracted from /repo on this run) from an arbitrary state satisfying `requires`
and generates one obligation per postcondition clause, exceptional exit, frame condition, callee
precondition and safety condition."""
import time
import z3
from ir import *
from terms import *
import terms
import prover
from prover import forall, exists


def cforall(vs, body, pats=None, manual=True):
    """universal clause of a contract; also instantiated by hand when used as a hypothesis"""
    return forall(vs, body, pats, manual)


class Contract:
    def __init__(self, sig, this=None, requires=None, ensures=None, throws=None, updates=None,
                 modifies=(), returns=None, private=False, aborts=None, tags=None, throw_frame=True,
                 candinv=(), name=None, timeout=None, callonly=False, resenum=None, force_inline=(), facts=None, resref=None, shards=1, hints=None, modular=False, loopinv=None):
        self.sig, self.this = sig, this
        self.requires, self.ensures, self.throws = requires, ensures, throws
        self.updates, self.modifies, self.returns = updates, tuple(modifies), returns
        self.private, self.aborts, self.throw_frame = private, aborts, throw_frame
        self.tags = set(tags or ())          # properties this contract serves
        self.candinv = tuple(candinv)
        self.name = name or sig
        self.timeout = timeout
        self.callonly = callonly
        self.resenum = resenum
        self.force_inline = set(force_inline)
        self.facts = facts
        self.resref, self.shards = resref, shards
        self.loopinv = loopinv                # invariants of the loops of this function, as text of the contract: (eng, state, counters) -> clauses
        self.modular = modular                # its body is verified in the checks of its own properties only; other checks rely on the contract
        self.hints = hints                    # consequences of `requires`, proved once and then available to every other obligation
        self.bound = None                     # resolved signature

    def clauses(self, c, prop=None):
        """postconditions: all of them for a caller, for the proof of the body those the property stands for.  A clause may name the
        properties it serves; it is proved in their checks and relied on in all of them"""
        out = []
        for cl in (self.ensures(c) if self.ensures else []):
            if prop is None or len(cl) < 3 or prop in cl[2].split():
                out.append((cl[0], cl[1]))
        return out


def serving(props, clauses):
    return [tuple(cl[:2]) + (props,) for cl in clauses]


class Lemma:
    """a consequence of contracts: a chain of steps, each proved from the hypotheses and the earlier steps.
    steps() -> (hyps, [(name, formula)])"""
    def __init__(self, name, steps, tags, timeout=None):
        self.name, self.steps, self.tags, self.timeout = name, steps, set(tags), timeout

    def obligations(self):
        import engine
        hyps, steps = self.steps()
        out = []
        for nm, f in steps:
            out.append(engine.Obligation("lemma " + self.name, nm, "lemma", 0, list(hyps), f))
            hyps = list(hyps) + [f]
        return out


class Ctxt:
    """what a contract clause can look at"""
    def __init__(self, eng, fn, pre, post=None, res=None):
        self.eng, self.fn, self.pre_, self.post_, self.res_ = eng, fn, pre, post, res

    @property
    def this(self):
        return self.pre_["this"]

    @property
    def new(self):
        return self.post_["this"]

    def a(self, i):
        return self.pre_["args"][i]

    def na(self, i):
        return self.post_["args"][i]

    @property
    def heap(self):
        return self.pre_["heap"]

    @property
    def res(self):
        return self.res_

    def changed_globals(self):
        """(old, new) of every integer global the call may have changed"""
        out = []
        for q, v in self.post_["globals"].items():
            old = self.pre_["globals"].get(q)
            if old is None:
                old = z3.Const("g:" + q + "0", v.sort())
            if v.sort() == I and not v.eq(old):
                out.append((old, v))
        return out

    def g(self, q):
        return self.pre_["globals"].get(q)

    def view(self, ty, leaves):
        import engine
        return engine.View(self.eng.lay, ty, leaves)


SIMPLE = ("bool", "int", "double", "enum", "ptr", "fnptr")


def install(E):
    import engine
    Val, LV, Py, Outcome, State, View = engine.Val, engine.LV, engine.Py, engine.Outcome, engine.State, engine.View
    Unsupported = engine.Unsupported

    def method(f):
        setattr(E, f.__name__, f)
        return f

    @method
    def wrap(self, st, x):
        if isinstance(x, LV):
            v = self.read(st, x)
        else:
            v = x
        if isinstance(v, Py):
            return v
        if v.ty.k in SIMPLE:
            return v.leaves[0]
        return View(self.lay, v.ty, v.leaves, v.meta)

    @method
    def snapshot(self, st, this, args):
        d = {"args": [self.wrap(st, a) for a in args], "heap": st.cells["heap"][0]}
        d["this"] = self.wrap(st, self.dyntype(this)) if isinstance(this, LV) else None
        d["globals"] = {k[2:]: v[0] for k, v in st.cells.items() if k.startswith("g:")}
        return d

    @method
    def path_lv(self, path, this, args):
        """modifies path -> lvalue: 'this', 'this.field', 'arg0', 'arg0.field'"""
        parts = path.split(".")
        if parts[0] == "this":
            lv = self.dyntype(this)
        elif parts[0].startswith("arg"):
            lv = args[int(parts[0][3:])]
        else:
            raise Unsupported("path " + path)
        for p in parts[1:]:
            lv = self.sub(lv, p)
        return lv

    @method
    def leafset(self, lv):
        """(cell, leaf indices) of an lvalue made of field steps only"""
        off, n = 0, None
        for s in lv.steps:
            if s[0] != "f":
                return None
            off += s[1]
            n = s[2]
        if n is None:
            n = len(self.lay.of(lv.ty))
        return lv.cid, range(off, off + n)

    @method
    def apply_contract(self, st, con, fn, this, args, line):
        self.used_contracts.add(con)
        args2 = []
        for p, a in zip(fn["params"], args):
            if p["t"].k == "ref":
                args2.append(a)
            else:
                args2.append(self.coerce(self.rv(st, a), p["t"]))
        args = args2
        pre = self.snapshot(st, this, args)
        c = Ctxt(self, fn, pre)
        if con.requires:
            for nm, f in con.requires(c):
                self.oblige(st, "precondition of %s: %s" % (fn["q"].split("::")[-1], nm), f, "pre", line)
                if not (z3.is_quantifier(f)):
                    self.assume(st, f)
        if con.throws:
            for exc, cond in con.throws(c):
                cond = tb(cond)
                if z3.is_false(cond) or self.implied(st, Not(cond)):
                    continue
                x = st.copy()
                self.assume(x, cond)
                if not con.throw_frame:
                    for path in con.modifies:
                        lv = self.path_lv(path, this, args)
                        self.write(x, lv, self.freshval(lv.ty, "thr"))
                self.exits.append(Outcome("throw", x, exc=exc, line=line))
                self.assume(st, Not(cond))
        if con.aborts:
            cond = Or([tb(f) for nm, f in con.aborts(c)])
            if not (z3.is_false(cond) or self.implied(st, Not(cond))):
                x = st.copy()
                self.assume(x, cond)
                self.exits.append(Outcome("abort", x, line=line))
                self.assume(st, Not(cond))
        ups = {}
        if con.updates:
            ups = con.updates(c)
            for path, leaves in ups.items():
                lv = self.path_lv(path, this, args)
                if not isinstance(leaves, (list, tuple)):
                    leaves = [leaves]
                self.write(st, lv, Val(lv.ty, leaves))
        for path in con.modifies:
            if path in ups:
                continue
            if path == "g:":
                for q, g in self.prog.globals.items():
                    if not g["t"].const and g["t"].k == "int":
                        st.cells["g:" + q] = (fresh("glob", I),)
                        st.ctys["g:" + q] = g["t"]
                continue
            lv = self.path_lv(path, this, args)
            v = self.freshval(lv.ty, "post_" + path.replace(".", "_"))
            self.write(st, lv, v)
            for f in self.canon(lv.ty, v.leaves):
                self.assume(st, f)
        rt = fn["ret"]
        res = None
        if rt is not None and rt.k != "void" and not fn.get("ctor"):
            t = rt.noref()
            if con.returns:
                r = con.returns(c)
                res = Val(t, list(r) if isinstance(r, (list, tuple)) else [r])
            else:
                res = self.freshval(t, "res")
                for f in self.canon(t, res.leaves):
                    self.assume(st, f)
        post = self.snapshot(st, this, args)
        c2 = Ctxt(self, fn, pre, post, self.wrap(st, res) if res is not None else None)
        for nm, f in con.clauses(c2):
            self.assume(st, f)
            if res is not None and z3.is_app(f) and f.decl().name() == "enum" and res.ty.n in engine.VEC and \
                    f.arg(1).eq(res.leaves[0]) and f.arg(0).eq(res.leaves[1]):
                res.meta = dict(res.meta or {}, enum=(f.arg(0), f.arg(1), f.arg(2)))
        return res if res is not None else Val(VOID, [])

    # ------------------------------------------------------------ verification of one function
    @method
    def initial(self, fn, con):
        st = State()
        st.cells["heap"] = (z3.Const("heap", arr(R)),)
        st.ctys["heap"] = Ty("rec", "std::array", (DOUBLE,))
        this = None
        facts = []
        if fn.get("cls") is not None and not fn.get("static"):
            ty = fn["cls"]
            if con.this:
                ty = [r["t"] for r in self.prog.recs.values() if r["t"].n == con.this][0]
            sorts = self.lay.of(ty)
            st.cells["this"] = tuple(z3.Const("this:%d" % i, s) for i, s in enumerate(sorts))
            st.ctys["this"] = ty
            this = LV("this", (), ty)
            if not fn.get("ctor"):
                facts += self.canon(ty, st.cells["this"])
            if ty.key != fn["cls"].key:
                off = self.lay.base(ty, fn["cls"])
                this = LV("this", (("f", off, len(self.lay.of(fn["cls"])), ty),), fn["cls"])
        args = []
        for i, p in enumerate(fn["params"]):
            t = p["t"].noref()
            if t.k == "ptr" and t.to.key in self.prog.recs:
                cid = "arg%d" % i
                sorts = self.lay.of(t.to)
                st.cells[cid] = tuple(z3.Const("%s:%d" % (cid, k), s) for k, s in enumerate(sorts))
                st.ctys[cid] = t.to
                facts += self.canon(t.to, st.cells[cid])
                args.append(Py("ptr", lv=LV(cid, (), t.to)))
                continue
            sorts = self.lay.of(t)
            leaves = tuple(z3.Const("arg%d:%d" % (i, k), s) for k, s in enumerate(sorts))
            facts += self.canon(t, leaves)
            if t.k == "int" and not t.s and t.w:
                facts.append(leaves[0] >= 0)
            if p["t"].k == "ref":
                cid = "arg%d" % i
                st.cells[cid] = leaves
                st.ctys[cid] = t
                args.append(LV(cid, (), t))
                if t.n in engine.MAPS and t.args[1].k == "double":
                    k = z3.Int("ad!k")
                    facts.append(forall([k], Implies(sel(leaves[0], k), z3.And(sel(st.cells["heap"][0], ADDR(z3.Int("addr:" + cid), k)) == sel(leaves[1], k),
                                                                           ADDR(z3.Int("addr:" + cid), k) != 0)), manual=True))
            else:
                args.append(Val(t, leaves))
        for f in facts:
            self.assume(st, f)
        return st, this, args

    @method
    def verify(self, con, prop):
        """-> list of obligations (undischarged)"""
        fn = self.prog.funcs[con.bound]
        self.fn = con.bound
        self.prop = prop
        self.obls, self.exits = [], []
        self.candinv = list(con.candinv)
        self.force_inline = set(con.force_inline) | self.force_inline
        st, this, args = self.initial(fn, con)
        pargs = [a.lv if isinstance(a, Py) and a.kind == "ptr" else a for a in args]
        pre = self.snapshot(st, this, pargs)
        c = Ctxt(self, fn, pre)
        reqs = con.requires(c) if con.requires else []
        for nm, f in reqs:
            self.assume(st, tb(f))
        self.prehyps = list(st.pc)
        if con.hints:
            sh = st.copy()                    # steps marked local serve the later steps only
            for h in con.hints(c):
                if len(h) < 3 or h[2] != "definition":
                    self.oblige(sh, h[0], h[1], "lemma", 0)
                self.assume(sh, h[1])
                if len(h) < 3:
                    self.assume(st, h[1])
        if con.facts:
            for f in con.facts(c):
                self.assume(st, f)
        self.loopinv, self.loopctx, self.loopdisc = (lambda s, ks: con.loopinv(c, self, s, ks)) if con.loopinv else None, [], 0
        pre_cells = dict(st.cells)
        throws = con.throws(c) if con.throws else []
        nret = 0
        outs, todo = [], [[]]
        while todo:
            import engine
            self.splits = sp = engine.Splits(todo.pop())
            sp.start = len(self.obls)
            s1 = st.copy()
            s1.ctys = dict(st.ctys)
            outs += self.exec_function(fn, s1, this, args)
            todo += sp.rest()
        self.splits = None
        for o in outs:
            s = o.st
            if o.kind == "ret":
                nret += 1
                post = self.snapshot(s, this, pargs)
                res = None
                if con.resref:
                    # the result is a reference to the stored element, not to a copy
                    path, keyf = con.resref
                    lv = self.path_lv(path, this, pargs)
                    if not (isinstance(o.val, LV) and o.val.cid == lv.cid and len(o.val.steps) == len(lv.steps) + 1 and
                            o.val.steps[-1][0] == "i" and all(a[:3] == b[:3] for a, b in zip(o.val.steps, lv.steps))):
                        self.oblige(s, "refers to the stored element", z3.BoolVal(False), "post", o.line)
                    else:
                        self.oblige(s, "refers to the stored element", Eq(o.val.steps[-1][1], keyf(c)), "post", o.line)
                if o.val is not None:
                    res = self.rv(s, o.val)
                    if isinstance(res, Py):
                        raise Unsupported("result kind")
                    resw = self.wrap(s, res)
                else:
                    resw = None
                c2 = Ctxt(self, fn, pre, post, resw)
                for exc, cond in throws:
                    self.oblige(s, "returns normally only when %s is not required" % exc, Not(tb(cond)), "throws", o.line)
                if con.returns and res is not None:
                    r = con.returns(c)
                    r = list(r) if isinstance(r, (list, tuple)) else [r]
                    for i, (x, y) in enumerate(zip(res.leaves, r)):
                        self.oblige(s, "result value", Eq(x, y), "post", o.line)
                ups = con.updates(c) if con.updates else {}
                for path, leaves in ups.items():
                    lv = self.path_lv(path, this, pargs)
                    cur = self.read(s, lv)
                    if not isinstance(leaves, (list, tuple)):
                        leaves = [leaves]
                    for x, y in zip(cur.leaves, leaves):
                        self.oblige(s, "new value of %s" % path, Eq(x, y), "post", o.line)
                for nm, f in con.clauses(c2, prop):
                    self.oblige(s, nm, f, "post", o.line)
                self.frame_obls(s, pre_cells, con, fn, this, pargs, ups, o.line)
            elif o.kind == "throw":
                ok = Or([tb(cond) for exc, cond in throws if exc == o.exc])
                self.oblige(s, "throws %s only when specified" % o.exc, ok, "throws", o.line)
                if con.throw_frame:
                    self.frame_obls(s, pre_cells, None, fn, this, pargs, {}, o.line, thrown=True)
            elif o.kind == "abort":
                if con.aborts:
                    self.oblige(s, "stops only when specified", Or([f for nm, f in con.aborts(c)]), "abort", o.line)
                else:
                    self.oblige(s, "assertion holds", z3.BoolVal(False), "assert", o.line)
            else:
                raise Unsupported("outcome " + o.kind)
        return self.obls

    @method
    def frame_obls(self, s, pre_cells, con, fn, this, args, ups, line, thrown=False):
        allowed = {}
        if con is not None:
            for path in list(con.modifies) + list(ups):
                if path == "g:":
                    continue
                ls = self.leafset(self.path_lv(path, this, args))
                allowed.setdefault(ls[0], set()).update(ls[1])
        for cid, old in pre_cells.items():
            if fn.get("ctor") and cid == "this":
                continue
            new = s.cells.get(cid)
            if isinstance(new, Py) or new is None:
                continue
            for i, (x, y) in enumerate(zip(old, new)):
                if x.eq(y) or i in allowed.get(cid, ()):
                    continue
                # parameters passed by value are private to the callee
                self.oblige(s, "%s unchanged%s" % (self.leafname(s, cid, i), " when an exception is thrown" if thrown else ""), Eq(y, x), "frame", line)
        for cid in s.cells:
            if cid.startswith("g:") and cid not in pre_cells:
                g = self.prog.globals[cid[2:]]
                init = tuple(z3.Const(cid + str(i), so) for i, so in enumerate(self.lay.of(g["t"])))
                for i, (x, y) in enumerate(zip(init, s.cells[cid])):
                    if not x.eq(y) and not (con is not None and "g:" in con.modifies):
                        self.oblige(s, "global %s unchanged" % cid[2:], Eq(y, x), "frame", line)

    @method
    def leafname(self, st, cid, i):
        ty = st.ctys.get(cid)
        name = cid
        off = 0
        while ty is not None and ty.key in self.prog.recs:
            r = self.prog.recs[ty.key]
            o2 = off
            hit = None
            for b in r["bases"]:
                k = len(self.lay.of(b["t"]))
                if o2 <= i < o2 + k:
                    hit = (name, b["t"], o2)
                o2 += k
            for f in r["fields"]:
                k = len(self.lay.of(f["t"]))
                if o2 <= i < o2 + k:
                    hit = (name + "." + f["n"], f["t"], o2)
                o2 += k
            if hit is None:
                break
            name, ty, off = hit
        return name
