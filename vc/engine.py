"""Symbolic execution of the extracted function bodies; generates proof obligations."""
import itertools
import z3
from ir import *
from terms import *
import prover
from prover import forall, exists, ENUM


class Unsupported(Exception):
    pass


class Val:
    __slots__ = ("ty", "leaves", "meta")

    def __init__(self, ty, leaves, meta=None):
        self.ty, self.leaves, self.meta = ty, tuple(leaves), meta or {}

    @property
    def z(self):
        assert len(self.leaves) == 1, (self.ty, len(self.leaves))
        return self.leaves[0]


class LV:
    __slots__ = ("cid", "steps", "ty", "meta")

    def __init__(self, cid, steps, ty):
        self.cid, self.steps, self.ty = cid, tuple(steps), ty

    def same(self, o):
        if self.cid != o.cid or len(self.steps) != len(o.steps):
            return False
        for a, b in zip(self.steps, o.steps):
            if a[0] != b[0]:
                return False
            if a[0] == "f" and a[1:3] != b[1:3]:
                return False
            if a[0] == "i" and not (a[1].eq(b[1])):
                return False
        return True


class Py:
    """a value that exists only during symbolic execution: iterators, lambdas, pointers to objects"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Outcome:
    def __init__(self, kind, st, val=None, exc=None, line=0):
        self.kind, self.st, self.val, self.exc, self.line = kind, st, val, exc, line


class State:
    __slots__ = ("cells", "env", "pc", "dead", "meta", "ctys")

    def __init__(self):
        self.cells, self.env, self.pc, self.dead, self.meta, self.ctys = {}, {}, [], False, {}, {}

    def copy(self):
        s = State()
        s.cells, s.env, s.pc, s.dead, s.meta, s.ctys = dict(self.cells), dict(self.env), list(self.pc), self.dead, dict(self.meta), self.ctys
        return s


VEC = ("std::vector", "std::deque", "std::list")
MAPS = ("std::unordered_map", "std::map")
SETS = ("std::unordered_set", "std::set")
ENGINES = ("std::mersenne_twister_engine", "std::linear_congruential_engine")
OPAQUE = ("std::basic_string", "std::basic_ostream", "std::invalid_argument", "std::runtime_error", "std::logic_error",
          "std::out_of_range", "std::allocator", "std::exception", "std::domain_error", "std::length_error")


class Layouts:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.fo = {}
        self.fieldmap = {}

    def of(self, ty):
        """list of sorts"""
        ty = ty.noref() if ty.k == "ref" else ty
        k = ty.key
        if k in self.memo:
            return self.memo[k]
        r = self._of(ty)
        self.memo[k] = r
        return r

    def _of(self, ty):
        if ty.k == "bool":
            return [B]
        if ty.k in ("int", "enum", "ptr", "fnptr", "nullptr"):
            return [I]
        if ty.k == "double":
            return [R]
        if ty.k == "void":
            return []
        if ty.k == "rec":
            n = ty.n
            if n == "std::pair":
                return self.of(ty.args[0]) + self.of(ty.args[1])
            if n in VEC:
                return [I] + [arr(s) for s in self.of(ty.args[0])]
            if n in MAPS:
                self.keycheck(ty.args[0])
                return [SET] + [arr(s) for s in self.of(ty.args[1])]
            if n in SETS:
                e = ty.args[0]
                if e.k in ("int", "enum"):
                    return [SET]
                if e.isrec("std::pair") and e.args[0].k == "int":
                    return [SET] + [arr(s) for s in self.of(e.args[1])]
                raise Unsupported("set of " + e.key)
            if n in ENGINES:
                return [I]
            if n == "std::uniform_real_distribution":
                return [R, R]
            if n == "std::uniform_int_distribution":
                return [I, I]
            if n == "std::array":
                return [arr(s) for s in self.of(ty.args[0])]
            if n in OPAQUE or n.startswith("std::chrono"):
                return [I]
            if n in ("std::less", "std::greater", "std::hash", "std::equal_to"):
                return []
            if ty.key in self.prog.recs:
                r = self.prog.recs[ty.key]
                out = []
                for b in r["bases"]:
                    out += self.of(b["t"])
                for f in r["fields"]:
                    out += self.of(f["t"])
                return out
        raise Unsupported("layout of " + ty.key)

    def keycheck(self, k):
        if k.k not in ("int", "enum"):
            raise Unsupported("map key " + k.key)

    def field(self, ty, name):
        """offset, count, type of a (possibly inherited) field"""
        key = (ty.key, name)
        if key in self.fo:
            return self.fo[key]
        if ty.isrec("std::pair"):
            a = len(self.of(ty.args[0]))
            r = (0, a, ty.args[0]) if name == "first" else (a, len(self.of(ty.args[1])), ty.args[1])
        else:
            r = self._field(ty, name)
            if r is None:
                raise Unsupported("no field %s in %s" % (name, ty.key))
        self.fo[key] = r
        return r

    def _field(self, ty, name):
        rec = self.prog.recs.get(ty.key)
        if rec is None:
            return None
        off = 0
        for b in rec["bases"]:
            r = self._field(b["t"], name)
            if r:
                return (off + r[0], r[1], r[2])
            off += len(self.of(b["t"]))
        for f in rec["fields"]:
            n = len(self.of(f["t"]))
            if f["n"] == name:
                return (off, n, f["t"])
            off += n
        return None

    def base(self, ty, bty):
        rec = self.prog.recs.get(ty.key)
        if rec is None:
            return None
        off = 0
        for b in rec["bases"]:
            if b["t"].key == bty.key:
                return off
            r = self.base(b["t"], bty)
            if r is not None:
                return off + r
            off += len(self.of(b["t"]))
        return None


class View:
    """read access for contracts: v.field, v.dom, v.len, v.at(k)"""
    def __init__(self, lay, ty, leaves, meta=None):
        self.__dict__["_l"] = lay
        self.__dict__["ty"] = ty
        self.__dict__["leaves"] = tuple(leaves)
        self.__dict__["meta"] = meta or {}

    def _wrap(self, ty, leaves):
        if ty.k in ("bool", "int", "double", "enum", "ptr", "fnptr"):
            return leaves[0]
        return View(self._l, ty, leaves)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        ty = self.ty
        if ty.k == "rec":
            if ty.n in VEC and n == "len":
                return self.leaves[0]
            if ty.n in (MAPS + SETS) and n == "dom":
                return self.leaves[0]
            if ty.n in (MAPS + SETS) and n == "val":
                return self.leaves[1]
            if ty.n in VEC and n == "val":
                return self.leaves[1]
            if ty.n in VEC and n == "ids":
                return self.leaves[1]
            if ty.n in VEC and n == "snd":
                return self.leaves[2]
        off, c, t = self._l.field(ty, n)
        return self._wrap(t, self.leaves[off:off + c])

    def at(self, k):
        ty = self.ty
        if isinstance(k, int):
            k = z3.IntVal(k)
        if ty.n in VEC:
            return self._wrap(ty.args[0], [sel(x, k) for x in self.leaves[1:]])
        if ty.n in MAPS:
            return self._wrap(ty.args[1], [sel(x, k) for x in self.leaves[1:]])
        if ty.n in SETS and len(self.leaves) > 1:
            return self._wrap(ty.args[0].args[1], [sel(x, k) for x in self.leaves[1:]])
        raise Unsupported("at on " + ty.key)

    def has(self, k):
        if isinstance(k, int):
            k = z3.IntVal(k)
        return sel(self.leaves[0], k)

    def __eq__(self, o):
        return And([Eq(a, b) for a, b in zip(self.leaves, o.leaves)])

    __hash__ = None


class Obligation:
    def __init__(self, fn, name, kind, line, hyps, goal):
        self.fn, self.name, self.kind, self.line, self.hyps, self.goal = fn, name, kind, line, hyps, goal
        self.status, self.info, self.time = None, None, 0.0


def trunc_div(a, b):
    """C++ integer division truncates toward zero"""
    if z3.is_int_value(b) and b.as_long() > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    pos = lambda d: z3.If(a >= 0, EDIV(a, d), -EDIV(-a, d))
    return z3.If(b > 0, pos(b), -pos(-b))


def trunc_mod(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return z3.If(a >= 0, a % b, -((-a) % b))
    pos = lambda d: z3.If(a >= 0, EMOD(a, d), -EMOD(-a, d))
    return z3.If(b > 0, pos(b), pos(-b))


def is_literal(e):
    """a string literal below casts"""
    while e["e"] == "cast":
        e = e["s"]
    return e["e"] == "str"


def nonzero(z):
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(x) for x in z.children()[1:]):
        a, b = z.arg(1).as_long() != 0, z.arg(2).as_long() != 0
        return z3.BoolVal(a) if a == b else (z.arg(0) if a else Not(z.arg(0)))
    return z != 0


LOOPS = ("for", "while", "do", "rfor")


def has_loop(s):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get("s") in LOOPS:
                return True
            st.extend(v for k, v in x.items() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)
    return False


class Splits:
    """choices at the case distinctions that are followed path by path"""
    def __init__(self, path):
        self.path, self.given = list(path), len(path)
        self.local = False                 # all / loops: the paths of one loop iteration, not of the whole body
        self.pos = self.cut = 0

    def take(self, eng):
        if self.pos >= len(self.path):
            self.path.append(True)
        way = self.path[self.pos]
        self.pos += 1
        if self.pos == self.given:
            # everything up to here was dealt with by the run that took the other way
            del eng.obls[self.start:]
            if not self.local:
                del eng.exits[:]
        return way

    def rest(self):
        return [self.path[:i] + [False] for i in range(self.given, len(self.path))]


class Engine:
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.lay = Layouts(prog)
        self.contracts = contracts or {}
        self.obls = []
        self.exits = []
        self.trivial = 0
        self.fn = None
        self.depth = 0
        self.loopdepth = 0
        self.splits = None
        self.ncell = 0
        self.fncodes = {}
        self.record = True
        self.assumed = set()
        self.inlined = set()
        self.used_contracts = set()
        self.loops = []
        self.frame = None
        self.pushlog = None
        self.candinv = []
        self.loopinv = None
        self.loopdisc = 0
        self.stale = set()       # facts about values that a loop invariant has superseded
        self.taint = []
        self.noinline_fail = set()
        self.noloopcheck = False
        self.force_inline = set()
        self.divlog = []

    # ------------------------------------------------------------ cells
    def newcell(self, st, ty, leaves, name="t"):
        self.ncell += 1
        cid = "%s#%d" % (name, self.ncell)
        st.cells[cid] = tuple(leaves)
        st.ctys[cid] = ty
        return LV(cid, (), ty)

    def freshval(self, ty, name):
        return Val(ty, [fresh(name, s) for s in self.lay.of(ty)])

    def read(self, st, x):
        if isinstance(x, Val):
            return x
        if isinstance(x, Py):
            return x
        leaves = st.cells[x.cid]
        if isinstance(leaves, Py):
            return leaves
        for s in x.steps:
            if s[0] == "f":
                leaves = leaves[s[1]:s[1] + s[2]]
            else:
                leaves = [sel(l, s[1]) for l in leaves[s[2]:]]
        m = st.meta.get(self.lvkey(x))
        return Val(x.ty, leaves, m)

    def lvkey(self, lv):
        return (lv.cid,) + tuple(("f", s[1], s[2]) if s[0] == "f" else ("i", s[1].get_id(), s[2]) for s in lv.steps)

    def write(self, st, lv, val):
        if not isinstance(lv, LV):
            raise Unsupported("assignment to non-lvalue")
        if isinstance(val, Py):
            if lv.steps:
                raise Unsupported("storing executor object")
            st.cells[lv.cid] = val
            return

        def upd(leaves, steps):
            if not steps:
                assert len(leaves) == len(val.leaves), (lv.ty, val.ty, len(leaves), len(val.leaves))
                return tuple(val.leaves)
            s = steps[0]
            if s[0] == "f":
                mid = upd(leaves[s[1]:s[1] + s[2]], steps[1:])
                return tuple(leaves[:s[1]]) + tuple(mid) + tuple(leaves[s[1] + s[2]:])
            sub = upd(tuple(sel(l, s[1]) for l in leaves[s[2]:]), steps[1:])
            return tuple(leaves[:s[2]]) + tuple(self.store(l, s[1], v) for l, v in zip(leaves[s[2]:], sub))

        old = st.cells[lv.cid]
        if isinstance(old, Py):
            old = ()
        st.cells[lv.cid] = upd(tuple(old), lv.steps)
        base = (lv.cid,)
        # drop meta of anything overlapping
        k = self.lvkey(lv)
        for mk in [m for m in st.meta if m[:len(k)] == k or k[:len(m)] == m]:
            del st.meta[mk]
        if val.meta:
            st.meta[k] = val.meta

    def store(self, a, k, v):
        cur = sel(a, k)
        if cur.eq(v):
            return a
        if z3.is_store(a) and a.arg(1).eq(k):
            a = a.arg(0)
        return z3.Store(a, k, v)

    def sub(self, lv, name):
        if isinstance(lv, Val):
            off, c, t = self.lay.field(lv.ty, name)
            return Val(t, lv.leaves[off:off + c])
        off, c, t = self.lay.field(lv.ty, name)
        return LV(lv.cid, lv.steps + (("f", off, c, lv.ty),), t)

    def elem(self, lv, key):
        """element of a vector/map lvalue"""
        ty = lv.ty
        if ty.n in VEC or ty.n == "std::array":
            et = ty.args[0]
            first = 0 if ty.n == "std::array" else 1
        elif ty.n in MAPS:
            et, first = ty.args[1], 1
        else:
            et, first = ty.args[0], 1
        if isinstance(lv, Val):
            return Val(et, [sel(l, key) for l in lv.leaves[first:]])
        return LV(lv.cid, lv.steps + (("i", key, first),), et)

    # ------------------------------------------------------------ obligations / facts
    def oblige(self, st, name, goal, kind="pre", line=0):
        if not self.record or st.dead:
            return
        goal = tb(goal)
        if z3.is_true(goal):
            self.trivial += 1
            return
        self.obls.append(Obligation(self.fn, name, kind, line, [f for f in st.pc if f.get_id() not in self.stale], goal))

    def assume(self, st, f):
        f = tb(f)
        if z3.is_true(f):
            return
        st.pc.append(f)
        if z3.is_false(f):
            st.dead = True

    def implied(self, st, lit):
        lit = z3.simplify(lit) if not z3.is_quantifier(lit) else lit
        if z3.is_true(lit):
            return True
        i = lit.get_id()
        for f in st.pc:
            if f.get_id() == i:
                return True
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_AND and any(c.get_id() == i for c in f.children()):
                return True
        try:
            r = prover.check(prover.flat_hyps(st.pc)[0] + [Not(lit)], 0.4)[0]
        except z3.Z3Exception:
            return False
        return r == "unsat"

    def infeasible(self, st, c):
        if z3.is_false(c):
            return True
        r = prover.check(prover.flat_hyps(st.pc)[0] + [c], 0.4)[0]
        return r == "unsat"

    # ------------------------------------------------------------ fork / merge
    def fork(self, st, c):
        a, b = st.copy(), st.copy()
        self.assume(a, c)
        self.assume(b, Not(c))
        return a, b

    def merge(self, base, c, a, b):
        """merge a (taken when c) and b (otherwise), both derived from base, into base"""
        if a.dead and b.dead:
            base.dead = True
            base.pc, base.cells, base.env, base.meta = a.pc, a.cells, a.env, a.meta
            return
        if a.dead or b.dead:
            s = b if a.dead else a
            base.cells, base.env, base.pc, base.meta, base.dead = s.cells, s.env, s.pc, s.meta, False
            return
        n = len(base.pc)
        pa, pb = a.pc[n:], b.pc[n:]
        # first element of each suffix is the branch condition (or absent when trivially true)
        fa, fb = And([x for x in pa if not x.eq(c)]), And([x for x in pb if not x.eq(Not(c))])
        pc = base.pc[:n]
        if not z3.is_true(fa):
            pc.append(Implies(c, fa))
        if not z3.is_true(fb):
            pc.append(Implies(Not(c), fb))
        cells = {}
        for cid in a.cells:
            if cid in b.cells:
                x, y = a.cells[cid], b.cells[cid]
                if isinstance(x, Py) or isinstance(y, Py):
                    cells[cid] = self.merge_py(c, x, y)
                else:
                    if len(x) != len(y):
                        cells[cid] = x if len(x) else y
                    else:
                        cells[cid] = tuple(If(c, p, q) for p, q in zip(x, y))
            else:
                cells[cid] = a.cells[cid]
        for cid in b.cells:
            if cid not in cells:
                cells[cid] = b.cells[cid]
        env = {}
        for v in a.env:
            if v in b.env:
                env[v] = a.env[v]
                x, y = a.env[v], b.env[v]
                if isinstance(x, LV) and isinstance(y, LV) and not x.same(y):
                    env[v] = Py("bad", why="reference bound differently on two paths")
        meta = {k: v for k, v in a.meta.items() if k in b.meta and b.meta[k] is v}
        base.cells, base.env, base.pc, base.meta, base.dead = cells, env, pc, meta, False

    def merge_py(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, Py) and isinstance(y, Py) and x.kind == y.kind == "it":
            if x.lv.same(y.lv) and x.pos is not None and y.pos is not None and x.mapk == y.mapk:
                return Py("it", lv=x.lv, pos=If(c, x.pos, y.pos), mapk=x.mapk, end=If(c, x.end, y.end))
        return Py("bad", why="executor object differs on two paths")

    def merge_val(self, c, x, y):
        if isinstance(x, Val) and isinstance(y, Val):
            return Val(x.ty, [If(c, a, b) for a, b in zip(x.leaves, y.leaves)], x.meta if x.meta is y.meta else None)
        if x is None and y is None:
            return None
        if isinstance(x, Py) or isinstance(y, Py):
            return self.merge_py(c, x, y)
        raise Unsupported("merge of %r %r" % (x, y))

    # ------------------------------------------------------------ entry
    def exec_function(self, f, st, this, args):
        """run body with params bound; returns outcomes (Return / Throw / Abort)"""
        saved_exits, saved_env, saved_frame = self.exits, st.env, self.frame
        self.exits = []
        st.env = {}
        self.frame = {"this": this, "f": f}
        for p, a in zip(f["params"], args):
            self.bind(st, p["v"], p["t"], a, p["n"])
        if "inits" in f:
            self.run_inits(f, st, this)
        fell = st
        if f.get("body"):
            self.stmt(fell, f["body"])
        outs = self.exits
        if not fell.dead:
            outs.append(Outcome("ret", fell, None, line=f["el"]))
        self.exits, self.frame = saved_exits, saved_frame
        for o in outs:
            o.st.env = dict(saved_env)
        return outs

    def run_inits(self, f, st, this):
        done = set()
        cls = f["cls"]
        for i in f["inits"]:
            if i.get("deleg"):
                e = i["init"]
                self.construct(st, this, e)
                continue
            if "m" in i:
                t = self.sub(this, i["m"])
                done.add(i["m"])
                self.init_lv(st, t, i["init"])
            elif "b" in i:
                off = self.lay.base(cls, i["b"])
                t = LV(this.cid, this.steps + (("f", off, len(self.lay.of(i["b"])), cls),), i["b"])
                e = i["init"]
                if e["e"] == "ctor":
                    self.construct(st, t, e)
                else:
                    self.init_lv(st, t, e)

    def construct(self, st, lv, e):
        """run constructor expression e on lvalue lv"""
        f = e["f"]
        if f.get("r") and not e.get("copy") and not e.get("move") and not f.get("implicit"):
            args = [self.evarg(st, a, p) for a, p in zip(e["args"], f["ps"])]
            self.call_user(st, f, lv, args, e.get("l", 0))
            return
        v = self.rv(st, self.ev(st, e))
        self.write(st, lv, v)

    def init_lv(self, st, lv, e):
        if e is None:
            return
        if e["e"] == "ctor" and e["f"].get("r") and not e.get("copy") and not e.get("move") and not e["f"].get("implicit"):
            self.construct(st, lv, e)
            return
        v = self.rv(st, self.ev(st, e))
        v = self.coerce(v, lv.ty)
        self.write(st, lv, v)

    def bind(self, st, vid, ty, a, name="p"):
        if ty.k == "ref":
            if isinstance(a, LV):
                st.env[vid] = a
            elif isinstance(a, Py):
                st.env[vid] = a
            else:
                st.env[vid] = self.newcell(st, a.ty, a.leaves, name)
                if a.meta:
                    st.meta[(st.env[vid].cid,)] = a.meta
        else:
            v = self.rv(st, a)
            if isinstance(v, Py):
                lv = self.newcell(st, ty, (), name)
                st.cells[lv.cid] = v
                st.env[vid] = lv
            else:
                v = self.coerce(v, ty)
                lv = self.newcell(st, ty, v.leaves, name)
                if v.meta:
                    st.meta[(lv.cid,)] = v.meta
                st.env[vid] = lv

    def coerce(self, v, ty):
        if isinstance(v, Py):
            return v
        ls = self.lay.of(ty)
        if len(ls) == len(v.leaves) == 1:
            z = v.leaves[0]
            s = ls[0]
            if z.sort() != s:
                if z.sort() == I and s == R:
                    z = z3.ToReal(z)
                elif z.sort() == B and s == I:
                    z = If(z, z3.IntVal(1), z3.IntVal(0))
                elif z.sort() == I and s == B:
                    z = nonzero(z)
                elif z.sort() == R and s == I:
                    z = self.trunc(z)
                elif z.sort() == B and s == R:
                    z = If(z, z3.RealVal(1), z3.RealVal(0))
                else:
                    raise Unsupported("coerce %s -> %s" % (z.sort(), s))
                return Val(ty, [z])
            return Val(ty, v.leaves, v.meta)
        if ty.isrec("std::pair") and v.ty.isrec("std::pair"):
            n = len(self.lay.of(v.ty.args[0]))
            a = self.coerce(Val(v.ty.args[0], v.leaves[:n]), ty.args[0])
            b = self.coerce(Val(v.ty.args[1], v.leaves[n:]), ty.args[1])
            return Val(ty, a.leaves + b.leaves)
        if len(ls) == len(v.leaves):
            return Val(ty, v.leaves, v.meta)
        raise Unsupported("coerce %s -> %s" % (v.ty, ty))

    def trunc(self, z):
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_TO_REAL:
            return z.arg(0)
        return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))

    # ------------------------------------------------------------ statements
    def stmt(self, st, s):
        if s is None or st.dead:
            return
        k = s["s"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("statement %s line %s" % (s.get("what", k), s.get("l")))
        if k in LOOPS:
            self.loopdepth += 1
            try:
                m(st, s)
            finally:
                self.loopdepth -= 1
        else:
            m(st, s)

    def s_block(self, st, s):
        for x in s["b"]:
            if st.dead:
                return
            self.stmt(st, x)

    def s_null(self, st, s):
        pass

    def s_expr(self, st, s):
        self.ev(st, s["e"])

    def s_decl(self, st, s):
        for d in s["d"]:
            self.declare(st, d)

    def declare(self, st, d):
        t = d["t"]
        init = d.get("init")
        if d.get("static"):
            raise Unsupported("static local")
        if "bind" in d:
            self.declare_binding(st, d)
            return
        if t.k == "ref":
            x = self.ev(st, init)
            if isinstance(x, Val):
                lv = self.newcell(st, x.ty, x.leaves, d["n"])
                if x.meta:
                    st.meta[(lv.cid,)] = x.meta
                x = lv
            st.env[d["v"]] = x
            return
        if init is None:
            v = self.freshval(t, d["n"])
            st.env[d["v"]] = self.newcell(st, t, v.leaves, d["n"])
            return
        if init["e"] == "ctor" and init["f"].get("r") and not init.get("copy") and not init.get("move") and t.key in self.prog.recs:
            lv = self.newcell(st, t, self.freshval(t, d["n"]).leaves, d["n"])
            st.env[d["v"]] = lv
            if init["f"].get("implicit"):
                self.write(st, lv, self.default_value(st, t))
            else:
                self.construct(st, lv, init)
            return
        v = self.rv(st, self.ev(st, init))
        if st.dead:
            return
        self.bind(st, d["v"], t, v, d["n"])

    def declare_binding(self, st, d):
        raise Unsupported("structured binding")

    def s_if(self, st, s):
        if s.get("init"):
            self.stmt(st, s["init"])
        if s.get("cv"):
            self.stmt(st, s["cv"])
        c = self.cond(st, s["c"])
        if st.dead:
            return
        if z3.is_true(c):
            self.stmt(st, s["a"])
            return
        if z3.is_false(c):
            self.stmt(st, s["b"])
            return
        if self.splits is not None and (self.splits.local == 'all' or self.splits.local and (has_loop(s["a"]) or has_loop(s["b"])) or
                                         self.depth == 0 and not self.splits.local and self.loopdepth == 0 and (has_loop(s["a"]) or has_loop(s["b"]))):
            # one path at a time; verify() runs the body once for each
            way = self.splits.take(self)
            self.assume(st, c if way else Not(c))
            self.stmt(st, s["a"] if way else s["b"])
            return
        a, b = self.fork(st, c)
        self.stmt(a, s["a"])
        self.stmt(b, s["b"])
        self.merge(st, c, a, b)

    def cond(self, st, e):
        v = self.rv(st, self.ev(st, e))
        if st.dead:
            return z3.BoolVal(True)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, Py):
            raise Unsupported("object as condition")
        z = v.z
        if z.sort() != B:
            z = nonzero(z)
        s = z3.simplify(z) if not self._big(z) else z
        if z3.is_true(s) or z3.is_false(s):
            return s
        return z

    def _big(self, z):
        return False

    def s_ret(self, st, s):
        v = None
        if s["e"] is not None:
            x = self.ev(st, s["e"])
            if st.dead:
                return
            rt = self.frame.get("ret") or (self.frame["f"]["ret"] if self.frame["f"] else None)
            if rt is not None and rt.k == "ref":
                v = x
            else:
                v = self.rv(st, x)
                if rt is not None and isinstance(v, Val) and rt.k != "void":
                    v = self.coerce(v, rt)
        if st.dead:
            return
        self.exits.append(Outcome("ret", st.copy(), v, line=s["l"]))
        st.dead = True

    def s_break(self, st, s):
        self.exits.append(Outcome("break", st.copy(), line=s["l"]))
        st.dead = True

    def s_continue(self, st, s):
        self.exits.append(Outcome("continue", st.copy(), line=s["l"]))
        st.dead = True

    def s_switch(self, st, s):
        v = self.rv(st, self.ev(st, s["c"])).z
        body = s["b"]["b"] if s["b"]["s"] == "block" else [s["b"]]
        # flatten case labels
        items = []
        for x in body:
            labels = []
            while x and x["s"] in ("case", "default"):
                labels.append(x["c"] if x["s"] == "case" else None)
                x = x["b"]
            items.append((labels, x))
        consts_ = []
        for labels, _ in items:
            for l in labels:
                if l is not None:
                    consts_.append(self.rv(st, self.ev(st, l)).z)
        saved = self.exits
        self.exits = []
        run = []   # (cond, state)
        groups = []
        for idx, (labels, _) in enumerate(items):
            if labels:
                cs = []
                for l in labels:
                    if l is None:
                        cs.append(And([v != c for c in consts_]))
                    else:
                        cs.append(Eq(v, self.rv(st, self.ev(st, l)).z))
                groups.append((Or(cs), idx))
        hasdef = any(None in l for l, _ in items)
        if not hasdef:
            groups.append((And([v != c for c in consts_]), len(items)))
        results = []
        for c, start in groups:
            x = st.copy()
            self.assume(x, c)
            self.exits = []
            for labels, stm in items[start:]:
                if x.dead:
                    break
                self.stmt(x, stm)
            fall = [x] if not x.dead else []
            for o in self.exits:
                if o.kind == "break":
                    fall.append(o.st)
                else:
                    saved.append(o)
            results.append((c, fall))
        self.exits = saved
        # merge pairwise
        acc = None
        for c, fall in results:
            for x in fall:
                if acc is None:
                    acc = x
                else:
                    b = fresh("sw", B)
                    acc = self.join(st, [acc, x])
        if acc is None:
            st.dead = True
        else:
            st.cells, st.env, st.pc, st.meta, st.dead = acc.cells, acc.env, acc.pc, acc.meta, False

    def s_try(self, st, s):
        saved = self.exits
        self.exits = []
        body = st.copy()
        self.stmt(body, s["b"])
        outs = self.exits
        self.exits = saved
        falls = [] if body.dead else [body]
        for o in outs:
            if o.kind != "throw":
                self.exits.append(o)
                continue
            for h in s["h"]:
                if "v" not in h or self.catches(h["v"]["t"], o.exc):
                    x = o.st
                    x.dead = False
                    x.env = dict(st.env)
                    if "v" in h:
                        x.env[h["v"]["v"]] = self.newcell(x, h["v"]["t"].noref(), (fresh("exc", I),), "exc")
                    self.stmt(x, h["b"])
                    if not x.dead:
                        falls.append(x)
                    break
            else:
                self.exits.append(o)
        if not falls:
            st.dead = True
            return
        acc = self.join(st, falls)
        st.cells, st.env, st.pc, st.meta, st.dead = acc.cells, acc.env, acc.pc, acc.meta, False

    def catches(self, t, exc):
        n = t.noref().n or ""
        if n == exc or n == "std::exception":
            return True
        if n == "std::logic_error" and exc in ("std::invalid_argument", "std::out_of_range", "std::domain_error", "std::length_error"):
            return True
        return False

    def join(self, base, sts):
        """merge several states derived from base, using fresh selectors where needed"""
        acc = sts[0]
        for x in sts[1:]:
            n = 0
            while n < len(acc.pc) and n < len(x.pc) and acc.pc[n].eq(x.pc[n]):
                n += 1
            sel_ = None
            if n < len(acc.pc) and n < len(x.pc) and acc.pc[n].eq(Not(x.pc[n])):
                sel_ = acc.pc[n]
            if sel_ is None:
                sel_ = fresh("path", B)
            b = State()
            b.ctys = base.ctys
            b.pc = acc.pc[:n]
            a2, x2 = acc.copy(), x.copy()
            self.merge(b, sel_, a2, x2)
            b.ctys = base.ctys
            acc = b
        return acc

    # ------------------------------------------------------------ expressions
    def rv(self, st, x):
        if isinstance(x, LV):
            return self.read(st, x)
        return x

    def ev(self, st, e):
        if st.dead:
            return Val(VOID, [])
        m = getattr(self, "e_" + e["e"], None)
        if m is None:
            raise Unsupported("expression %s line %s" % (e.get("what", e["e"]), e.get("l")))
        return m(st, e)

    def evarg(self, st, e, pty):
        x = self.ev(st, e)
        if pty.k == "ref":
            return x
        v = self.rv(st, x)
        return v

    def e_int(self, st, e):
        v = int(e["v"])
        return Val(e["t"], [z3.IntVal(v)]) if e["t"].k != "bool" else Val(BOOL, [z3.BoolVal(v != 0)])

    def e_flt(self, st, e):
        from fractions import Fraction
        return Val(DOUBLE, [z3.RealVal(Fraction(e["v"]))])   # exact decimal rendering of the literal

    def e_bool(self, st, e):
        return Val(BOOL, [z3.BoolVal(bool(e["v"]))])

    def e_str(self, st, e):
        return Val(STR, [z3.IntVal(0)])

    def e_null(self, st, e):
        return Val(e["t"], [z3.IntVal(0)])

    def e_zero(self, st, e):
        return self.default_value(st, e["t"])

    def default_value(self, st, t):
        t = t.noref()
        if t.key in self.prog.recs:
            sig = self.find_default_ctor(t)
            if sig:
                lv = self.newcell(st, t, self.freshval(t, "dflt").leaves, "dflt")
                self.call_user_sig(st, sig, lv, [], 0)
                return self.read(st, lv)
            # implicit default: fields default / member initialisers
            rec = self.prog.recs[t.key]
            leaves = []
            for b in rec["bases"]:
                leaves += self.default_value(st, b["t"]).leaves
            for f in rec["fields"]:
                if "init" in f:
                    leaves += self.coerce(self.rv(st, self.ev(st, f["init"])), f["t"]).leaves
                elif f["t"].k in ("int", "double", "bool", "ptr", "enum", "fnptr"):
                    leaves += [fresh("uninit", s) for s in self.lay.of(f["t"])]
                else:
                    leaves += self.default_value(st, f["t"]).leaves
            return Val(t, leaves)
        if t.isrec("std::pair"):
            a, b = self.default_value(st, t.args[0]), self.default_value(st, t.args[1])
            return Val(t, a.leaves + b.leaves)
        if t.isrec("std::uniform_real_distribution"):
            return Val(t, [z3.RealVal(0), z3.RealVal(1)])
        if t.isrec("std::uniform_int_distribution"):
            return Val(t, [z3.IntVal(0), z3.IntVal(2 ** 31 - 1)])
        if t.isrec(*ENGINES):
            return Val(t, [SEED(z3.IntVal(5489))])
        return Val(t, [default(s) for s in self.lay.of(t)])

    def find_default_ctor(self, t):
        short = t.n.split("::")[-1]
        for sig in self.prog.byname.get(t.n + "::" + short, []):
            f = self.prog.funcs[sig]
            if f.get("ctor") and not f["params"] and not f.get("defaulted"):
                return sig
        return None

    def e_this(self, st, e):
        return Py("ptr", lv=self.frame["this"])

    def e_ref(self, st, e):
        x = st.env.get(e["v"])
        if x is None:
            raise Unsupported("unbound variable %s" % e.get("n"))
        if isinstance(x, LV) and isinstance(st.cells.get(x.cid), Py) and not x.steps:
            y = st.cells[x.cid]
            if y.kind == "bad":
                raise Unsupported(y.why)
            return x
        if isinstance(x, Py) and x.kind == "bad":
            raise Unsupported(x.why)
        return x

    def e_gref(self, st, e):
        q = e["q"]
        if e["t"].isrec("std::basic_ostream"):
            return Val(e["t"], [z3.IntVal(0)])
        if not e.get("r"):
            raise Unsupported("global " + q)
        g = self.prog.globals[q]
        if g["t"].const and "init" in g:
            v = self.ev(st, g["init"])
            return self.coerce(self.rv(st, v), g["t"])
        cid = "g:" + q
        if cid not in st.cells:
            st.cells[cid] = tuple(z3.Const("g:" + q + str(i), s) for i, s in enumerate(self.lay.of(g["t"])))
            st.ctys[cid] = g["t"]
        return LV(cid, (), g["t"])

    def constant(self, q):
        """value of a named constant of the code, for use in contracts"""
        g = self.prog.globals.get(q)
        if g is None or "init" not in g:
            raise Unsupported("no constant " + q)
        st = State()
        return self.coerce(self.rv(st, self.ev(st, g["init"])), g["t"]).leaves[0]

    def e_fref(self, st, e):
        f = e["f"]
        if f.get("r"):
            return Val(Ty("fnptr"), [z3.IntVal(self.fncode(f["sig"]))])
        return Py("libfn", q=f["q"])

    def fncode(self, sig):
        if sig not in self.fncodes:
            self.fncodes[sig] = 1000 + sorted(self.prog.funcs).index(sig) if sig in self.prog.funcs else 1000 + len(self.fncodes) + 100000
        return self.fncodes[sig]

    def fn_of_code(self, n):
        i = n - 1000
        ks = sorted(self.prog.funcs)
        return ks[i] if 0 <= i < len(ks) else None

    def obj(self, st, x, arrow):
        """object expression of a member access -> LV or Val"""
        if arrow:
            v = self.rv(st, x)
            if isinstance(v, Py):
                if v.kind == "ptr":
                    return v.lv
                if v.kind == "it":
                    return self.deref_it(st, v)
            raise Unsupported("arrow on opaque pointer")
        return x

    def e_mem(self, st, e):
        b = self.ev(st, e["b"])
        if st.dead:
            return Val(VOID, [])
        o = self.obj(st, b, e.get("arrow"))
        if isinstance(o, Py):
            if o.kind == "mapelem":
                return o.key if e["f"] == "first" else o.val
            raise Unsupported("member of executor object")
        return self.sub(o, e["f"])

    def e_mat(self, st, e):
        x = self.ev(st, e["s"])
        if isinstance(x, Val) and not st.dead:
            lv = self.newcell(st, x.ty, x.leaves, "tmp")
            if x.meta:
                st.meta[(lv.cid,)] = x.meta
            return lv
        return x

    def e_bind(self, st, e):
        return self.ev(st, e["s"])

    def e_un(self, st, e):
        op = e["op"]
        if op == "&":
            x = self.ev(st, e["s"])
            if isinstance(x, Val) and x.ty.k == "fnptr":
                return x
            if isinstance(x, LV):
                if x.ty.k == "double":
                    return Val(e["t"], [self.address(st, x)])
                return Py("ptr", lv=x)
            raise Unsupported("address-of")
        if op == "*":
            v = self.rv(st, self.ev(st, e["s"]))
            if isinstance(v, Py):
                if v.kind == "ptr":
                    return v.lv
                if v.kind == "it":
                    return self.deref_it(st, v)
                raise Unsupported("deref")
            if v.ty.k == "ptr" and v.ty.to.k == "double":
                return LV("heap", (("i", v.z, 0),), DOUBLE)
            if v.ty.k == "fnptr":
                return v
            raise Unsupported("deref of " + v.ty.key)
        x = self.ev(st, e["s"])
        if st.dead:
            return Val(VOID, [])
        if op in ("++", "--"):
            cur = self.rv(st, x)
            if isinstance(cur, Py) and cur.kind == "it":
                return self.step_it(st, x, cur, 1 if op == "++" else -1, e.get("post"))
            one = z3.IntVal(1) if cur.z.sort() == I else z3.RealVal(1)
            nv = Val(cur.ty, [cur.z + one if op == "++" else cur.z - one])
            self.ovf(st, nv, e)
            self.write(st, x, nv)
            return cur if e.get("post") else x
        v = self.rv(st, x)
        if op == "-":
            r = Val(v.ty, [z3.simplify(-v.z) if z3.is_rational_value(v.z) or z3.is_int_value(v.z) else -v.z])
            if v.z.sort() == B:
                v = self.coerce(v, INT)
                r = Val(INT, [-v.z])
            self.ovf(st, r, e)
            return r
        if op == "+":
            return v
        if op == "!":
            return Val(BOOL, [Not(self.tobool(v))])
        raise Unsupported("unary " + op)

    def address(self, st, lv):
        if lv.cid == "heap":
            return lv.steps[0][1]
        if lv.steps and lv.steps[-1][0] == "i":
            b = z3.Int("addr:" + lv.cid) if len(lv.steps) == 1 else None
            if b is None:
                raise Unsupported("address of nested element")
            return ADDR(b, lv.steps[-1][1])
        raise Unsupported("address of local double")

    def ovf(self, st, v, e):
        pass

    def num(self, st, op, a, b, ty, e):
        x, y = a.z, b.z
        if ty.k == "double" or x.sort() == R or y.sort() == R:
            x, y = (z3.ToReal(x) if x.sort() == I else x), (z3.ToReal(y) if y.sort() == I else y)
            if x.sort() == B:
                x = If(x, z3.RealVal(1), z3.RealVal(0))
            if y.sort() == B:
                y = If(y, z3.RealVal(1), z3.RealVal(0))
        else:
            if x.sort() == B:
                x = If(x, z3.IntVal(1), z3.IntVal(0))
            if y.sort() == B:
                y = If(y, z3.IntVal(1), z3.IntVal(0))
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "/":
            if x.sort() == R:
                r = x / y
            else:
                self.oblige(st, "integer division by zero", y != 0, "arith", e.get("l", 0))
                r = trunc_div(x, y)
                self.divlog.append((x, y, r))
        elif op == "%":
            self.oblige(st, "integer modulo by zero", y != 0, "arith", e.get("l", 0))
            r = trunc_mod(x, y)
        else:
            raise Unsupported("operator " + op)
        if all(z3.is_rational_value(t) or z3.is_int_value(t) for t in (x, y)):
            r = z3.simplify(r)
        v = Val(ty, [r])
        self.ovf(st, v, e)
        return v

    def e_bin(self, st, e):
        op = e["op"]
        if op == "=":
            r = self.rv(st, self.ev(st, e["b"]))
            l = self.ev(st, e["a"])
            if st.dead:
                return Val(VOID, [])
            self.write(st, l, self.coerce(r, l.ty) if isinstance(r, Val) else r)
            return l
        if op in ("&&", "||"):
            a = self.cond(st, e["a"])
            if st.dead:
                return Val(BOOL, [z3.BoolVal(False)])
            # string literal conjunct of assert(x && "msg")
            if is_literal(e["b"]):
                return Val(BOOL, [a if op == "&&" else z3.BoolVal(True)])
            if op == "&&" and z3.is_false(a) or op == "||" and z3.is_true(a):
                return Val(BOOL, [a])
            base = st
            x, y = self.fork(st, a if op == "&&" else Not(a))
            n0 = dict(x.cells)
            b = self.cond(x, e["b"])
            if x.dead:
                # rhs never returns
                st.cells, st.pc, st.meta = y.cells, y.pc, y.meta
                return Val(BOOL, [z3.BoolVal(op == "||")])
            self.merge(st, a if op == "&&" else Not(a), x, y)
            return Val(BOOL, [And(a, b) if op == "&&" else Or(a, b)])
        if op == ",":
            self.ev(st, e["a"])
            return self.ev(st, e["b"])
        a = self.rv(st, self.ev(st, e["a"]))
        b = self.rv(st, self.ev(st, e["b"]))
        if st.dead:
            return Val(VOID, [])
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return Val(BOOL, [self.compare(st, op, a, b)])
        return self.num(st, op, a, b, e["t"], e)

    def compare(self, st, op, a, b):
        if isinstance(a, Py) or isinstance(b, Py):
            if isinstance(a, Py) and isinstance(b, Py) and a.kind == "it" and b.kind == "it":
                return self.cmp_it(st, op, a, b)
            if isinstance(a, Py) and a.kind == "ptr" and isinstance(b, Val):
                return z3.BoolVal(op == "!=")
            raise Unsupported("comparison of executor objects")
        x, y = a.z, b.z
        if x.sort() == B and y.sort() != B:
            x = If(x, z3.IntVal(1), z3.IntVal(0))
        if y.sort() == B and x.sort() != B:
            y = If(y, z3.IntVal(1), z3.IntVal(0))
        if x.sort() != y.sort():
            x, y = toreal(x), toreal(y)
        r = {"==": lambda: Eq(x, y), "!=": lambda: Not(Eq(x, y)), "<": lambda: x < y, "<=": lambda: x <= y,
             ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if (z3.is_int_value(x) or z3.is_rational_value(x)) and (z3.is_int_value(y) or z3.is_rational_value(y)):
            r = z3.simplify(r)
        return r

    def e_casg(self, st, e):
        l = self.ev(st, e["a"])
        r = self.rv(st, self.ev(st, e["b"]))
        if st.dead:
            return Val(VOID, [])
        cur = self.rv(st, l)
        v = self.num(st, e["op"][:-1], cur, r, e["ct"], e)
        self.write(st, l, self.coerce(v, l.ty))
        return l

    def e_cond(self, st, e):
        c = self.cond(st, e["c"])
        if st.dead:
            return Val(VOID, [])
        if z3.is_true(c):
            return self.ev(st, e["a"])
        if z3.is_false(c):
            return self.ev(st, e["b"])
        a, b = self.fork(st, c)
        x = self.ev(a, e["a"])
        y = self.ev(b, e["b"])
        if isinstance(x, LV) and isinstance(y, LV) and x.same(y):
            self.merge(st, c, a, b)
            return x
        xv = self.rv(a, x) if not a.dead else None
        yv = self.rv(b, y) if not b.dead else None
        self.merge(st, c, a, b)
        if a.dead and b.dead:
            return Val(VOID, [])
        if a.dead:
            return yv
        if b.dead:
            return xv
        if isinstance(xv, Val) and xv.ty.k == "void":
            return xv
        if isinstance(xv, Val) and e["t"].k != "void":
            xv, yv = self.coerce(xv, e["t"]), self.coerce(yv, e["t"])
        return self.merge_val(c, xv, yv)

    def e_cast(self, st, e):
        ck = e["ck"]
        if ck in ("ToVoid",):
            self.ev(st, e["s"])
            return Val(VOID, [])
        x = self.ev(st, e["s"])
        if st.dead:
            return Val(VOID, [])
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            return self.tobase(st, x, e["t"])
        if ck == "BaseToDerived":
            return self.toderived(st, x, e["t"])
        v = self.rv(st, x)
        if isinstance(v, Py):
            if ck in ("NoOp", "BitCast", "LValueToRValue"):
                return v
            if ck == "PointerToBoolean":
                return Val(BOOL, [z3.BoolVal(True)])
            raise Unsupported("cast of executor object " + ck)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean",
                  "PointerToBoolean", "BooleanToSignedIntegral"):
            if ck == "PointerToBoolean" and is_literal(e["s"]):
                return Val(BOOL, [z3.BoolVal(True)])
            if ck == "FloatingToBoolean":
                return Val(BOOL, [nonzero(v.z)])
            return self.coerce(v, e["t"])
        if ck in ("NullToPointer",):
            return Val(e["t"], [z3.IntVal(0)])
        if ck in ("ArrayToPointerDecay", "NoOp", "BitCast"):
            return v
        raise Unsupported("cast " + ck)

    def tobase(self, st, x, t):
        isptr = t.k == "ptr"
        if isptr:
            v = self.rv(st, x)
            if not (isinstance(v, Py) and v.kind == "ptr"):
                raise Unsupported("base cast of opaque pointer")
            lv, bt = v.lv, t.to
        else:
            lv, bt = x, t
        if isinstance(lv, Py) and lv.kind == "it":
            return lv
        if isinstance(lv, Val):
            off = self.lay.base(lv.ty, bt)
            return Val(bt, lv.leaves[off:off + len(self.lay.of(bt))])
        if lv.ty.key == bt.key:
            r = lv
        else:
            off = self.lay.base(lv.ty, bt)
            if off is None:
                v = self.rv(st, x)
                if isinstance(v, Py) and v.kind == "it":
                    return v
                raise Unsupported("base cast")
            r = LV(lv.cid, lv.steps + (("f", off, len(self.lay.of(bt)), lv.ty),), bt)
        return Py("ptr", lv=r) if isptr else r

    def toderived(self, st, x, t):
        isptr = t.k == "ptr"
        v = self.rv(st, x) if isptr else x
        lv = v.lv if isptr else v
        dt = t.to if isptr else t
        while lv.ty.key != dt.key:
            if not lv.steps or lv.steps[-1][0] != "f" or len(lv.steps[-1]) < 4:
                raise Unsupported("downcast")
            lv = LV(lv.cid, lv.steps[:-1], lv.steps[-1][3])
        return Py("ptr", lv=lv) if isptr else lv

    def dyntype(self, lv):
        """most derived type of the object an lvalue is a base part of"""
        while lv.steps and lv.steps[-1][0] == "f" and len(lv.steps[-1]) == 4:
            pt = lv.steps[-1][3]
            if self.lay.base(pt, lv.ty) is None:
                break
            lv = LV(lv.cid, lv.steps[:-1], pt)
        return lv

    def e_throw(self, st, e):
        t = "rethrow"
        if e["s"] is not None:
            self.ev(st, e["s"])
            t = e["s"]["t"].n
        if st.dead:
            return Val(VOID, [])
        self.exits.append(Outcome("throw", st.copy(), exc=t, line=e["l"]))
        st.dead = True
        return Val(VOID, [])

    def e_lambda(self, st, e):
        return Py("lambda", fn=e["fn"], env=dict(st.env), frame=self.frame, caps=e["caps"])

    def e_ilist(self, st, e):
        t = e["t"]
        if t.isrec("std::pair"):
            a, b = [self.rv(st, self.ev(st, x)) for x in e["args"]]
            return Val(t, self.coerce(a, t.args[0]).leaves + self.coerce(b, t.args[1]).leaves)
        if t.k == "arr" or t.isrec("std::initializer_list"):
            return Py("ilist", vals=[self.rv(st, self.ev(st, x)) for x in e["args"]])
        if t.key in self.prog.recs:
            rec = self.prog.recs[t.key]
            leaves = []
            for f, x in zip(rec["fields"], e["args"]):
                leaves += self.coerce(self.rv(st, self.ev(st, x)), f["t"]).leaves
            return Val(t, leaves)
        if len(e["args"]) == 1:
            return self.ev(st, e["args"][0])
        if not e["args"]:
            return self.default_value(st, t)
        raise Unsupported("initialiser list of " + t.key)

    def e_idx(self, st, e):
        raise Unsupported("array subscript")

    # ------------------------------------------------------------ calls
    def call_user(self, st, f, this, args, line):
        sig = f["sig"]
        fn = self.prog.funcs.get(sig)
        if fn is None or not (fn.get("body") or fn.get("defaulted") or "inits" in fn):
            # virtual or declared-only
            raise Unsupported("no body for " + sig)
        return self.call_user_sig(st, sig, this, args, line)

    def resolve_virtual(self, sig, this):
        if this is None or not isinstance(this, LV):
            return sig, this
        d = self.dyntype(this)
        f = self.prog.funcs.get(sig)
        if d.ty.key == this.ty.key:
            return sig, this
        for s2, g in self.prog.funcs.items():
            if g.get("cls") is not None and g["cls"].key == d.ty.key and sig in g.get("over", []):
                return s2, d
        return sig, this

    def call_user_sig(self, st, sig, this, args, line):
        fn = self.prog.funcs[sig]
        con = self.find_contract(sig, this)
        if con is not None:
            return self.apply_contract(st, con, fn, this, args, line)
        return self.inline(st, fn, this, args, line)

    def find_contract(self, sig, this):
        if sig in self.force_inline:
            return None
        cs = self.contracts.get(sig)
        if not cs:
            return None
        for c in cs:
            if c.this is None:
                return c
            if isinstance(this, LV) and self.dyntype(this).ty.n == c.this:
                return c
        return None

    def inline(self, st, fn, this, args, line):
        if self.depth > 12:
            raise Unsupported("inlining depth")
        self.inlined.add(fn["sig"])
        self.depth += 1
        try:
            sub = st.copy()
            outs = self.exec_function(fn, sub, this, args)
        finally:
            self.depth -= 1
        return self.finish_call(st, outs, fn["ret"])

    def finish_call(self, st, outs, rett):
        rets = []
        for o in outs:
            if o.kind == "ret":
                rets.append(o)
            else:
                self.exits.append(o)
        if not rets:
            st.dead = True
            return Val(VOID, [])
        if len(rets) == 1:
            o = rets[0]
            s = o.st
            st.cells, st.pc, st.meta, st.dead = s.cells, s.pc, s.meta, False
            return o.val if o.val is not None else Val(VOID, [])
        # merge several returns
        acc, val = rets[0].st, rets[0].val
        for o in rets[1:]:
            n = 0
            while n < len(acc.pc) and n < len(o.st.pc) and acc.pc[n].eq(o.st.pc[n]):
                n += 1
            # o and acc split on complementary conditions when acc.pc[n] == not o.pc[n]
            c = None
            if n < len(acc.pc) and n < len(o.st.pc) and acc.pc[n].eq(Not(o.st.pc[n])):
                c = acc.pc[n]
            if c is None:
                c = fresh("ret", B)
            x, y = val, o.val
            if isinstance(x, LV) and isinstance(y, LV) and x.same(y):
                v = x
            else:
                x = self.rv(acc, x) if x is not None else None
                y = self.rv(o.st, y) if y is not None else None
                v = None if x is None or y is None else self.merge_val(c, x, y)
            b = State()
            b.ctys = st.ctys
            b.pc = acc.pc[:n]
            a2, o2 = acc.copy(), o.st.copy()
            a2.env, o2.env = {}, {}
            self.merge(b, c, a2, o2)
            b.ctys = st.ctys
            acc, val = b, v
        st.cells, st.pc, st.meta, st.dead = acc.cells, acc.pc, acc.meta, False
        return val if val is not None else Val(VOID, [])

    def e_call(self, st, e):
        if "f" not in e:
            return self.call_ptr(st, e)
        f = e["f"]
        if f.get("r"):
            if f["q"].startswith("mythical::Log") or f["q"] == "mythical::output":
                return Val(VOID, [])
            args = [self.evarg(st, a, p) for a, p in zip(e["args"], f["ps"])]
            if st.dead:
                return Val(VOID, [])
            return self.call_user(st, f, None, args, e["l"])
        return self.lib_call(st, e, f)

    def call_ptr(self, st, e):
        c = self.ev(st, e["ce"])
        v = self.rv(st, c)
        if isinstance(v, Py) and v.kind == "lambda":
            return self.call_lambda(st, v, [self.ev(st, a) for a in e["args"]])
        if not isinstance(v, Val):
            raise Unsupported("call through pointer")
        args = [self.ev(st, a) for a in e["args"]]
        return self.dispatch(st, z3.simplify(v.z), args, e["l"])

    def dispatch(self, st, code, args, line):
        if z3.is_int_value(code):
            sig = self.fn_of_code(code.as_long())
            if sig is None:
                raise Unsupported("call to unknown code pointer")
            fn = self.prog.funcs[sig]
            return self.call_user_sig(st, sig, None, args, line)
        # find the feasible targets
        cands = []
        for sig in self.addr_taken():
            k = self.fncode(sig)
            if len(self.prog.funcs[sig]["params"]) != len(args):
                continue
            if not self.infeasible(st, code == k):
                cands.append((sig, k))
        if not cands:
            raise Unsupported("no target for indirect call")
        if len(cands) == 1:
            self.oblige(st, "indirect call target is known", code == cands[0][1], "call", line)
            return self.call_user_sig(st, cands[0][0], None, args, line)
        raise Unsupported("several targets for an indirect call: %s" % [c[0] for c in cands])

    def ctor_code(self, view):
        """every code pointer of the object has the value the default constructor of its class gives it"""
        ty = view.ty
        if not hasattr(self.prog, "_ctorcode"):
            self.prog._ctorcode = {}
        memo = self.prog._ctorcode
        if ty.key not in memo:
            memo[ty.key] = None
            q = ty.n + "::" + ty.n.split("::")[-1]
            sig = q + "()"
            fn = self.prog.funcs.get(sig)
            if fn is None:
                raise Unsupported("no default constructor of " + ty.n)
            e = Engine(self.prog, {})
            e.fn = sig
            e.prop = None
            import contract
            st, this, args = e.initial(fn, contract.Contract(sig))
            outs = [o for o in e.exec_function(fn, st, this, args) if o.kind == "ret"]
            vals = []
            for i, kd in enumerate(self.leafkinds(ty)):
                if kd == "fnptr":
                    vs = set()
                    for o in outs:
                        z = z3.simplify(o.st.cells["this"][i])
                        vs.add(z.as_long() if z3.is_int_value(z) else None)
                    if len(vs) == 1 and None not in vs:
                        vals.append((i, vs.pop()))
            memo[ty.key] = vals
        return And([view.leaves[i] == v for i, v in memo[ty.key]])

    def leafkinds(self, ty):
        """kind of every leaf of a record that is a scalar field"""
        out = []
        r = self.prog.recs[ty.key]
        for b in r["bases"]:
            out += self.leafkinds(b["t"])
        for f in r["fields"]:
            n = len(self.lay.of(f["t"]))
            if n == 1:
                out.append(f["t"].k)
            elif f["t"].key in self.prog.recs:
                out += self.leafkinds(f["t"])
            else:
                out += ["?"] * n
        return out

    def addr_taken(self):
        if not hasattr(self, "_taken"):
            out = set()

            def walk(x):
                if isinstance(x, dict):
                    if x.get("e") == "fref" and x["f"].get("r"):
                        out.add(x["f"]["sig"])
                    for k, v in x.items():
                        walk(v)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            for f in self.prog.funcs.values():
                walk(f.get("body"))
                walk(f.get("inits"))
            self._taken = sorted(s for s in out if s in self.prog.funcs)
        return self._taken

    def call_lambda(self, st, lamb, args):
        fn = lamb.fn
        saved_env, saved_frame, saved_exits = st.env, self.frame, self.exits
        sub = st.copy()
        sub.env = dict(lamb.env)
        for c in lamb.caps:
            if "v" in c and not c.get("byref") and c["v"] in lamb.env:
                pass
        self.exits = []
        self.frame = dict(lamb.frame)
        self.frame["ret"] = fn["ret"]
        for p, a in zip(fn["params"], args):
            self.bind(sub, p["v"], p["t"], a, p["n"])
        self.stmt(sub, fn["body"])
        outs = self.exits
        if not sub.dead:
            outs.append(Outcome("ret", sub, None))
        self.exits, self.frame = saved_exits, saved_frame
        r = self.finish_call(st, outs, fn["ret"])
        st.env = saved_env
        return r

    def call_functor(self, st, fo, args):
        """call a lambda, function pointer or functor object (LV/Val of a repo record)"""
        v = self.rv(st, fo)
        if isinstance(v, Py) and v.kind == "lambda":
            return self.call_lambda(st, v, args)
        if isinstance(v, Val) and v.ty.k == "fnptr":
            return self.dispatch(st, z3.simplify(v.z), args, 0)
        if isinstance(v, Val) and v.ty.key in self.prog.recs:
            for sig in self.prog.byname.get(v.ty.n + "::operator()", []):
                lv = fo if isinstance(fo, LV) else self.newcell(st, v.ty, v.leaves, "fo")
                fn = self.prog.funcs[sig]
                args2 = []
                for p, a in zip(fn["params"], args):
                    av = self.rv(st, a)
                    args2.append(self.coerce(av, p["t"].noref()))
                return self.call_user_sig(st, sig, lv, args2, 0)
        raise Unsupported("functor call")

    def e_memfn(self, st, e):
        raise Unsupported("member function reference")

    def e_mcall(self, st, e):
        f = e["f"]
        o = self.ev(st, e["o"])
        if st.dead:
            return Val(VOID, [])
        if f.get("r"):
            arrow = e["o"]["t"].k == "ptr"
            if arrow:
                o = self.obj(st, o, True)
            if isinstance(o, Val):
                o = self.newcell(st, o.ty, o.leaves, "tmp")
            args = [self.evarg(st, a, p) for a, p in zip(e["args"], f["ps"])]
            if st.dead:
                return Val(VOID, [])
            sig = f["sig"]
            fn = self.prog.funcs.get(sig)
            this = o
            if f.get("virt") and not e.get("qual"):
                sig, this = self.resolve_virtual(sig, o)
                fn = self.prog.funcs.get(sig)
            if fn is None:
                raise Unsupported("no body for " + sig)
            # adjust this to the class of the method
            if this.ty.key != fn["cls"].key:
                off = self.lay.base(this.ty, fn["cls"])
                if off is not None:
                    this = LV(this.cid, this.steps + (("f", off, len(self.lay.of(fn["cls"])), this.ty),), fn["cls"])
            return self.call_user_sig(st, sig, this, args, e["l"])
        if e["o"]["t"].k == "ptr":
            o = self.obj(st, o, True)
        return self.lib_method(st, o, f, e)

    def e_opcall(self, st, e):
        f = e.get("f")
        op = e["op"]
        if f is None:
            raise Unsupported("operator call without callee")
        if f.get("r") and not f.get("implicit"):
            if f["q"] == "mythical::operator<<":
                for a in e["args"]:
                    pass
                return Val(VOID, [])
            if e.get("method"):
                o = self.ev(st, e["args"][0])
                args = [self.evarg(st, a, p) for a, p in zip(e["args"][1:], f["ps"])]
                if isinstance(o, Py):
                    return self.call_lambda(st, o, args)
                if isinstance(o, Val):
                    o = self.newcell(st, o.ty, o.leaves, "tmp")
                if f["sig"] not in self.prog.funcs:
                    v = self.rv(st, o)
                    if isinstance(v, Py):
                        return self.call_lambda(st, v, args)
                    raise Unsupported("operator " + f["sig"])
                return self.call_user_sig(st, f["sig"], o, args, e["l"])
            args = [self.evarg(st, a, p) for a, p in zip(e["args"], f["ps"])]
            return self.call_user(st, f, None, args, e["l"])
        return self.lib_op(st, e, f, op)

    def e_ctor(self, st, e):
        f = e["f"]
        t = e["t"].noref()
        if e.get("copy") or e.get("move"):
            v = self.rv(st, self.ev(st, e["args"][0]))
            if isinstance(v, Val) and v.ty.key != t.key and t.key in self.prog.recs:
                off = self.lay.base(v.ty, t)
                if off is not None:
                    return Val(t, v.leaves[off:off + len(self.lay.of(t))])
            return v
        if f.get("r") or t.key in self.prog.recs:
            if t.n and t.n.startswith("lambda@"):
                return self.rv(st, self.ev(st, e["args"][0]))
            if f.get("implicit"):
                return self.default_value(st, t)
            lv = self.newcell(st, t, self.freshval(t, "obj").leaves, "obj")
            self.construct(st, lv, e)
            return self.read(st, lv) if not st.dead else Val(VOID, [])
        return self.lib_ctor(st, e, f, t)

    def e_new(self, st, e):
        raise Unsupported("new")

    def e_delete(self, st, e):
        raise Unsupported("delete")


import lib      # noqa: E402  (installs library models as Engine methods)
import loops    # noqa: E402
import contract  # noqa: E402
lib.install(Engine)
loops.install(Engine)
contract.install(Engine)
