"""Discharging of obligations: goal splitting, lemma instantiation for sums / cardinalities /
maxima / enumerations, then an SMT solver (z3; cvc5 as a second opinion on request)."""
import itertools
import time
import z3
from terms import *

# ENUM(ids, n, D): ids[0..n) lists every element of the finite set D exactly once
ENUM = z3.Function("enum", arr(I), I, SET, B)
ENPOS = z3.Function("enpos", arr(I), I, SET, I, I)

STATS = {"queries": 0, "time": 0.0, "lemmas": 0}


class Inst(object):
    """a universally quantified hypothesis to be instantiated at goal skolems by hand"""


# registry: z3 ast id of ForAll hypotheses that want manual instantiation
MANUAL = {}


def forall(vs, body, pats=None, manual=False):
    vs = list(vs)
    if not any(occurs(body, v) for v in vs):
        return body
    q = z3.ForAll(vs, body, patterns=pats or [])
    if manual:
        MANUAL[q.get_id()] = q
    return q


def exists(vs, body, pats=None):
    vs = [v for v in vs if occurs(body, v)]
    return z3.Exists(vs, body, patterns=pats or []) if vs else body


def is_forall(e):
    return z3.is_quantifier(e) and e.is_forall()


def is_exists(e):
    return z3.is_quantifier(e) and e.is_exists()


def inst(q, args):
    return rebeta(z3.substitute_vars(q.body(), *reversed(args)))


def skolemize(q, tag="sk"):
    cs = [fresh(tag + "_" + q.var_name(i).split("!")[0], q.var_sort(i)) for i in range(q.num_vars())]
    return inst(q, cs), cs


def split_goal(goal, hyps, sk):
    """-> list of (extra hyps, goal, skolems)"""
    g = rebeta(goal)
    if z3.is_true(g):
        return []
    if is_forall(g):
        b, cs = skolemize(g)
        return split_goal(b, hyps, sk + cs)
    if z3.is_app(g):
        k = g.decl().kind()
        if k == z3.Z3_OP_AND:
            return [x for c in g.children() for x in split_goal(c, hyps, sk)]
        if k == z3.Z3_OP_IMPLIES:
            return split_goal(g.arg(1), hyps + [g.arg(0)], sk)
        if k == z3.Z3_OP_EQ and g.arg(0).sort().kind() == z3.Z3_ARRAY_SORT:
            x = fresh("sk_x", I)
            return split_goal(Eq(sel(g.arg(0), x), sel(g.arg(1), x)), hyps, sk + [x])
        if k == z3.Z3_OP_EQ and g.arg(0).sort() == B and (_quant(g.arg(0)) or _quant(g.arg(1))):
            return split_goal(z3.Implies(g.arg(0), g.arg(1)), hyps, sk) + split_goal(z3.Implies(g.arg(1), g.arg(0)), hyps, sk)
        if k == z3.Z3_OP_NOT:
            n = g.arg(0)
            if is_exists(n):
                b, cs = skolemize(n)
                return split_goal(Not(b), hyps, sk + cs)
            if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_OR:
                return [x for c in n.children() for x in split_goal(Not(c), hyps, sk)]
        if k == z3.Z3_OP_ITE and g.sort() == B:
            c, a, b = g.children()
            return split_goal(a, hyps + [c], sk) + split_goal(b, hyps + [Not(c)], sk)
        if g.decl().name() == "enum":
            return [(hyps, g, sk)]
    return [(hyps, g, sk)]


def _quant(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) and not x.is_lambda():
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False


def flat_hyps(hs):
    out, sks = [], []
    st = list(reversed(list(hs)))
    while st:
        h = rebeta(tb(st.pop()))
        if z3.is_true(h):
            continue
        if is_exists(h):
            b, cs = skolemize(h, "hx")
            sks += cs
            st.append(b)
            continue
        if z3.is_app(h):
            k = h.decl().kind()
            if k == z3.Z3_OP_AND:
                st.extend(reversed(h.children()))
                continue
            if k == z3.Z3_OP_NOT:
                n = h.arg(0)
                if is_forall(n):
                    st.append(z3.Exists([z3.Const(n.var_name(i) + "!n", n.var_sort(i)) for i in range(n.num_vars())],
                                        Not(inst(n, [z3.Const(n.var_name(i) + "!n", n.var_sort(i)) for i in range(n.num_vars())]))))
                    continue
                if is_exists(n):
                    vs = [z3.Const(n.var_name(i), n.var_sort(i)) for i in range(n.num_vars())]
                    pats = patterns_of(n, vs)
                    out.append(forall(vs, Not(inst(n, vs)), pats, manual=True))
                    continue
                if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_OR:
                    st.extend(Not(c) for c in n.children())
                    continue
                if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_IMPLIES:
                    st.append(n.arg(0))
                    st.append(Not(n.arg(1)))
                    continue
            if k == z3.Z3_OP_EQ and h.arg(0).sort().kind() == z3.Z3_ARRAY_SORT and (is_lambda(h.arg(0)) or is_lambda(h.arg(1))):
                x = z3.Int("ext!x")
                a, b = h.arg(0), h.arg(1)
                pat = None
                body = Eq(sel(a, x), sel(b, x))
                for c in (a, b):
                    if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        pat = [z3.Select(c, x)]
                out.append(forall([x], body, pat))
                continue
        out.append(h)
    return out, sks


_ix = {}
_WANT = SUMS | {"enum", "enpos", "sqrt", "exp", "log", "draw", "idraw", "ediv", "emod"}


def index(f):
    """ground subterms of f by function name (and quotients under their kind), computed once per formula"""
    k = f.get_id()
    if k in _ix:
        return _ix[k][1]
    if len(_ix) > 60000:
        _ix.clear()
    found, seen, st = {}, set(), [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            cs = x.children()
            if cs:
                d = x.decl()
                kd = d.kind()
                if kd == z3.Z3_OP_UNINTERPRETED:
                    n = d.name()
                    if n in _WANT and not has_var(x):
                        found.setdefault(n, {})[i] = x
                elif kd == z3.Z3_OP_DIV and not has_var(x):
                    found.setdefault(kd, {})[i] = x
                st.extend(cs)
    _ix[k] = (f, found)
    return found


def collect(fs, names, ground=True):
    found = {}
    for f in fs:
        ix = index(f)
        for n in names:
            if n in ix:
                found.update(ix[n])
    return list(found.values())


class SumV:
    def __init__(self, t):
        self.t = t
        self.k = t.decl().name()
        a = t.children()
        if self.k == "card":
            self.F, self.D, self.n = None, a[0], None
        elif self.k in ("psum", "ipsum"):
            self.F, self.D, self.n = a[0], None, a[1]
        else:
            self.F, self.D, self.n = a[0], a[1], None
        self.init = a[2] if self.k in ("smax", "ismax") else None
        self.real = t.sort() == R

    def mem(self, w):
        if self.D is not None:
            return sel(self.D, w)
        return z3.And(w >= 0, w < self.n)

    def f(self, w):
        if self.F is None:
            return z3.IntVal(1)
        return sel(self.F, w)


MATH = {"sqrt", "exp", "log", "draw", "idraw", "ediv", "emod"}


def math_facts(t):
    n = t.decl().name()
    a = t.children()
    if n == "sqrt":
        r = [z3.Implies(a[0] >= 0, z3.And(t >= 0, t * t == a[0]))]
        sq = squares(a[0])
        if sq:
            for x in sq:
                x = toreal(x)
                r += [t >= x, t >= -x]
        return r
    if n == "exp":
        return [t > 0, z3.Implies(a[0] == 0, t == 1)]
    if n == "log":
        return [z3.Implies(z3.And(a[0] > 0, a[0] < 1), t < 0), z3.Implies(a[0] == 1, t == 0), z3.Implies(a[0] > 1, t > 0)]
    if n == "draw":
        return [t >= 0, t < 1]
    if n in ("ediv", "emod"):
        return [z3.Implies(a[1] > 0, z3.And(a[0] == a[1] * EDIV(*a) + EMOD(*a), EMOD(*a) >= 0, EMOD(*a) < a[1]))]
    if n == "idraw":
        return [z3.Implies(a[1] <= a[2], z3.And(a[1] <= t, t <= a[2]))]
    return []


def squares(e):
    """[x, y, ...] when e is literally x*x + y*y + ..."""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
        return squares(e.arg(0))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD:
        out = []
        for c in e.children():
            s = squares(c)
            if s is None:
                return None
            out += s
        return out
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        return [e.arg(0)]
    return None


def div_facts(forms):
    """quotients by a positive divisor and square roots: t*b <= a iff t <= a/b"""
    out = []
    qs = [q for q in collect_kind(forms, z3.Z3_OP_DIV) if not z3.is_rational_value(q.arg(1))][:6]
    if not qs:
        return out
    ts = collect(forms, {"sqrt"})[:8]
    for q in qs:
        a, b = q.children()
        for t in ts:
            out.append(z3.Implies(b > 0, (t * b <= a) == (t <= q)))
    return out


def collect_kind(fs, kind):
    return collect(fs, (kind,))


def nested_div(forms):
    """(a div d1) div d2 is a div (d1*d2)"""
    out = []
    ds = {}
    for t in collect(forms, {"ediv", "emod"}):
        ds.setdefault(t.arg(0).get_id(), {})[t.arg(1).get_id()] = t.children()
    for t in collect(forms, {"ediv", "emod"}):
        q1 = t.arg(0)
        if z3.is_app(q1) and q1.decl().name() == "ediv":
            a, d1 = q1.children()
            d2 = t.arg(1)
            for a2, D in ds.get(a.get_id(), {}).values():
                out.append(z3.Implies(z3.And(d1 > 0, d2 > 0, D == d1 * d2),
                                      z3.And(EDIV(a, D) == EDIV(q1, d2), EMOD(a, D) == d1 * EMOD(q1, d2) + EMOD(a, d1))))
    return out


def math_axioms():
    x = z3.Real("ma!x")
    s, a, b = z3.Ints("ma!s ma!a ma!b")
    return [z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]),
            z3.ForAll([s], z3.And(DRAW(s) >= 0, DRAW(s) < 1), patterns=[DRAW(s)]),
            z3.ForAll([x], z3.Implies(z3.And(x > 0, x < 1), LOG(x) < 0), patterns=[LOG(x)])]


def enum_meaning(ids, n, D):
    """hypothesis form"""
    i, x = z3.Ints("en!i en!x")
    pos = ENPOS(ids, n, D, x)
    posi = ENPOS(ids, n, D, z3.Select(ids, i) if not is_lambda(ids) else sel(ids, i))
    idi = sel(ids, i)
    out = [n >= 0, n == CARD(D)]
    p1 = [z3.Select(ids, i)] if not is_lambda(ids) and not z3.is_store(ids) else None
    out.append(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(sel(D, idi), posi == i)), p1))
    dx = sel(D, x)
    body = z3.Implies(dx, z3.And(0 <= pos, pos < n, sel(ids, pos) == x))
    p2 = [dx] if z3.is_app(dx) and dx.decl().kind() == z3.Z3_OP_SELECT and not is_lambda(dx.arg(0)) else None
    out.append(forall([x], body, p2, manual=True))
    return out


def enum_goals(ids, n, D):
    i, j, x = z3.Ints("eg!i eg!j eg!x")
    return [n >= 0,
            forall([i], z3.Implies(z3.And(0 <= i, i < n), sel(D, sel(ids, i)))),
            forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sel(ids, i) != sel(ids, j))),
            forall([x], z3.Implies(sel(D, x), exists([i], z3.And(0 <= i, i < n, sel(ids, i) == x))))]


def lemmas(forms, members, rounds=2, cap=400):
    """ground lemma instances for the sums occurring in forms"""
    out = []
    done_pairs = set()
    done = {}
    wits = []
    cur = list(forms)
    enums = []
    for rnd in range(rounds + 1):
        for t in collect(cur, {"enum"}):
            if t.get_id() not in done:
                done[t.get_id()] = t
                enums.append(t)
        ss = collect(cur, SUMS)
        new = [SumV(t) for t in ss if t.get_id() not in done]
        if not new or len(out) > cap:
            break
        new.sort(key=lambda s: s.k != "card")
        members = list(members)
        L = []
        for s in new:
            done[s.t.get_id()] = s
            if s.k in ("smax", "ismax"):
                w = fresh("wm", I)
                wits.append(w)
                s.w = w
                L.append(s.t >= s.init)
                L.append(z3.Or(s.t == s.init, z3.And(s.mem(w), s.t == s.f(w))))
                continue
            if s.F is not None and is_lambda(s.F) and rnd <= 1:
                # linear normal form of the summand
                jx = fresh("nf", I)
                nf = mk_sum(jx, s.f(jx), D=s.D, n=s.n)
                fj = s.f(jx)
                if s.D is not None and z3.is_app(fj) and fj.decl().kind() == z3.Z3_OP_ITE and s.k in ("isum", "ssum"):
                    # a sum of zeros and ones counts
                    c, va, vb = fj.children()
                    num = lambda q: q.as_fraction() if z3.is_rational_value(q) else q.as_long() if z3.is_int_value(q) else None
                    g = c if (num(va), num(vb)) == (1, 0) else Not(c) if (num(va), num(vb)) == (0, 1) else None
                    if g is not None:
                        cnt = CARD(lam(jx, And(sel(s.D, jx), g)))
                        L.append(s.t == (toreal(cnt) if s.real else cnt))
                if not nf.eq(s.t) and not (z3.is_app(nf) and nf.decl().eq(s.t.decl())):
                    L.append(s.t == nf)
            w = fresh("wz", I)
            s.w = w
            if s.k == "card":
                L.append(s.t >= 0)
                L.append(z3.Or(s.t == 0, s.mem(w)))
                if rnd == 0 and len(wits) < 4:
                    wits.append(w)
                    members.insert(0, w)
                for m in members:
                    L.append(z3.Implies(s.mem(m), s.t >= 1))
                for m1, m2 in itertools.combinations(members[:6], 2):
                    L.append(z3.Implies(z3.And(s.mem(m1), s.mem(m2), m1 != m2), s.t >= 2))
                # a one-element set has no second element
                w2 = fresh("wc", I)
                L.append(z3.Implies(s.t >= 2, z3.And(s.mem(w2), w2 != w)))
            else:
                zero = default(s.t.sort())
                L.append(z3.Or(s.t == zero, z3.And(s.mem(w), s.f(w) != zero)))
                w2 = fresh("wn", I)
                neg = z3.And(s.mem(w2), s.f(w2) < 0)
                L.append(z3.Or(s.t >= zero, neg))
                # strictly positive when non-empty and every member is positive
                w3 = fresh("wp", I)
                L.append(z3.Or(s.t > zero, s.t == zero, neg))
                for m in members[:6] + [w]:
                    L.append(z3.Or(Not(s.mem(m)), s.t >= s.f(m), neg))
            D = s.D
            if D is not None and z3.is_store(D) and z3.is_true(D.arg(2)):
                e = D.arg(1)
                D0 = D.arg(0)
                if s.k == "card":
                    L.append(s.t == CARD(D0) + z3.If(sel(D0, e), 0, 1))
                else:
                    L.append(s.t == s.t.decl()(s.F, D0) + z3.If(sel(D0, e), default(s.t.sort()), s.f(e)))
            if D is not None and z3.is_store(D) and z3.is_false(D.arg(2)):
                e = D.arg(1)
                D0 = D.arg(0)
                if s.k == "card":
                    L.append(s.t == CARD(D0) - z3.If(sel(D0, e), 1, 0))
                else:
                    L.append(s.t == s.t.decl()(s.F, D0) - z3.If(sel(D0, e), s.f(e), default(s.t.sort())))
            if s.n is not None:
                L.append(z3.Implies(s.n <= 0, s.t == default(s.t.sort())))
                m = z3.simplify(s.n - 1)
                if (z3.is_const(m) and not z3.is_int_value(m)) or (rnd == 0 and z3.is_const(s.n) and not z3.is_int_value(s.n)):
                    L.append(z3.Implies(s.n > 0, s.t == s.t.decl()(s.F, m) + s.f(m)))
        # maxima: bound at every candidate member and witness
        for s in [v for v in done.values() if isinstance(v, SumV) and v.k in ("smax", "ismax")]:
            for m in members + wits:
                key = ("mx", s.t.get_id(), m.get_id())
                if key in done_pairs:
                    continue
                done_pairs.add(key)
                L.append(z3.Implies(s.mem(m), s.t >= s.f(m)))
        # congruence between sums of the same kind
        if rnd <= 1:
            allv = [v for v in done.values() if isinstance(v, SumV)]
            for a, b in itertools.combinations(allv, 2):
                if a.k != b.k or a.k in ("smax", "ismax"):
                    continue
                if a not in new and b not in new:
                    continue
                key = (a.t.get_id(), b.t.get_id())
                if key in done_pairs:
                    continue
                done_pairs.add(key)
                w = fresh("wq", I)
                alts = [a.t == b.t]
                same = (a.D is not None and b.D is not None and a.D.eq(b.D)) or (a.n is not None and b.n is not None and a.n.eq(b.n))
                if not same:
                    alts += [z3.And(a.mem(w), Not(b.mem(w))), z3.And(b.mem(w), Not(a.mem(w)))]
                if a.F is not None and not a.F.eq(b.F):
                    alts.append(z3.And(a.mem(w), a.f(w) != b.f(w)))
                L.append(z3.Or(*alts))
            # enumeration: sum over positions = sum over the set
            for en in enums:
                ids, n, D = en.children()
                for a in allv:
                    if a.k not in ("psum", "ipsum"):
                        continue
                    for b in allv:
                        if (a.k, b.k) not in (("psum", "ssum"), ("ipsum", "isum")):
                            continue
                        key = ("en", en.get_id(), a.t.get_id(), b.t.get_id())
                        if key in done_pairs:
                            continue
                        done_pairs.add(key)
                        w, w2 = fresh("we", I), fresh("we", I)
                        L.append(z3.Implies(z3.And(en, a.n == n),
                                            z3.Or(a.t == b.t,
                                                  z3.And(0 <= w, w < n, sel(D, sel(ids, w)), a.f(w) != b.f(sel(ids, w))),
                                                  sel(D, w2) != b.mem(w2))))
        L = [rebeta(x) for x in L]
        out += L
        cur = L
    STATS["lemmas"] += len(out)
    return out, enums, wits


_nl = ({}, {})


def name_lambdas(fs):
    """replace closed lambda arguments of the sum functions by named arrays (one name per lambda)"""
    names, memo = _nl
    if len(memo) > 400000:
        names.clear()
        memo.clear()

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(e):
            if e.is_lambda():
                r = e
            else:
                vs = [fresh("b", e.var_sort(i)) for i in range(e.num_vars())]
                b = z3.substitute_vars(e.body(), *reversed(vs))
                nb = go(b)
                if nb.eq(b):
                    r = e
                else:
                    np = patterns_of(e, vs, go)
                    r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, nb, patterns=np)
        elif z3.is_app(e) and e.num_args():
            args = []
            isum = e.decl().name() in SUMS or e.decl().name() in ("enum", "enpos")
            for a in e.children():
                if isum and a.sort().kind() == z3.Z3_ARRAY_SORT and not z3.is_const(a):
                    aa = a
                    if not any(v.decl().name().startswith("b!") for v in consts(aa).values()):
                        if aa.get_id() not in names:
                            names[aa.get_id()] = (fresh("F", aa.sort()), aa)
                        args.append(names[aa.get_id()][0])
                        continue
                args.append(go(a))
            r = e if all(x.eq(y) for x, y in zip(args, e.children())) else e.decl()(*args)
        else:
            r = e
        memo[k] = (e, r)
        return r

    return [go(f) for f in fs]


def prepare(hyps, goal, sk, use_lemmas=True, level=1):
    hs, hsk = flat_hyps(list(hyps))
    ng = Not(goal)
    ngs, gsk = flat_hyps([ng])
    members = [c for c in sk + gsk + hsk if c.sort() == I]
    # instantiate manual foralls at int skolems
    extra = []
    gi = {}
    for f in [goal]:
        for c in consts(f).values():
            if c.sort() == I and not z3.is_int_value(c):
                gi[c.get_id()] = c
    cand = members + [c for c in gi.values() if not any(c.eq(m) for m in members)]
    cand = cand[:8]
    if level == 0:
        cand = members[:8]
    for t in collect([goal], {"psum", "ipsum"})[:3]:
        n = t.arg(1)
        if z3.is_const(n) and not z3.is_int_value(n):
            cand.append(n - 1)
    allh = hs + ngs
    # expand enum hypotheses
    ens = collect(allh, {"enum"})
    for en in ens:
        for m in enum_meaning(*en.children()):
            extra.append(z3.Implies(en, m) if not is_forall(m) else _guard(en, m))
    def man(hlist):
        res = []
        for h in hlist:
            if is_forall(h) and h.get_id() in MANUAL:
                n = h.num_vars()
                if all(h.var_sort(i) == I for i in range(n)) and len(cand) ** n <= 600:
                    for tup in (itertools.combinations(cand, n) if level == 0 and n > 2 else itertools.product(cand, repeat=n)):
                        res.append(inst(h, list(tup)))
        return res
    extra += man(allh + extra)
    allh = allh + extra
    L = []
    if use_lemmas:
        L, _, wits = lemmas(allh, cand)
        if wits and len(wits) <= 4:
            cand = wits
            L = L + man(allh)
    forms = allh + L
    mf = []
    for t in collect(forms, MATH):
        mf += math_facts(t)
    mf += nested_div(forms) + div_facts(forms)
    forms = forms + [rebeta(x) for x in mf]
    # quotients by the same divisor: distinct integers differ by at least one divisor
    dv = {}
    for t in collect(forms, {"ediv", "emod"}):
        q = EDIV(*t.children())
        dv.setdefault(t.arg(1).get_id(), {})[q.get_id()] = q
    for qs in dv.values():
        qs = list(qs.values())[:8]
        for q1, q2 in itertools.combinations(qs, 2):
            d = q1.arg(1)
            forms.append(z3.Implies(d > 0, z3.And(z3.Implies(q1 >= q2 + 1, d * q1 >= d * q2 + d), z3.Implies(q2 >= q1 + 1, d * q2 >= d * q1 + d))))
            forms.append(z3.Implies(d > 0, z3.And(z3.Implies(q1 + q2 >= 1, d * q1 + d * q2 >= d), z3.Implies(q1 + q2 <= -1, d * q1 + d * q2 <= -d),
                                                  z3.Implies(q1 + q2 >= 0, d * q1 + d * q2 >= 0), z3.Implies(q1 + q2 <= -2, d * q1 + d * q2 <= -2 * d))))
        for q1 in qs:
            d = q1.arg(1)
            forms.append(z3.Implies(d > 0, z3.And(z3.Implies(q1 >= 1, d * q1 >= d), z3.Implies(q1 <= -1, d * q1 <= -d), z3.Implies(q1 == 0, d * q1 == 0))))
    if any(True for _ in collect(forms, {"exp", "log", "draw"})) or True:
        pass
    forms = name_lambdas(forms)
    return forms


def _guard(en, q):
    vs = [z3.Const(q.var_name(i), q.var_sort(i)) for i in range(q.num_vars())]
    pats = patterns_of(q, vs)
    return forall(vs, z3.Implies(en, inst(q, vs)), pats, manual=q.get_id() in MANUAL)


DEADLINE = [None]


def late():
    return DEADLINE[0] is not None and time.time() > DEADLINE[0]


def check(forms, timeout, tactic=None, seed=0, mbqi=True):
    t0 = time.time()
    if DEADLINE[0] is not None:
        timeout = min(timeout, DEADLINE[0] - t0)
        if timeout < 0.05:
            return "unknown", None, "out of time"
    s = z3.SolverFor(tactic) if tactic and "/" not in tactic else z3.Solver()
    if not mbqi:
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("relevancy", 0)
    s.set("timeout", int(timeout * 1000))
    if seed:
        s.set("random_seed", seed)
        s.set("smt.arith.solver", 2) if seed == 2 else None
    s.add(*[f for f in forms])
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    m = None
    if r == z3.sat:
        m = s.model()
    return str(r), m, s.reason_unknown() if r == z3.unknown else ""


def qf_abstract(forms):
    """drop quantified hypotheses, replace non-arithmetic subterms by constants; for nlsat"""
    names = {}
    out = []
    AR = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE,
          z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_ANUM,
          z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_TO_REAL, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR}
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(e):
            if e.sort() == B:
                r = fresh("qb", B)
            else:
                r = e
        elif not z3.is_app(e) or e.num_args() == 0:
            r = e
        elif e.decl().kind() in AR and not any(c.sort().kind() == z3.Z3_ARRAY_SORT for c in e.children()):
            args = [go(c) for c in e.children()]
            r = e.decl()(*args)
        elif e.sort() in (I, R, B):
            r = fresh("ab", e.sort())
        else:
            r = e
        memo[k] = (e, r)
        return r

    for f in forms:
        if z3.is_quantifier(f):
            continue
        out.append(go(f))
    return out


MULI = z3.Function("muli", I, I, I)
MULR = z3.Function("mulr", R, R, R)
DIVR = z3.Function("divr", R, R, R)


_la = {}


def lin_abstract(forms):
    """non-linear products and quotients as uninterpreted (commutative) functions"""
    memo = _la
    if len(memo) > 400000:
        memo.clear()

    def isnum(x):
        return z3.is_int_value(x) or z3.is_rational_value(x)

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(e):
            vs = [fresh("b", e.var_sort(i)) for i in range(e.num_vars())]
            b = z3.substitute_vars(e.body(), *reversed(vs))
            nb = go(b)
            if nb.eq(b):
                r = e
            elif e.is_lambda():
                r = lam(vs[0], nb) if len(vs) == 1 else z3.Lambda(vs, nb)
            else:
                np = patterns_of(e, vs, go)
                r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, nb, patterns=np)
        elif z3.is_app(e) and e.num_args():
            args = [go(a) for a in e.children()]
            kd = e.decl().kind()
            if kd == z3.Z3_OP_MUL:
                ns = [a for a in args if isnum(a)]
                xs = [a for a in args if not isnum(a)]
                if len(xs) < 2:
                    r = e if all(x.eq(y) for x, y in zip(args, e.children())) else prod(args, e.sort())
                else:
                    f = MULI if e.sort() == I else MULR
                    r = xs[0]
                    for x in xs[1:]:
                        r = f(r, x)
                    for n in ns:
                        r = n * r
            elif kd == z3.Z3_OP_DIV and not isnum(args[1]):
                r = DIVR(*args)
            elif all(x.eq(y) for x, y in zip(args, e.children())):
                r = e
            else:
                r = e.decl()(*args)
        else:
            r = e
        memo[k] = (e, r)
        return r

    out = [go(f) for f in forms]
    if all(x.eq(y) for x, y in zip(out, forms)):
        return None
    for f, so in ((MULI, I), (MULR, R)):
        x, y = z3.Consts("cm!x cm!y", so)
        out.append(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
        zero, one = (z3.IntVal(0), z3.IntVal(1)) if so == I else (z3.RealVal(0), z3.RealVal(1))
        out.append(z3.ForAll([x, y], z3.And(z3.Implies(z3.And(x > 0, y > 0), f(x, y) > 0), z3.Implies(z3.And(x >= 0, y >= 0), f(x, y) >= 0),
                                            z3.Implies(x == zero, f(x, y) == zero), z3.Implies(x == one, f(x, y) == y)), patterns=[f(x, y)]))
    x, y = z3.Consts("cm!x cm!y", R)
    out.append(z3.ForAll([x, y], z3.And(z3.Implies(y != 0, MULR(DIVR(x, y), y) == x), z3.Implies(z3.And(x > 0, y > 0), DIVR(x, y) > 0),
                                        z3.Implies(z3.And(x == 0, y != 0), DIVR(x, y) == 0)), patterns=[DIVR(x, y)]))
    return out


def dedup(hs):
    seen, out = set(), []
    for h in hs:
        if h.get_id() not in seen:
            seen.add(h.get_id())
            out.append(h)
    return out


def prove_eq(hyps, a, b, sk, timeout):
    """equality argument by argument"""
    if a.eq(b):
        return True
    if z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.decl().kind() != z3.Z3_OP_SELECT:
        if a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2 and a.arg(0).eq(a.arg(1)) and b.arg(0).eq(b.arg(1)):
            x, y = a.arg(0), b.arg(0)
            if prove1(hyps, z3.Or(x == y, x == -y), sk, timeout, deep=False)[0] == "proved":
                return True
        elif all(prove_eq(hyps, x, y, sk, timeout) for x, y in zip(a.children(), b.children())):
            return True
    if a.sort().kind() == z3.Z3_ARRAY_SORT:
        return False
    return prove1(hyps, a == b, sk, timeout, deep=False)[0] == "proved"


def ite_conds(e, deep=False):
    """conditions of the outermost ground case distinctions"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if deep and z3.is_quantifier(x):
            st.append(x.body())
            continue
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and not has_var(x.arg(0)):
            out.append(x.arg(0))
        st.extend(x.children())
    return out


def quick(hyps, goal, sk, t=1.0):
    """proof attempt without facts about sums"""
    for eh, g, s2 in split_goal(goal, [], sk):
        if check(prepare(hyps + eh, g, s2, use_lemmas=False, level=0), t, mbqi=False)[0] != "unsat":
            return False
    return True


_cs = {}


def cset(h):
    k = h.get_id()
    if k not in _cs:
        if len(_cs) > 100000:
            _cs.clear()
        _cs[k] = (h, frozenset(consts(h)))
    return _cs[k][1]


def decide_conds(hyps, goal, sk):
    """settle the ground conditions of case distinctions that the hypotheses decide"""
    for c in ite_conds(goal)[:6]:
        if late():
            break
        if not occurs(goal, c):
            continue
        if quick(hyps, c, sk):
            goal = subst(goal, (c, z3.BoolVal(True)))
        elif quick(hyps, Not(c), sk):
            goal = subst(goal, (c, z3.BoolVal(False)))
    return rebeta(goal)


def unify_sums(hyps, goal, sk):
    """replace sums of the goal by provably equal ones of the hypotheses"""
    SS = {"ssum", "isum"}
    top = lambda fs: [t for t in collect([f for f in fs if not z3.is_quantifier(f)], SS)]
    ground = [h for h in flat_hyps(hyps)[0] if not _quant(h)]
    ref = top(ground)[:12]
    for t in sorted(top([goal]), key=lambda t: -size(t)):
        if any(t.eq(r) for r in ref) or not occurs(goal, t):
            continue
        for r in ref + [u for u in top([goal]) if size(u) < size(t)]:
            if late():
                return goal
            if r.decl().eq(t.decl()) and sum_rules(hyps, Eq(t, r), sk, 1.0, "flat"):
                goal = subst(goal, (t, r))
                break
    return rebeta(goal)


def size(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return len(seen)


def prove1(hyps, goal, sk, timeout=10.0, deep=True):
    if late():
        return "unknown", None, "out of time"
    hyps = dedup(hyps)
    if deep:
        # only what speaks about nothing but the goal
        gc = set(consts(goal)) | {c.get_id() for c in sk}
        few = [h for h in hyps if cset(h) <= gc or h.get_id() in {x.get_id() for x in hyps[-2:]}]
        if few and check(prepare(few, goal, sk, use_lemmas=False, level=0), 0.5, mbqi=False)[0] == "unsat":
            return "proved", None, "z3"
    have = {h.get_id() for h in hyps}
    more = [h.arg(1) for h in hyps if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_IMPLIES and h.arg(0).get_id() in have and h.arg(1).get_id() not in have]
    if more:
        hyps = hyps + more
        for h in more:
            for q in (h.children() if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_AND else [h]):
                if is_forall(q):
                    MANUAL[q.get_id()] = q
    if deep:
        hs = flat_hyps(hyps)[0]
        known = [(h, z3.BoolVal(True)) for h in hs if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_SELECT] + \
                [(h.arg(0), z3.BoolVal(False)) for h in hs if z3.is_not(h) and z3.is_app(h.arg(0)) and h.arg(0).decl().kind() == z3.Z3_OP_SELECT]
        known = [p for p in known if occurs(goal, p[0])]
        if known:
            goal = subst(goal, *known)
            if z3.is_true(goal):
                return "proved", None, "z3"
        cs = [c for c in ite_conds(goal) if _quant(c)]
        if cs:
            # decide the condition, or go through both cases
            c = cs[0]
            rest = [(c, z3.BoolVal(True)), (c, z3.BoolVal(False))]
            for (cc, v), want in zip(rest, (c, Not(c))):
                if quick(hyps, want, sk):
                    return prove1(hyps + [want], subst(goal, (cc, v)), sk, timeout, deep)
            for (cc, v), want in zip(rest, (c, Not(c))):
                r = prove1(hyps + [want], subst(goal, (cc, v)), sk, timeout, deep)
                if r[0] != "proved":
                    return r
            return "proved", None, "z3"
        for pr in backchain(hs, goal)[:4]:
            if z3.is_true(pr) or check(prepare(hyps, pr, sk, use_lemmas=False, level=0), 1.0, mbqi=False)[0] == "unsat":
                return "proved", None, "z3"
        # guarded facts whose guard is at hand
        fired = set()
        for h in hs:
            if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_IMPLIES and _quant(h.arg(0)) and not _quant(h.arg(1)) and len(fired) < 4:
                if not any(x.eq(h.arg(1)) for x in hs) and quick(hyps, h.arg(0), sk):
                    fired.add(h)
        hyps = hyps + [h.arg(1) for h in fired]
        if sum_rules(hyps, goal, sk, min(timeout, 5), deep):
            return "proved", None, "z3"
        def early(goal):
            forms = prepare(hyps, goal, sk, use_lemmas=False, level=0)
            lf = lin_abstract(forms)
            if check(forms if lf is None else lf, 1.0, mbqi=False)[0] == "unsat":
                return "proved", None, "z3"
            if lf is not None:
                q = qf_abstract(forms)
                if check(q, min(2.0, timeout), "QF_NRA" if not any_int(q) else None)[0] == "unsat":
                    return "proved", None, "z3-qfnra"
        r = early(goal) if not late() else None
        if r:
            return r
        if deep == "flat":
            return "unknown", None, "not tried further"
        if collect([goal], {"ssum", "isum"}) and not late():
            g2 = unify_sums(hyps, decide_conds(hyps, goal, sk), sk)
            if not g2.eq(goal):
                if z3.is_true(g2):
                    return "proved", None, "z3"
                goal = g2
                r = early(goal)
                if r:
                    return r
    if late():
        return "unknown", None, "out of time"
    forms = prepare(hyps, goal, sk, level=0)
    lf = lin_abstract(forms)
    if lf is not None and check(lf, min(3.0, timeout), mbqi=False)[0] == "unsat":
        return "proved", None, "z3-lin"
    if check(forms, min(2.0, timeout), mbqi=False)[0] == "unsat":
        return "proved", None, "z3"
    if late():
        return "unknown", None, "out of time"
    forms = prepare(hyps, goal, sk)
    if deep and z3.is_eq(goal) and all(z3.is_app(c) and c.num_args() and c.decl().kind() != z3.Z3_OP_SELECT for c in goal.children()) and \
            goal.arg(0).decl().eq(goal.arg(1).decl()):
        if check(forms, min(2.0, timeout))[0] == "unsat":
            return "proved", None, "z3"
        if prove_eq(hyps, goal.arg(0), goal.arg(1), sk, timeout):
            return "proved", None, "z3-congruence"
    r, m, why = check(forms, timeout)
    if r == "unsat":
        return "proved", None, "z3"
    if not deep:
        return ("sat" if r == "sat" else "unknown"), m, why
    # nonlinear fallback without quantifiers and arrays
    q = qf_abstract(forms)
    r2, m2, _ = check(q, min(timeout, 10), "QF_NRA" if not any_int(q) else None)
    if r2 == "unsat":
        return "proved", None, "z3-qfnra"
    return ("sat" if r == "sat" else "unknown"), m, why


def any_int(fs):
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.sort() == I:
                return True
            st.extend(x.children())
    return False


def prove(hyps, goal, timeout=10.0, deep=True, budget=None):
    """-> (status, info) with status in proved / sat / unknown"""
    if budget is not None:
        old = DEADLINE[0]
        DEADLINE[0] = time.time() + budget if old is None else min(old, time.time() + budget)
        try:
            return prove(hyps, goal, timeout, deep)
        finally:
            DEADLINE[0] = old

    def canon(h):
        r = canonq(h)
        if h.get_id() in MANUAL and is_forall(r):
            MANUAL[r.get_id()] = r
        return r
    hyps = [canon(tb(h)) for h in hyps]
    goal = canonq(tb(goal))
    def conj(h):
        return [x for c in h.children() for x in conj(c)] if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_AND else [h]
    flat = [c for h in hyps for c in conj(h)]
    ids = {h.get_id() for h in flat} | {h.get_id() for h in hyps}
    parts = [p for c in conj(goal) if c.get_id() not in ids for p in split_goal(c, [], [])]
    worst = ("proved", None)
    for eh, g, sk in parts:
        if g.get_id() in ids or any(h.eq(g) for h in eh):
            continue
        if z3.is_app(g) and g.decl().name() == "enum":
            st = prove_enum(list(hyps) + eh, g, sk, timeout)
        else:
            st = prove1(list(hyps) + eh, g, sk, timeout, deep)
        if st[0] != "proved":
            return st[0], {"subgoal": str(g)[:600], "model": st[1], "why": st[2]}
    return worst


def fold(e, memo):
    """case distinctions whose condition is settled"""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(e):
        b = fold(e.body(), memo)
        if b.eq(e.body()):
            r = e
        else:
            vs = [fresh("b", e.var_sort(i)) for i in range(e.num_vars())]
            nb = z3.substitute_vars(b, *reversed(vs))
            r = (lam(vs[0], nb) if len(vs) == 1 else z3.Lambda(vs, nb)) if e.is_lambda() else (z3.ForAll if e.is_forall() else z3.Exists)(vs, nb, patterns=patterns_of(e, vs))
    elif z3.is_app(e) and e.num_args():
        cs = [fold(c, memo) for c in e.children()]
        kd = e.decl().kind()
        if kd == z3.Z3_OP_ITE and z3.is_true(cs[0]):
            r = cs[1]
        elif kd == z3.Z3_OP_ITE and z3.is_false(cs[0]):
            r = cs[2]
        elif kd == z3.Z3_OP_EQ and cs[0].eq(cs[1]):
            r = z3.BoolVal(True)
        elif all(x.eq(y) for x, y in zip(cs, e.children())):
            r = e
        else:
            r = e.decl()(*cs)
    else:
        r = e
    memo[k] = (e, r)
    return r


def prove_cases(hyps, goal, timeout, budget):
    """a goal full of case distinctions (reads of updated arrays), one case at a time"""
    end = time.time() + budget
    n0 = len(hyps)

    def go(hs, g, sk, depth):
        g = fold(rebeta(g), {})
        if z3.is_true(g):
            return True
        if time.time() > end or late():
            return False
        cs = ite_conds(g, True) if depth else []
        if not cs:
            for part in (hs, hs[:3] + hs[max(3, n0 - 20):]):
                forms = prepare(part, g, sk, use_lemmas=False, level=0)
                if check(lin_abstract(forms) or forms, 2.0)[0] == "unsat":
                    return True
            r = prove(hs, g, timeout, budget=max(1.0, min(10.0, end - time.time())))[0] == "proved"
            return r
        c = min(cs, key=size)
        for v, f in ((True, c), (False, Not(c))):
            if check(prepare(hs, Not(f), sk, use_lemmas=False, level=0), 0.5, mbqi=False)[0] == "unsat":
                continue
            pairs = [(c, z3.BoolVal(v))]
            g2 = subst(g, *pairs)
            if not go(hs[:n0] + [fold(subst(h, *pairs), {}) for h in hs[n0:]] + [f], g2, sk, depth - 1):
                return False
        return True

    for eh, g, sk in split_goal(canonq(tb(goal)), [], []):
        if not go(list(hyps) + eh, g, sk, 8):
            return "unknown", {"subgoal": str(g)[:600], "model": None, "why": "case distinction"}
    return "proved", None


def match(pat, t, sub, depth=0):
    """first-order matching of a quantifier body (de Bruijn variables) against a ground term"""
    if z3.is_var(pat):
        i = z3.get_var_index(pat)
        if i < depth:
            return z3.is_var(t) and z3.get_var_index(t) == i
        i -= depth
        if has_var(t) or pat.sort() != t.sort():
            return False
        if i in sub:
            return sub[i].eq(t)
        sub[i] = t
        return True
    if z3.is_quantifier(pat):
        return z3.is_quantifier(t) and pat.is_lambda() == t.is_lambda() and pat.is_forall() == t.is_forall() and pat.num_vars() == t.num_vars() and \
            all(pat.var_sort(i) == t.var_sort(i) for i in range(pat.num_vars())) and match(pat.body(), t.body(), sub, depth + pat.num_vars())
    if z3.is_var(t) or z3.is_quantifier(t):
        return False
    if pat.num_args() == 0:
        return pat.eq(t)
    if not (pat.decl().eq(t.decl()) and pat.num_args() == t.num_args()):
        return False
    keep = dict(sub)
    if all(match(a, b, sub, depth) for a, b in zip(pat.children(), t.children())):
        return True
    if pat.num_args() == 2 and pat.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_EQ):
        sub.clear()
        sub.update(keep)
        return match(pat.arg(0), t.arg(1), sub, depth) and match(pat.arg(1), t.arg(0), sub, depth)
    return False


def backchain(hs, g):
    """premises that make g an instance of a universally quantified hypothesis"""
    out = []
    if not z3.is_app(g):
        return out
    for h in hs:
        if is_forall(h):
            b, prem = h.body(), None
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_IMPLIES:
                prem, b = b.children()
            elif z3.is_app(b) and b.decl().kind() == z3.Z3_OP_OR:
                cs = [c for c in b.children() if z3.is_app(c) and c.decl().eq(g.decl())]
                if len(cs) == 1:
                    prem = And([Not(c) for c in b.children() if not c.eq(cs[0])])
                    b = cs[0]
            for c in (b.children() if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_AND else [b]):
                sub = {}
                if z3.is_app(c) and c.decl().eq(g.decl()) and match(c, g, sub) and len(sub) == h.num_vars():
                    out.append(z3.BoolVal(True) if prem is None else rebeta(z3.substitute_vars(prem, *[sub[i] for i in range(h.num_vars())])))
    return out


def sum_rules(hyps, g, sk, timeout, deep=True):
    """goals about sums over one set, element by element"""
    if not z3.is_app(g) or g.num_args() != 2:
        return False
    k = g.decl().kind()
    a, b = g.children()
    isz = lambda t: z3.is_rational_value(t) and t.as_fraction() == 0 or z3.is_int_value(t) and t.as_long() == 0
    iss = lambda t: z3.is_app(t) and t.num_args() and t.decl().name() in ("ssum", "isum")

    def strip(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD:
            cs = [c for c in t.children() if not isz(c)]
            if len(cs) == 1:
                return strip(cs[0])
        return t
    a, b = strip(a), strip(b)
    if k == z3.Z3_OP_EQ and (iss(a) or iss(b)):
        # the same up to common factors and the order of the terms
        def norm(t):
            if not iss(t):
                return t
            w = fresh("wn", I)
            return mk_sum(w, sel(t.arg(0), w), D=t.arg(1))
        n, m = norm(a), norm(b)
        if n.eq(m) or z3.is_true(z3.simplify(n == m, som=True)):
            return True

    def each(f, D):
        w = fresh("wr", I)
        for eh, gg, s2 in split_goal(f(w), [sel(D, w)], sk + [w]):
            if prove1(hyps + eh, gg, s2, timeout, deep)[0] != "proved":
                return False
        return True
    if k == z3.Z3_OP_EQ:
        for p, q in ((a, b), (b, a)):
            # one case after the other
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE and p.sort() != B and (iss(q) or iss(p.arg(1)) or iss(p.arg(2))):
                c, u, v = p.children()
                return all(prove1(hyps + [h], Eq(w, q), sk, timeout, deep)[0] == "proved" for h, w in ((c, u), (Not(c), v)))
        for p, q in ((a, b), (b, a)):
            if iss(p) and isz(q):
                return each(lambda w: Eq(sel(p.arg(0), w), q), p.arg(1))
    if k == z3.Z3_OP_EQ and iss(a) and iss(b) and a.decl().eq(b.decl()) and a.arg(1).eq(b.arg(1)):
        return each(lambda w: Eq(sel(a.arg(0), w), sel(b.arg(0), w)), a.arg(1))
    if k == z3.Z3_OP_EQ and iss(a) and iss(b) and a.decl().eq(b.decl()):
        zero = default(a.sort())
        (F, D), (G, E) = a.children(), b.children()
        return each(lambda w: z3.And(z3.Implies(sel(E, w), Eq(sel(F, w), sel(G, w))), z3.Implies(Not(sel(E, w)), Eq(sel(F, w), zero))), D) and \
            each(lambda w: z3.Implies(Not(sel(D, w)), Eq(sel(G, w), zero)), E)
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
        k, a, b = {z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_LE: z3.Z3_OP_GE}[k], b, a
    if k == z3.Z3_OP_GE and iss(a) and iss(b) and a.decl().eq(b.decl()) and a.arg(1).eq(b.arg(1)):
        return each(lambda w: sel(a.arg(0), w) >= sel(b.arg(0), w), a.arg(1))
    if k in (z3.Z3_OP_GT, z3.Z3_OP_GE) and iss(a) and isz(b):
        F, D = a.children()
        if k == z3.Z3_OP_GE:
            return each(lambda w: sel(F, w) >= 0, D)
        j = fresh("wj", I)
        for eh, gg, s2 in split_goal(z3.Exists([j], z3.And(sel(D, j), sel(F, j) > 0)), [], sk):
            if prove1(hyps + eh, gg, s2, timeout, deep)[0] != "proved":
                return False
        return each(lambda w: sel(F, w) >= 0, D)
    return False


def subst_all(e, c, v):
    """replace c by v, below binders too, and simplify what that decides"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if x.eq(c):
            r = v
        elif z3.is_quantifier(x):
            vs = [fresh("sa", x.var_sort(i)) for i in range(x.num_vars())]
            b0 = z3.substitute_vars(x.body(), *reversed(vs))
            b = go(b0)
            r = x if b.eq(b0) else lam(vs[0], b) if x.is_lambda() and len(vs) == 1 else (z3.ForAll if x.is_forall() else z3.Exists)(vs, b)
        elif z3.is_app(x) and x.num_args():
            args = [go(a) for a in x.children()]
            if x.decl().kind() == z3.Z3_OP_ITE:
                r = If(*args)
            else:
                r = x if all(p.eq(q) for p, q in zip(args, x.children())) else x.decl()(*args)
        else:
            r = x
        memo[k] = (x, r)
        return r
    return rebeta(go(e))


def prove_enum(hyps, g, sk, timeout):
    cs = ite_conds(g, True)
    if cs:
        c = cs[0]
        for v, h in ((True, c), (False, Not(c))):
            if v is False and quick(hyps, c, sk) or v is True and quick(hyps, Not(c), sk):
                continue
            r = prove_enum(hyps + [h], subst_all(g, c, z3.BoolVal(v)), sk, timeout)
            if r[0] != "proved":
                return r
        return "proved", None, "z3"
    ids, n, D = g.children()
    hs, _ = flat_hyps(hyps)
    for p in backchain(hs, g):
        if z3.is_true(p) or check(prepare(hyps, p, sk, use_lemmas=False, level=0), 1.0, mbqi=False)[0] == "unsat" or \
                prove1(hyps, p, sk, timeout, deep=False)[0] == "proved":
            return "proved", None, "z3"
    for h in hs:
        if z3.is_app(h) and h.decl().name() == "enum":
            i2, n2, D2 = h.children()
            i = z3.Int("ec!i")
            conj = z3.And(n == n2, z3.ForAll([i], Eq(sel(D, i), sel(D2, i))),
                          z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), Eq(sel(ids, i), sel(i2, i)))))
            ok = all(prove1(hyps + eh, gg, s2, timeout)[0] == "proved" for eh, gg, s2 in split_goal(conj, [], []))
            if ok:
                return "proved", None, "z3"
    for c in enum_goals(ids, n, D):
        for eh, gg, s2 in split_goal(c, [], []):
            r = prove1(hyps + eh, gg, s2, timeout)
            if r[0] != "proved":
                return r
    return "proved", None, "z3"
