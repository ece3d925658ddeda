"""Term helpers: beta-reducing selects, finite sums over sets / ranges, and the lemma
instances that give those sums their meaning."""
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SET = z3.ArraySort(I, B)
_ctr = [0]
FRESH = set()


def arr(s):
    return z3.ArraySort(I, s)


def fresh(name, sort):
    _ctr[0] += 1
    c = z3.Const("%s!%d" % (name, _ctr[0]), sort)
    return c


_keep = []


def mpat(*a):
    """multi-pattern; the terms are kept alive explicitly"""
    r = z3.MultiPattern(*a)
    _keep.append((a, r))
    return r


_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}


def pattern_ok(t):
    if not (z3.is_app(t) and t.num_args()):
        return False
    st = [t]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if x.decl().kind() in _BADPAT:
                return False
            st.extend(x.children())
    return True


def patterns_of(q, vs, f=None):
    """the patterns of quantifier q over the constants vs, without those that substitution has made unusable"""
    out = []
    for i in range(q.num_patterns()):
        ch = [rebeta(z3.substitute_vars(c, *reversed(vs))) for c in q.pattern(i).children()]
        if f:
            ch = [f(c) for c in ch]
        if all(pattern_ok(c) for c in ch) and all(any(occurs(c, v) for c in ch) for v in vs):
            out.append(mpat(*ch) if len(ch) > 1 else ch[0])
    return out


def is_lambda(e):
    return z3.is_quantifier(e) and e.is_lambda()


def default(sort):
    if sort == I:
        return z3.IntVal(0)
    if sort == R:
        return z3.RealVal(0)
    if sort == B:
        return z3.BoolVal(False)
    if sort.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(sort.domain(), default(sort.range()))
    raise Exception("no default for %s" % sort)


def tb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)):
            l.extend(x)
        else:
            l.append(x)
    l = [tb(x) for x in l]
    l = [x for x in l if not z3.is_true(x)]
    for x in l:
        if z3.is_false(x):
            return z3.BoolVal(False)
    if not l:
        return z3.BoolVal(True)
    return l[0] if len(l) == 1 else z3.And(*l)


def Or(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)):
            l.extend(x)
        else:
            l.append(x)
    l = [tb(x) for x in l]
    l = [x for x in l if not z3.is_false(x)]
    for x in l:
        if z3.is_true(x):
            return z3.BoolVal(True)
    if not l:
        return z3.BoolVal(False)
    return l[0] if len(l) == 1 else z3.Or(*l)


def Not(a):
    a = tb(a)
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    a, b = tb(a), tb(b)
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == B:
        if z3.is_true(a):
            return Or(c, b)
        if z3.is_false(b):
            return And(c, a)
        if z3.is_false(a):
            return And(Not(c), b)
        if z3.is_true(b):
            return Or(Not(c), a)
    if z3.is_not(c):
        return If(c.arg(0), b, a)
    return z3.If(c, a, b)


def Eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return z3.BoolVal(a.as_fraction() == b.as_fraction())
    return a == b


def distinct_syntactically(a, b):
    """True when integer terms differ by a non-zero constant."""
    if a.sort() != I or b.sort() != I:
        return False
    d = z3.simplify(a - b)
    return z3.is_int_value(d) and d.as_long() != 0


def sel(a, k):
    """select with beta reduction"""
    if is_lambda(a):
        return rebeta(z3.substitute_vars(a.body(), k))
    if z3.is_store(a):
        i, v = a.arg(1), a.arg(2)
        if i.eq(k):
            return v
        if distinct_syntactically(i, k):
            return sel(a.arg(0), k)
        # under i == k the value may be read with k in place of i
        vv = v
        if z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vv = rebeta(z3.substitute(v, (i, k)))
        return If(Eq(k, i), vv, sel(a.arg(0), k))
    if z3.is_const_array(a):
        return a.arg(0)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        return If(a.arg(0), sel(a.arg(1), k), sel(a.arg(2), k))
    return z3.Select(a, k)


_rb = {}


def rebeta(e):
    """re-normalise: push selects through stores, lambdas and ites"""
    if len(_rb) > 600000:
        _rb.clear()
    return _rebeta(e, _rb)


def _rebeta(e, memo):
    key = e.get_id()
    if key in memo:
        return memo[key][1]
    if z3.is_quantifier(e) or z3.is_var(e) or not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        args = [_rebeta(a, memo) for a in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_SELECT and len(args) == 2:
            r = sel(args[0], args[1])
            if not r.eq(e) and z3.is_app(r) and r.decl().kind() != z3.Z3_OP_SELECT:
                r = _rebeta(r, memo)
        elif k == z3.Z3_OP_ITE:
            r = If(*args)
        elif k == z3.Z3_OP_AND:
            r = And(args)
        elif k == z3.Z3_OP_OR:
            r = Or(args)
        elif k == z3.Z3_OP_NOT:
            r = Not(args[0])
        elif k == z3.Z3_OP_EQ and (args[0].eq(args[1]) or args[0].sort() in (I, R)):
            r = Eq(args[0], args[1]) if not (args[0].eq(e.arg(0)) and args[1].eq(e.arg(1))) or args[0].eq(args[1]) else e
        elif k == z3.Z3_OP_DISTINCT and len(args) == 2:
            r = Not(Eq(args[0], args[1]))
        elif k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == "card" and args[0].eq(EMPTY):
            r = z3.IntVal(0)
        elif all(x.eq(y) for x, y in zip(args, e.children())):
            r = e
        else:
            r = e.decl()(*args)
    memo[key] = (e, r)
    return r


def subst(e, *pairs):
    return rebeta(z3.substitute(e, *pairs))


def occurs(e, c):
    """does constant / subterm c occur in e (also below binders)?"""
    cid = c.get_id()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        if i == cid:
            return True
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def consts(e, acc=None):
    """uninterpreted constants of e (below binders too)"""
    acc = {} if acc is None else acc
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[i] = x
            st.extend(x.children())
    return acc


def lam(x, body):
    """lambda with a canonical bound name: alpha-equivalent terms are identical"""
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_SELECT and body.arg(1).eq(x) and not occurs(body.arg(0), x):
        return body.arg(0)
    y = z3.Const("l!", x.sort())
    if not x.eq(y):
        body = z3.substitute(body, (x, y))
    return z3.Lambda([y], body)


def has_var(e):
    """contains a free de Bruijn variable (conservative: any var not bound inside e)"""
    k0 = e.get_id()
    if k0 in _hv:
        return _hv[k0][1]
    if len(_hv) > 400000:
        _hv.clear()
    memo = {}

    def go(x, depth):
        key = (x.get_id(), depth)
        if key in memo:
            return memo[key]
        if z3.is_var(x):
            r = z3.get_var_index(x) >= depth
        elif z3.is_quantifier(x):
            r = go(x.body(), depth + x.num_vars())
        else:
            r = any(go(c, depth) for c in x.children())
        memo[key] = r
        return r

    r = go(e, 0)
    _hv[k0] = (e, r)
    return r


_hv = {}


# ---------------------------------------------------------------- uninterpreted functions
SSUM = z3.Function("ssum", arr(R), SET, R)      # sum of F over a finite set
ISUM = z3.Function("isum", arr(I), SET, I)
PSUM = z3.Function("psum", arr(R), I, R)        # sum of F over 0 <= j < n
IPSUM = z3.Function("ipsum", arr(I), I, I)
CARD = z3.Function("card", SET, I)
SMAX = z3.Function("smax", arr(R), SET, R, R)   # max(init, max of F over a finite set)
ISMAX = z3.Function("ismax", arr(I), SET, I, I)
SQRT = z3.Function("sqrt", R, R)
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
POW = z3.Function("pow", R, R, R)
DRAW = z3.Function("draw", I, R)                # the uniform [0,1) value an engine state yields
IDRAW = z3.Function("idraw", I, I, I, I)
NEXT = z3.Function("next", I, I)
SEED = z3.Function("seed", I, I)
ADDR = z3.Function("addr", I, I, I)             # address of element k of object b
EDIV = z3.Function("ediv", I, I, I)            # floor division and remainder by a positive divisor
EMOD = z3.Function("emod", I, I, I)
EMPTY = z3.K(I, z3.BoolVal(False))
SUMS = {"ssum", "isum", "psum", "ipsum", "smax", "ismax", "card"}


def rangeset(lo, hi):
    x = z3.Int("rs!x")
    return lam(x, z3.And(lo <= x, x < hi))


# ---------------------------------------------------------------- linear normal form of sums
def _ismul(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL


def _factors(e):
    """flatten a product / quotient into (numerators, denominators)"""
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            n, d = [], []
            for a in e.children():
                x, y = _factors(a)
                n += x
                d += y
            return n, d
        if k == z3.Z3_OP_DIV:
            n1, d1 = _factors(e.arg(0))
            n2, d2 = _factors(e.arg(1))
            return n1 + d2, d1 + n2
        if k == z3.Z3_OP_UMINUS:
            n, d = _factors(e.arg(0))
            return [z3.RealVal(-1) if e.sort() == R else z3.IntVal(-1)] + n, d
    return [e], []


def prod(l, sort):
    one = z3.RealVal(1) if sort == R else z3.IntVal(1)
    l = [x for x in l if not (z3.is_rational_value(x) or z3.is_int_value(x)) or not x.eq(one)]
    if any((z3.is_rational_value(x) and x.as_fraction() == 0) or (z3.is_int_value(x) and x.as_long() == 0) for x in l):
        return default(sort)
    if not l:
        return one
    r = l[0]
    for x in l[1:]:
        r = r * x
    return r


def iszero(e):
    return (z3.is_rational_value(e) and e.as_fraction() == 0) or (z3.is_int_value(e) and e.as_long() == 0)


def terms_of(e, x):
    """decompose e into a list of (coef, guards, atom): sum of coef * ite(/\\guards, atom, 0),
    coef free of x; guards (containing x) and atom may contain x."""
    sort = e.sort()
    one = z3.RealVal(1) if sort == R else z3.IntVal(1)
    if iszero(e):
        return []
    if not occurs(e, x):
        return [(e, [], one)]
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return [t for a in e.children() for t in terms_of(a, x)]
    if k == z3.Z3_OP_SUB:
        r = terms_of(e.arg(0), x)
        for a in e.children()[1:]:
            r += [(prod([-one if False else (z3.RealVal(-1) if sort == R else z3.IntVal(-1)), c], sort), g, t) for c, g, t in terms_of(a, x)]
        return r
    if k == z3.Z3_OP_ITE:
        c, a, b = e.children()
        ta, tb_ = terms_of(a, x), terms_of(b, x)
        if not occurs(c, x):
            zero = default(sort)
            return [(If(c, co, zero), g, t) for co, g, t in ta] + [(If(c, zero, co), g, t) for co, g, t in tb_]
        return [(co, [c] + g, t) for co, g, t in ta] + [(co, [Not(c)] + g, t) for co, g, t in tb_]
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
        n, d = _factors(e)
        cn = [f for f in n if not occurs(f, x)]
        xn = [f for f in n if occurs(f, x)]
        cd = [f for f in d if not occurs(f, x)]
        xd = [f for f in d if occurs(f, x)]
        coef = prod(cn, sort)
        if cd:
            coef = coef / prod(cd, sort)
        # distribute over one additive / ite factor
        for i, f in enumerate(xn):
            fk = f.decl().kind() if z3.is_app(f) else None
            if fk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_ITE):
                rest = xn[:i] + xn[i + 1:]
                out = []
                for co, g, t in terms_of(f, x):
                    body = prod(rest + [t], sort)
                    if xd:
                        body = body / prod(xd, sort)
                    for c2, g2, t2 in terms_of(body, x):
                        out.append((prod([coef, co, c2], sort), g + g2, t2))
                return out
        body = prod(xn, sort)
        if xd:
            body = body / prod(xd, sort)
        return [(coef, [], body)]
    return [(one, [], e)]


def toreal(e):
    return z3.ToReal(e) if e.sort() == I else e


def split_conj(gs):
    out = []
    for g in gs:
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_AND:
            out += split_conj(g.children())
        else:
            out.append(g)
    return out


def pin(guards, x):
    """find a guard x == t with t free of x; return (t, remaining guards)"""
    gs = split_conj(guards)
    for i, g in enumerate(gs):
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_EQ and g.arg(0).sort() == I:
            a, b = g.arg(0), g.arg(1)
            t = solve_for(a, b, x)
            if t is not None:
                return t, gs[:i] + gs[i + 1:]
    return None, gs


def solve_for(a, b, x):
    """solve a == b for integer x when it occurs linearly with coefficient +-1"""
    if a.eq(x) and not occurs(b, x):
        return b
    if b.eq(x) and not occurs(a, x):
        return a
    d = z3.simplify(a - b, som=True)
    d0 = z3.simplify(z3.substitute(d, (x, z3.IntVal(0))))
    for sgn in (1, -1):
        if z3.is_int_value(z3.simplify(d - d0 - sgn * x)) and z3.simplify(d - d0 - sgn * x).as_long() == 0 and not occurs(d0, x):
            return z3.simplify(-d0 if sgn == 1 else d0)
    return None


def mk_sum(x, body, D=None, n=None, nonneg=False):
    """sum of body over x in set D, or over 0 <= x < n"""
    body = rebeta(body)
    if D is not None:
        dx = sel(D, x)
        if z3.is_app(dx) and dx.decl().kind() == z3.Z3_OP_SELECT and occurs(body, dx):
            body = subst(body, (dx, z3.BoolVal(True)))     # the summand only matters on D
    sort = body.sort()
    out = []
    for coef, guards, atom in terms_of(body, x):
        t, rest = pin(guards, x)
        if t is not None:
            inside = sel(D, t) if D is not None else z3.And(t >= 0, t < n)
            rest2 = [subst(g, (x, t)) for g in rest]
            val = subst(atom, (x, t)) if occurs(atom, x) else atom
            out.append(If(And([inside] + rest2), prod([coef, val], sort), default(sort)))
            continue
        gx = [g for g in rest if occurs(g, x)]
        gc = [g for g in rest if not occurs(g, x)]
        one = z3.RealVal(1) if sort == R else z3.IntVal(1)
        if not consts(coef):
            coef = z3.simplify(coef)
        if not gx and atom.eq(one):
            cnt = CARD(D) if D is not None else n if nonneg else If(n >= 0, n, z3.IntVal(0))
            s = toreal(cnt) if sort == R else cnt
        else:
            b = If(And(gx), atom, default(sort)) if gx else atom
            L = lam(x, b)
            if D is not None:
                s = (SSUM if sort == R else ISUM)(L, D)
            else:
                s = (PSUM if sort == R else IPSUM)(L, n)
        s = prod([coef, s], sort)
        out.append(If(And(gc), s, default(sort)))
    if not out:
        return default(sort)
    out = [o for o in out if not iszero(o)] or [default(sort)]
    r = out[0]
    for o in out[1:]:
        r = r + o
    return r


def resum(e):
    """rebuild the sums of e whose summand asks for membership in their own domain"""
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(e):
            r = e
            if has_sum(e.body()):
                vs = [fresh("rs", e.var_sort(i)) for i in range(e.num_vars())]
                b = z3.substitute_vars(e.body(), *reversed(vs))
                nb = go(b)
                if not nb.eq(b):
                    if e.is_lambda():
                        r = lam(vs[0], nb) if len(vs) == 1 else z3.Lambda(vs, nb)
                    elif e.num_patterns() == 0:
                        r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, nb)
        elif z3.is_app(e) and e.num_args():
            args = [go(a) for a in e.children()]
            r = e if all(a.eq(b) for a, b in zip(args, e.children())) else rebeta(e.decl()(*args))
            if z3.is_app(r) and r.num_args() == 2 and r.decl().name() in ("ssum", "isum") and is_lambda(r.arg(0)):
                x = fresh("rx", I)
                b = sel(r.arg(0), x)
                D = r.arg(1)
                dx = sel(D, x)
                if z3.is_app(dx) and dx.decl().kind() == z3.Z3_OP_SELECT and occurs(b, dx):
                    r = mk_sum(x, b, D)
        else:
            r = e
        memo[k] = (e, r)
        return r
    return go(e)


def has_sum(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().name() in ("ssum", "isum"):
                return True
            st.extend(x.children())
    return False


_CQ = {}


def canonq(e):
    """canonical bound names and flat conjunctions / disjunctions, also below binders"""
    k = e.get_id()
    hit = _CQ.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    if z3.is_quantifier(e):
        n = e.num_vars()
        d = _qdepth(e.body())
        vs = [z3.Const("q%d!%d" % (d, i), e.var_sort(i)) for i in range(n)]
        b = z3.substitute_vars(e.body(), *reversed(vs))
        nb = rebeta(canonq(b))
        if e.is_lambda():
            r = lam(vs[0], nb) if n == 1 else z3.Lambda(vs, nb)
        else:
            used = [v for v in vs if occurs(nb, v)]
            if not used:
                r = nb
            else:
                ps = patterns_of(e, vs, canonq)
                r = (z3.ForAll if e.is_forall() else z3.Exists)(vs if ps else used, nb, patterns=ps)
    elif z3.is_app(e) and e.num_args():
        args = [canonq(a) for a in e.children()]
        kd = e.decl().kind()
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            fl, seen = [], set()
            for a in args:
                for c in (a.children() if z3.is_app(a) and a.decl().kind() == kd else [a]):
                    if c.get_id() not in seen:
                        seen.add(c.get_id())
                        fl.append(c)
            r = fl[0] if len(fl) == 1 else z3.And(*fl) if kd == z3.Z3_OP_AND else z3.Or(*fl)
        else:
            r = e if all(a.eq(b) for a, b in zip(args, e.children())) else e.decl()(*args)
    else:
        r = e
    _CQ[k] = (e, r)
    return r


def _qdepth(e):
    """nesting depth of binders"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_quantifier(x):
            r = 1 + go(x.body())
        elif z3.is_app(x) and x.num_args():
            r = max(go(c) for c in x.children())
        else:
            r = 0
        memo[k] = r
        return r
    return go(e)
