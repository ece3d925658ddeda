"""Cuboid lattice: index/position conversion, periodic wrapping, random sites, distances, neighbors."""
import z3
from contract import Contract, Lemma
from terms import *
from contract import cforall as forall
from prover import exists

Q = "mythical::charge_transport::Cuboid::"
PERIODIC, FIXED = 0, 1
XY, YZ, XZ = 0, 1, 2
IA = "std::invalid_argument"


def inv(t):
    """what the constructors establish and every other member relies on"""
    return [("lattice dimensions", z3.And(t.length_ >= 1, t.width_ >= 1, t.height_ >= 1)),
            ("total", t.total_ == t.length_ * t.width_ * t.height_),
            ("boundary settings", z3.And([z3.Or(b == PERIODIC, b == FIXED) for b in (t.x_bound_, t.y_bound_, t.z_bound_)])),
            ("distributions", And([t.distribution_x_.leaves[0] == 0, t.distribution_x_.leaves[1] == t.length_ - 1,
                                   t.distribution_y_.leaves[0] == 0, t.distribution_y_.leaves[1] == t.width_ - 1,
                                   t.distribution_z_.leaves[0] == 0, t.distribution_z_.leaves[1] == t.height_ - 1]))]


def dims(t):
    return ((t.length_, t.x_bound_), (t.width_, t.y_bound_), (t.height_, t.z_bound_))


def index(t, x, y, z):
    return (z * t.length_ * t.width_) + (y * t.length_) + x


def valid(t, i):
    return z3.And(i >= 0, i < t.length_ * t.width_ * t.height_)


def wrap(v, L, b):
    """position along one axis: v modulo the axis length when periodic"""
    return z3.If(b == PERIODIC, EMOD(v, L), v)


CONTRACTS = []


def C(name, **kw):
    CONTRACTS.append(Contract(Q + name, **kw))


def ctor(nm, spacing, bounds):
    C(nm, requires=lambda c: [("positive dimensions or rejected", z3.Or(z3.Or(c.a(0) < 0, c.a(1) < 0, c.a(2) < 0), z3.And(c.a(0) >= 1, c.a(1) >= 1, c.a(2) >= 1)))] +
      ([("boundary settings", z3.And([z3.Or(c.a(i) == PERIODIC, c.a(i) == FIXED) for i in (4, 5, 6)]))] if bounds else []),
      throws=lambda c: [(IA, z3.Or(c.a(0) < 0, c.a(1) < 0, c.a(2) < 0))],
      ensures=lambda c: [(n, f) for n, f in inv(c.new)] +
      [("dimensions as given", z3.And(c.new.length_ == c.a(0), c.new.width_ == c.a(1), c.new.height_ == c.a(2))),
       ("spacing", c.new.inter_site_distance_ == (c.a(3) if spacing else 1)),
       ("boundaries", z3.And([x == (c.a(4 + i) if bounds else FIXED) for i, x in enumerate((c.new.x_bound_, c.new.y_bound_, c.new.z_bound_))]))],
      tags=["C01", "C02", "C03", "C04", "C05", "C06"])


ctor("Cuboid(int,int,int)", False, False)
ctor("Cuboid(int,int,int,double)", True, False)
ctor("Cuboid(int,int,int,double,mythical::charge_transport::BoundarySetting,mythical::charge_transport::BoundarySetting,mythical::charge_transport::BoundarySetting)", True, True)

for nm, f in (("getLength", "length_"), ("getWidth", "width_"), ("getHeight", "height_"), ("getLatticeSpacing", "inter_site_distance_")):
    C(nm + "()const", returns=(lambda f: lambda c: getattr(c.this, f))(f), tags=["C01"])
for nm, f in (("isXPeriodic", "x_bound_"), ("isYPeriodic", "y_bound_"), ("isZPeriodic", "z_bound_")):
    C(nm + "()const", requires=lambda c: inv(c.this), returns=(lambda f: lambda c: getattr(c.this, f) == PERIODIC)(f), tags=["C01"])


def latindex(t, xs):
    return index(t, *[wrap(v, L, b) for v, (L, b) in zip(xs, dims(t))])


def outside(t, xs):
    return z3.Or([z3.And(b != PERIODIC, z3.Or(v < 0, v >= L)) for v, (L, b) in zip(xs, dims(t))])


C("getIndex(int,int,int)const",
  requires=lambda c: inv(c.this),
  throws=lambda c: [(IA, outside(c.this, [c.a(0), c.a(1), c.a(2)]))],
  returns=lambda c: latindex(c.this, [c.a(0), c.a(1), c.a(2)]),
  ensures=lambda c: [("a valid site index", valid(c.this, c.res))],
  tags=["C01", "C02"])

C("getIndex(const std::vector<int> &)const",
  requires=lambda c: inv(c.this),
  throws=lambda c: [(IA, z3.Or(c.a(0).len != 3, outside(c.this, [c.a(0).at(i) for i in range(3)])))],
  returns=lambda c: latindex(c.this, [c.a(0).at(i) for i in range(3)]),
  ensures=lambda c: [("a valid site index", valid(c.this, c.res))],
  tags=["C01", "C02"])


def posx(t, i):
    return EMOD(EMOD(i, t.length_ * t.width_), t.length_)


def posy(t, i):
    return EDIV(EMOD(i, t.length_ * t.width_), t.length_)


def posz(t, i):
    return EDIV(i, t.length_ * t.width_)


def pos(t, i):
    return [posx(t, i), posy(t, i), posz(t, i)]


def inside(t, x, y, z):
    return z3.And(0 <= x, x < t.length_, 0 <= y, y < t.width_, 0 <= z, z < t.height_)


def position(t, i, x, y, z):
    return z3.And(inside(t, x, y, z), i == index(t, x, y, z))


def posens(c):
    return [("three coordinates", c.res.len == 3)] + \
        [("%s coordinate" % n, c.res.at(k) == pos(c.this, c.a(0))[k]) for k, n in enumerate("xyz")] + \
        [("the position whose index this is", position(c.this, c.a(0), *[c.res.at(i) for i in range(3)]))]


C("getPosition(int)const", requires=lambda c: inv(c.this), throws=lambda c: [(IA, Not(valid(c.this, c.a(0))))], ensures=posens, tags=["C01"])
C("getPos_(int)const", requires=lambda c: inv(c.this) + [("valid index", valid(c.this, c.a(0)))], ensures=posens, tags=["C01"], private=True)
for k, nm in enumerate("XYZ"):
    C("get%s(int)const" % nm, requires=lambda c: inv(c.this), throws=lambda c: [(IA, Not(valid(c.this, c.a(0))))],
      returns=(lambda k: lambda c: pos(c.this, c.a(0))[k])(k), tags=["C01"])


for k, (nm, d) in enumerate((("X", "length_"), ("Y", "width_"), ("Z", "height_"))):
    C("get%sPeriodic_(int)const" % nm, requires=lambda c: inv(c.this), returns=(lambda d: lambda c: EMOD(c.a(0), getattr(c.this, d)))(d), tags=["C02"], private=True)


# ---------------------------------------------------------------- random sites
C("getRandomSite(mythical::charge_transport::Cuboid::Plane,int)",
  requires=lambda c: inv(c.this) + [("a plane", z3.And(c.a(0) >= 0, c.a(0) <= 2))],
  throws=lambda c: [(IA, z3.Or([z3.And(c.a(0) == p, z3.Or(c.a(1) < 0, c.a(1) >= n)) for p, n in
                                ((YZ, c.this.length_), (XZ, c.this.width_), (XY, c.this.height_))]))],
  ensures=lambda c: [("a valid site index", valid(c.this, c.res)),
                     ("in the requested plane", exists(list(z3.Ints("rs!x rs!y rs!z")), z3.And(position(c.this, c.res, *z3.Ints("rs!x rs!y rs!z")), z3.And(
                         [z3.Implies(c.a(0) == p, z3.Int("rs!" + ax) == c.a(1)) for p, ax in ((YZ, "x"), (XZ, "y"), (XY, "z"))])))),
                     ] + inv(c.new),
  modifies=["this.generator_"], tags=["C06"])


# ---------------------------------------------------------------- distances
def dist(t, dx, dy, dz):
    return SQRT(z3.ToReal(dx * dx + dy * dy + dz * dz)) * t.inter_site_distance_


def zabs(x):
    return z3.If(x >= 0, x, -x)


def zmin(a, b):
    return z3.If(a <= b, a, b)


def axis(d, L, b):
    """smallest separation along one axis over all periodic images, for |d| < L"""
    return z3.If(b == PERIODIC, zmin(zabs(d), L - zabs(d)), zabs(d))


C("getSmallestDistance(int,int)const",
  requires=lambda c: inv(c.this),
  throws=lambda c: [(IA, Or(Not(valid(c.this, c.a(0))), Not(valid(c.this, c.a(1)))))],
  ensures=lambda c: [("closest image distance", c.res == dist(c.this, *[axis(q - p, L, b) for p, q, (L, b) in zip(pos(c.this, c.a(0)), pos(c.this, c.a(1)), dims(c.this))]))],
  tags=["C05", "C01"])


# ---------------------------------------------------------------- neighbors
def image_ok(t, i, p, q, cutoff):
    """q is an image of a site other than i, on the lattice, within the cutoff of p"""
    return And([z3.Or(b == PERIODIC, z3.And(0 <= v, v < L)) for v, (L, b) in zip(q, dims(t))] +
               [dist(t, *[a - b for a, b in zip(q, p)]) <= cutoff, latindex(t, q) != i])


def nspec(withdist, byvec):
    def ens(c):
        t = c.this
        if byvec:
            p = [c.a(0).at(k) for k in range(3)]
            i = index(t, *p)
        else:
            i = c.a(0)
            p = pos(t, i)
        cut = c.a(1)
        q = list(z3.Ints("nb!x nb!y nb!z"))
        j = z3.Int("nb!j")
        pat = [mpat(*[EMOD(v, L) for v, (L, b) in zip(q, dims(t))])]

        def entry(k):
            e = c.res.at(k)
            if withdist:
                return z3.And(e.first == latindex(t, q), e.second == dist(t, *[a - b for a, b in zip(q, p)]))
            return e == latindex(t, q)
        ids = c.res.leaves[1]
        return [("every listed neighbor is an image within the cutoff",
                 forall([j], Implies(z3.And(0 <= j, j < c.res.len), exists(q, z3.And(image_ok(t, i, p, q, cut), entry(j)), pat)))),
                ("every image within the cutoff is listed",
                 forall(q, Implies(image_ok(t, i, p, q, cut), exists([j], z3.And(0 <= j, j < c.res.len, entry(j))))))]
    return ens


spc = lambda c: [("positive spacing", c.this.inter_site_distance_ > 0)]
badpos = lambda c: Or(c.a(0).len != 3, Not(inside(c.this, *[c.a(0).at(k) for k in range(3)])))
C("getNeighbors(int,double)const", requires=lambda c: inv(c.this) + spc(c), throws=lambda c: [(IA, Not(valid(c.this, c.a(0))))],
  ensures=nspec(False, False), tags=["C03", "C01"])
C("getNeighborDistances(int,double)const", requires=lambda c: inv(c.this) + spc(c), throws=lambda c: [(IA, Not(valid(c.this, c.a(0))))],
  ensures=nspec(True, False), tags=["C03"])
C("getNeighborDistances(std::vector<int>,double)const", requires=lambda c: inv(c.this) + spc(c), throws=lambda c: [(IA, badpos(c))],
  ensures=nspec(True, True), tags=["C03"])
C("getNeighborDistances_(std::vector<int>,double)const", requires=lambda c: inv(c.this) + spc(c) + [("a lattice position", Not(badpos(c)))],
  ensures=nspec(True, True), tags=["C03"], private=True)


# ---------------------------------------------------------------- the map of the whole lattice
def listed(m, a, b):
    return z3.And(sel(m[0], a), sel(sel(m[1], a), b))


def listed_dist(m, a, b):
    return sel(sel(m[2], a), b)


# names for: q is an image of another site within the cutoff of site a; the site q is an image of; how far q is from a
IMAGE = z3.Function("image", I, I, I, I, B)
SITE = z3.Function("imagesite", I, I, I, I)
AWAY = z3.Function("imagedist", I, I, I, I, R)
PLACE = [z3.Function("place" + ax, I, I) for ax in "xyz"]
NQ = list(z3.Ints("nm!x nm!y nm!z"))
NA, NB = z3.Ints("nm!a nm!b")


def nm_place(t, a):
    return z3.And([f(a) == v for f, v in zip(PLACE, pos(t, a))])


def nm_def(t, cut, a, q):
    on = [z3.Or(b == PERIODIC, z3.And(0 <= v, v < L)) for v, (L, b) in zip(q, dims(t))]
    return z3.And(nm_place(t, a), IMAGE(a, *q) == z3.And([valid(t, a)] + on + [AWAY(a, *q) <= cut, SITE(*q) != a]), SITE(*q) == latindex(t, q),
                  AWAY(a, *q) == dist(t, *[u - f(a) for u, f in zip(q, PLACE)]))


def image_of(a, b, d=None):
    """some image of b within the cutoff of a (that far away)"""
    return exists(NQ, z3.And([IMAGE(a, *NQ), SITE(*NQ) == b] + ([] if d is None else [AWAY(a, *NQ) == d])), [mpat(IMAGE(a, *NQ))])


def visited(a, q, ks):
    """sites and images the loops have been through when they are about to do ks (site, x, y, z; some of the inner ones not started)"""
    f = z3.BoolVal(False)
    for v, k in reversed(list(zip([a] + q, ks))):
        f = z3.Or(v < k, z3.And(v == k, f))
    return f


def neighbor_map(st):
    for cid, ty in st.ctys.items():
        if cid in st.cells and ty.n == "std::unordered_map" and ty.args[1].noref().n == "std::unordered_map":
            return st.cells[cid]
    return None


def nm_common(m):
    d = listed_dist(m, NA, NB)
    return [("listed both ways", forall([NA, NB], listed(m, NA, NB) == listed(m, NB, NA))),
            ("same distance both ways", forall([NA, NB], Implies(listed(m, NA, NB), d == listed_dist(m, NB, NA)))),
            ("what is listed is the distance of an image", forall([NA, NB], Implies(listed(m, NA, NB), z3.Or(image_of(NA, NB, d), image_of(NB, NA, d)))))]


def nm_inv(c, eng, st, ks):
    m = neighbor_map(st)
    if m is None or len(ks) > 4:
        return None
    t, cut = c.this, c.a(0)
    defs = [("the site at hand", nm_place(t, ks[0]), "definition")] if len(ks) == 1 else [("the image at hand", nm_def(t, cut, ks[0], ks[1:]), "definition", [SITE(*ks[1:]), AWAY(*ks), IMAGE(*ks)])] if len(ks) == 4 else []
    return [("sites seen so far", z3.And(0 <= ks[0], ks[0] <= t.length_ * t.width_ * t.height_))] + nm_common(m) + [
        ("images seen are listed, no farther than they are", forall([NA] + NQ, Implies(
            z3.And(visited(NA, NQ, ks), IMAGE(NA, *NQ)), z3.And(listed(m, NA, SITE(*NQ)), listed_dist(m, NA, SITE(*NQ)) <= AWAY(NA, *NQ))), [mpat(IMAGE(NA, *NQ))]))] + defs


def nm_hints(c):
    t, cut = c.this, c.a(0)
    n = z3.ToInt(cut / t.inter_site_distance_)
    x, y, z = z3.Ints("nm!dx nm!dy nm!dz")
    return [("the names of the contract", forall([NA] + NQ, nm_def(t, cut, NA, NQ)), "definition"),
            ("no displacement within the cutoff is longer than the loops go", forall([x, y, z], Implies(dist(t, x, y, z) <= cut, z3.And([z3.And(-n <= v, v <= n) for v in (x, y, z)]))), "local"),
            ("images are within the loops", forall([NA] + NQ, Implies(IMAGE(NA, *NQ), z3.And([z3.And(p(NA) - n <= q, q <= p(NA) + n) for p, q in zip(PLACE, NQ)])))),
            ("images are of sites", forall([NA] + NQ, Implies(IMAGE(NA, *NQ), z3.And([valid(t, NA), SITE(*NQ) != NA] +
                                                              [z3.Or(b == PERIODIC, z3.And(0 <= q, q < L)) for q, (L, b) in zip(NQ, dims(t))]))))]


def nm_ens(c):
    m = c.res.leaves
    return nm_common(m) + [
        ("exactly the sites with an image within the cutoff are listed", forall([NA, NB], listed(m, NA, NB) == z3.Or(image_of(NA, NB), image_of(NB, NA)))),
        ("no image is closer", forall([NA] + NQ, Implies(IMAGE(NA, *NQ), z3.And(listed_dist(m, NA, SITE(*NQ)) <= AWAY(NA, *NQ),
                                                                              listed_dist(m, SITE(*NQ), NA) <= AWAY(NA, *NQ))))),
        ("no site is listed for itself", forall([NA], Not(listed(m, NA, NA))))]


C("getNeighborDistances(double)const", requires=lambda c: inv(c.this) + spc(c), hints=nm_hints, loopinv=nm_inv, ensures=nm_ens, shards=4, tags=["C04"])


# ---------------------------------------------------------------- consequences
LEMMAS = []


class T:
    """a lattice with arbitrary dimensions"""
    def __init__(self):
        self.length_, self.width_, self.height_ = z3.Ints("lm!L lm!W lm!H")
        self.x_bound_, self.y_bound_, self.z_bound_ = z3.Ints("lm!bx lm!by lm!bz")
        self.inter_site_distance_ = z3.Real("lm!s")

    def hyps(self):
        return [self.length_ >= 1, self.width_ >= 1, self.height_ >= 1, self.inter_site_distance_ > 0]


def bijection():
    t = T()
    x, y, z = z3.Ints("lm!x lm!y lm!z")
    L, W, H = t.length_, t.width_, t.height_
    D = L * W
    i = index(t, x, y, z)
    s = y * L + x
    q, r = EDIV(i, D), EMOD(i, D)
    q2, r2 = EDIV(s, L), EMOD(s, L)
    return t.hyps() + [inside(t, x, y, z)], [
        ("rows fill a plane", y * L <= (W - 1) * L),
        ("offset within the plane", z3.And(s >= 0, s < D)),
        ("planes fill the lattice", z * D <= (H - 1) * D),
        ("index is valid", valid(t, i)),
        ("division", z3.And(i == D * q + r, 0 <= r, r < D)),
        ("quotient not larger", z3.Implies(q >= z + 1, D * q >= D * z + D)),
        ("quotient not smaller", z3.Implies(z >= q + 1, D * z >= D * q + D)),
        ("z is recovered", q == z),
        ("offset is recovered", r == s),
        ("row division", z3.And(s == L * q2 + r2, 0 <= r2, r2 < L)),
        ("row not larger", z3.Implies(q2 >= y + 1, L * q2 >= L * y + L)),
        ("row not smaller", z3.Implies(y >= q2 + 1, L * y >= L * q2 + L)),
        ("y is recovered", q2 == y),
        ("x is recovered", r2 == x),
        ("every position is recovered from its index", z3.And(posx(t, i) == x, posy(t, i) == y, posz(t, i) == z))]


def closest_image():
    d, k, L, m = z3.Ints("lm!d lm!k lm!L lm!m")
    a = zmin(zabs(d), L - zabs(d))
    return [L >= 1, zabs(d) < L], [
        ("shifting up", z3.Implies(k >= 1, k * L >= L)),
        ("shifting down", z3.Implies(k <= -1, k * L <= -L)),
        ("not shifting", z3.Implies(k == 0, k * L == 0)),
        ("no image is closer along an axis", zabs(d + k * L) >= a),
        ("some image is that close", z3.Or(a == zabs(d), a == zabs(d + L), a == zabs(d - L))),
        ("same both ways", a == zmin(zabs(-d), L - zabs(-d)))]


def wrap_periodic():
    v, k, L = z3.Ints("lm!v lm!k lm!L")
    q, q2 = EDIV(v, L), EDIV(v + k * L, L)
    a, b = EMOD(v, L), EMOD(v + k * L, L)
    return [L >= 1], [
        ("division", z3.And(v == L * q + a, 0 <= a, a < L)),
        ("division of the shifted value", z3.And(v + k * L == L * q2 + b, 0 <= b, b < L)),
        ("not larger", z3.Implies(q2 >= q + k + 1, L * q2 >= L * (q + k) + L)),
        ("not smaller", z3.Implies(q + k >= q2 + 1, L * (q + k) >= L * q2 + L)),
        ("same quotient up to the shift", q2 == q + k),
        ("shifting by whole lattice lengths changes nothing", a == b),
        ("values on the lattice are kept", z3.Implies(z3.And(0 <= v, v < L), a == v))]


def mutual_axis():
    """along one axis: seen from the wrapped position b of an image q of a site at p, the image q2 = b + p - q wraps to p and lies as far away"""
    p, q, L, k, per = z3.Int("lm!p"), z3.Int("lm!q"), z3.Int("lm!L"), z3.Int("lm!k"), z3.Bool("lm!per")
    b = z3.If(per, EMOD(q, L), q)
    q2 = b + p - q
    k2 = EDIV(p - L * EDIV(q, L), L)
    r2 = EMOD(p - L * EDIV(q, L), L)
    return [L >= 1, 0 <= p, p < L, z3.Or(per, z3.And(0 <= q, q < L))], [
        ("division", z3.And(q == L * EDIV(q, L) + EMOD(q, L), 0 <= EMOD(q, L), EMOD(q, L) < L)),
        ("the image seen from there", z3.Implies(per, q2 == p - L * EDIV(q, L))),
        ("division of it", z3.And(p - L * EDIV(q, L) == L * k2 + r2, 0 <= r2, r2 < L)),
        ("not larger", z3.Implies(k2 + EDIV(q, L) >= 1, L * (k2 + EDIV(q, L)) >= L)),
        ("not smaller", z3.Implies(k2 + EDIV(q, L) <= -1, L * (k2 + EDIV(q, L)) <= -L)),
        ("opposite shift", k2 + EDIV(q, L) == 0),
        ("it wraps back", z3.Implies(per, EMOD(q2, L) == p)),
        ("it is an image of the site", z3.If(per, EMOD(q2, L), q2) == p),
        ("it is on the lattice", z3.Or(per, z3.And(0 <= q2, q2 < L))),
        ("the wrapped position is on the lattice", z3.And(0 <= b, b < L)),
        ("it is as far away", (q2 - b) * (q2 - b) == (q - p) * (q - p))]


LEMMAS.append(Lemma("images are mutual along each axis", mutual_axis, ["C04"]))
LEMMAS.append(Lemma("index and position are inverse", bijection, ["C01", "C04"]))
LEMMAS.append(Lemma("closest periodic image", closest_image, ["C05"]))
LEMMAS.append(Lemma("wrapping is periodic", wrap_periodic, ["C02"]))
