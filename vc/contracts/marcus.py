"""Marcus rate."""
import z3
from contract import Contract, Lemma
from terms import *

Q = "mythical::charge_transport::Marcus::"
CONTRACTS, LEMMAS = [], []
KB, HBAR = z3.RealVal("8.617333262e-5"), z3.RealVal("6.582119569e-16")
PI_ = z3.RealVal("3.14159265359")
TOL = z3.RealVal("1e-6")


def inv(t):
    return [("positive reorganization energy", t.lambda_ > 0), ("positive exponent denominator", t.expon_denom_ > 0), ("positive prefactor", t.pre_factor_ > 0)]


def near(x, y):
    return z3.And(x - y <= TOL * y, y - x <= TOL * y)


CONTRACTS.append(Contract(
    Q + "Marcus(double,double)",
    requires=lambda c: [("positive parameters", z3.And(c.a(0) > 0, c.a(1) > 0))],
    ensures=lambda c: inv(c.new) + [
        ("reorganization energy as given", c.new.lambda_ == c.a(0)),
        ("exponent denominator is four times the product of reorganization energy and thermal energy", near(c.new.expon_denom_, 4 * KB * c.a(0) * c.a(1))),
        # (2 pi / hbar)^2 / (4 pi kB T) = pi / (hbar^2 kB T)
        ("prefactor", near(c.new.pre_factor_ * c.new.pre_factor_ * c.a(1), PI_ / (HBAR * HBAR * KB)))],
    tags=["C07"]))


def rate(t, ei, ej, h):
    d = t.lambda_ + ej - ei
    return t.pre_factor_ * h * h * EXP(-1 * (d * d) / t.expon_denom_)


CONTRACTS.append(Contract(
    Q + "getRate(double,double,double)const",
    requires=lambda c: inv(c.this),
    ensures=lambda c: [("Marcus expression", c.res == rate(c.this, c.a(0), c.a(1), c.a(2))),
                       ("never negative", c.res >= 0),
                       ("positive for a non-zero coupling", z3.Implies(c.a(2) != 0, c.res > 0)),
                       ("zero without coupling", z3.Implies(c.a(2) == 0, c.res == 0))],
    tags=["C07"]))


class M:
    def __init__(self):
        self.lambda_, self.expon_denom_, self.pre_factor_ = z3.Reals("lm!lambda lm!denom lm!pre")


def balance():
    t = M()
    ei, ej, h, kt, a, b = z3.Reals("lm!ei lm!ej lm!h lm!kt lm!a lm!b")
    f, g = rate(t, ei, ej, h), rate(t, ej, ei, h)
    x = -1 * ((t.lambda_ + ej - ei) * (t.lambda_ + ej - ei)) / t.expon_denom_
    y = -1 * ((t.lambda_ + ei - ej) * (t.lambda_ + ei - ej)) / t.expon_denom_
    de = (ei - ej) / kt
    hy = [t.lambda_ > 0, kt > 0, t.expon_denom_ == 4 * t.lambda_ * kt, t.pre_factor_ > 0,
          EXP(y + de) == EXP(y) * EXP(de)]     # the functional equation of exp, at these arguments
    return hy, [("exponents differ by the reduced energy difference", x == y + de),
                ("exponentials", EXP(x) == EXP(y) * EXP(de)),
                ("forward and backward rates are in detailed balance", f == g * EXP(de)),
                ("sign of the coupling is irrelevant", rate(t, ei, ej, -h) == f)]


LEMMAS.append(Lemma("detailed balance", balance, ["C07"]))
