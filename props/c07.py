"""C07: The normal distribution functions are accurate, symmetric and monotone."""
import math
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="univariate: every real x (thirteen pieces and the tail); bivariate: all real arguments, every sign combination, -1 < rho < 1, and rho = +-1",
              thorough="as quick")
OUTSIDE = "distance of Drezner's five-point quadrature from the true bivariate distribution; rounding and underflow of the density"
ASSUMPTIONS = ["Taylor enclosures of the true density and distribution function (order 14 on pieces of length 1/2, remainder by Cramer's inequality, error allowance 1e-12)",
               "the univariate distribution inside the bivariate one satisfies N(x) + N(-x) = 1 and N(0) = 1/2 (decided in the univariate cases)"]
DEG, TOL, SLACK, TAIL = 14, 7.5e-8, 1e-12, 6.5
X = [0.24840615, 0.39233107, 0.21141819, 0.03324666, 0.00082485334]
Y = [0.10024215, 0.48281397, 1.0609498, 1.7797294, 2.6697604]


def euro(W):
    return W.fo.GBSOption(100.0, 100.0, 1.0, 0.01, 0.0, 0.2)


def taylor(c):
    """Taylor coefficients at c of the density and of the upper tail probability (exact derivatives, double precision)."""
    phi = math.exp(-c * c / 2) / math.sqrt(2 * math.pi)
    he = [1.0, c]
    for n in range(1, DEG + 1):
        he.append(c * he[n] - n * he[n - 1])
    dens = [(-1) ** n * he[n] * phi / math.factorial(n) for n in range(DEG + 1)]
    tail = [math.erfc(c / math.sqrt(2)) / 2] + [-(-1) ** (n - 1) * he[n - 1] * phi / math.factorial(n) for n in range(1, DEG + 1)]
    return dens, tail


def horner(co, u):
    v = 0.0
    for a in reversed(co):
        v = v * u + a
    return v


def h_accuracy(W, i):
    """|N(x) - true| < 7.5e-8 on the piece [i/2, (i+1)/2]."""
    lo, hi = i / 2, (i + 1) / 2
    x = W.rng("x", lo, hi)
    c = lo + 0.25
    dens, tail = taylor(c)
    e = W.ndf(x)
    p = horner(dens, x - c)
    W.assume(e <= p + SLACK)
    W.assume(p - SLACK <= e)
    v = euro(W)._CND(x)
    ref = 1 - horner(tail, x - c)
    W.le("above", v - ref, TOL - SLACK)
    W.le("below", ref - v, TOL - SLACK)


def h_tail(W):
    x = TAIL + W.pos("gap", 0, 3)
    e = W.ndf(x)
    W.assume(e <= 2.7e-10)
    W.assume(0 < e)
    v = euro(W)._CND(x)
    W.le("above", v, 1)
    W.le("below", 1 - v, TOL)


def h_symmetry(W, sign):
    x = W.pos("x", 0, 6)
    o = euro(W)
    x = -x if sign < 0 else x
    W.eq("N(x) + N(-x)", o._CND(x) + o._CND(-x), 1, tol=1e-15)
    W.assume(W.ndf(x) <= 0.3989422804014328)
    W.assume(0 < W.ndf(x))
    W.le("not negative", 0, o._CND(x))
    W.le("at most one", o._CND(x), 1)


def h_zero(W):
    o = euro(W)
    z = W.real("z", 0, 1)
    W.eq("N(0)", o._CND(z - z), 0.5)
    W.eq("N(0.0)", o._CND(0.0), 0.5)


def h_monotone(W, sign):
    """The derivative is positive on both sides of zero, and the jump at zero goes up."""
    x = W.pos("x", 0, 6)
    if sign < 0:
        x = -x
    o = euro(W)
    W.assume(0 < W.ndf(x))
    d = W.dexact(lambda y: o._CND(y), x)
    W.lt("increasing", 0, d, tol=1e-12)


def h_jump(W, sign):
    """Next to zero: not below 1/2 on the right, not above it on the left."""
    x = W.rng("x", 0, 1) * 1e-12
    x = -x if sign < 0 else x
    e = W.ndf(x)
    W.assume(e <= 0.3989422804014328)
    W.assume(0.3989422804014326 <= e)
    v = euro(W)._CND(x)
    if sign > 0:
        W.le("right of zero", 0.5, v, tol=1e-15)
    else:
        W.le("left of zero", v, 0.5, tol=1e-15)


def h_density(W):
    x = W.real("x", -5, 5)
    W.eq("density", euro(W)._NDF(x), W.exp(-x * x / 2) / W.sqrt(2 * W.pi), tol=1e-15)
    W.eq("even", euro(W)._NDF(x), euro(W)._NDF(-x))


def h_drezner(W):
    a, b, r = -W.pos("a", 0, 3), -W.pos("b", 0, 3), -W.rng("r", 0, 1)
    q = W.sqrt(2 * (1 - r * r))
    a1, b1 = a / q, b / q
    s = 0
    for i in range(5):
        for j in range(5):
            s = s + X[i] * X[j] * W.exp(a1 * (2 * Y[i] - a1) + b1 * (2 * Y[j] - b1) + 2 * r * (Y[i] - a1) * (Y[j] - b1))
    o = euro(W)
    v = o._CBND(a, b, r)
    W.eq("quadrature", v, W.sqrt(1 - r * r) / W.pi * s, tol=1e-12)
    W.eq("symmetric", v, o._CBND(b, a, r), tol=1e-12)


def base(W, opaque=True):
    """The base quadrant stands for an arbitrary symmetric function."""
    B = W.fo.base._Base
    real, depth = B._CBND, [0]

    def f(o, a, b, rho):
        if opaque and W.truth(a <= 0) and W.truth(b <= 0) and W.truth(rho <= 0):
            return W.opaque("quadrant", a, b, rho) + W.opaque("quadrant", b, a, rho)
        depth[0] += 1
        if depth[0] > 10:
            raise RecursionError("reductions do not end")
        try:
            return real(o, a, b, rho)
        finally:
            depth[0] -= 1

    W.stub(B, "_CBND", f)
    return euro(W)


def signed(W, name, s, hi):
    return 0.0 if s == 0 else s * W.rng(name, 0, hi) if name == "r" else s * W.pos(name, 0.1, hi)


def h_reflect(W, sa, sb, sr, what):
    o = base(W)
    a, b, r = signed(W, "a", sa, 3), signed(W, "b", sb, 3), signed(W, "r", sr, 1)
    if what != "symmetric" and sa * sb * sr:  # on the border between two quadrants the quadrature enters on both sides
        W.assume(W.Not(r * a == b))
        W.assume(W.Not(r * b == a))
    v, e = W.attempt(lambda: o._CBND(a, b, r))
    W.check("defined", e is None and v is not None and W.isnum(v))
    if v is None:
        return
    if what == "second":
        W.eq("second argument", v, o._CND(a) - o._CBND(a, -b, -r), tol=1e-9)
    elif what == "first":
        W.eq("first argument", v, o._CND(b) - o._CBND(-a, b, -r), tol=1e-9)
    else:
        W.eq("symmetric", v, o._CBND(b, a, r), tol=1e-9)


def h_limit(W, sa, sb, sr):
    o = base(W, opaque=False)
    a, b = signed(W, "a", sa, 3), signed(W, "b", sb, 3)
    v, e = W.attempt(lambda: o._CBND(a, b, float(sr)))
    W.check("defined", e is None and v is not None and W.isnum(v))
    if v is not None:
        W.eq("limit", v, o._CBND(a, b, sr * (1 - 1e-12)), tol=1e-9)


def CASES(tier):
    out = []

    def add(nm, h, **k):
        c = dict(name=nm, harness=h, params={}, merge=False)
        c.update(k)
        out.append(c)

    for i in range(int(2 * TAIL)):
        add(f"accuracy-{i / 2}", "h_accuracy", params=dict(i=i), patch_cnd=False)
    add("accuracy-tail", "h_tail", patch_cnd=False)
    add("zero", "h_zero", patch_cnd=False)
    add("density", "h_density", patch_cnd=False)
    for s in (1, -1):
        add(f"symmetry-{s}", "h_symmetry", params=dict(sign=s), patch_cnd=False)
        add(f"jump-{s}", "h_jump", params=dict(sign=s), patch_cnd=False)
        add(f"monotone-{s}", "h_monotone", params=dict(sign=s), patch_cnd=False)
    add("drezner", "h_drezner")
    for sa in (-1, 0, 1):
        for sb in (-1, 0, 1):
            for sr in (-1, 0, 1):
                for what in ("first", "second", "symmetric"):
                    if sr == 0 and what != "symmetric" and (sa, sb)[what == "second"] == 0:
                        continue
                    if sr == 0 and sa == sb == 0 and what != "symmetric":
                        continue
                    add(f"{what}-{sa}-{sb}-{sr}", "h_reflect", params=dict(sa=sa, sb=sb, sr=sr, what=what))
            for sr in (-1, 1):
                add(f"limit-{sa}-{sb}-{sr}", "h_limit", params=dict(sa=sa, sb=sb, sr=sr))
    return out
