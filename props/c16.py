"""C16: The Roll-Geske-Whaley price follows its definition in every regime."""
import math
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="all real inputs; critical price search unrolled to 8 loop decisions", thorough="critical price search unrolled to 12 loop decisions")
OUTSIDE = "search paths longer than the unrolling; critical prices between S and 2e8 when S >= 5e7 (the search gives up above 1e8); rounding"
ASSUMPTIONS = ["0 < td < t, 0 < D < K, dividend-stripped spot positive, S < 1000",
               "in the critical price search the auxiliary European price is any function C of the spot with 0 <= C(x) <= x and 0 <= C(y)-C(x) <= y-x for x <= y (true of the Black-Scholes call, C01)"]
CLS = SHORT["RollGeskeWhaleyOption"]
# the search stops at widths of 1e-5, which prices of this size reach within the unrolling
TINY = dict(S=("p", 8e-6, 4e-5), K=("p", 2e-5, 9e-5), t=("p", 0.5, 1.0), td=("p", 0.1, 0.4), r=("r", 0.01, 0.15), D=("p", 1e-6, 2e-5), sigma=("p", 0.2, 0.6))


def setup(W, table, how):
    C = cls(W, CLS)
    p = constrain(W, CLS, inputs(W, table))
    W.assume(p["S"] < 1000)
    W.assume(p["D"] < p["K"])
    if how == "changed":
        q = dict(p, td=W.pos("tdx", 0.1, 0.4), sigma=W.pos("sx", 0.2, 0.6), D=W.pos("Dx", 1e-6, 2e-6))
        o = C(**q)
        for k in ("td", "sigma", "D"):
            o.set_param(k, p[k])
    else:
        o = C(*p.values()) if how == "positional" else C(**p)
    return o, p


class Euro:
    """Auxiliary European call: in symbolic runs an arbitrary function with the assumed bounds."""

    def __init__(self, W):
        self.W, self.seen = W, []

    def __call__(self, S, K, t, r, b, s):
        W = self.W
        if not W.symbolic:
            return gbs(W, S, K, t, r, b, s)
        c = W.opaque("eurocall", S, K, t, r, b, s)
        W.assume(0 <= c)
        W.assume(c <= S)
        for y, d in self.seen:
            W.assume(W.Or(S > y, W.And(0 <= d - c, d - c <= y - S)))
            W.assume(W.Or(y > S, W.And(0 <= c - d, c - d <= S - y)))
        self.seen.append((S, c))
        return c

    def of(self, o):
        q = o.get_params()
        return self(*[q[k] for k in ("S", "K", "t", "r", "b", "sigma")])


def never(W, p):
    return p["D"] <= p["K"] * (1 - W.exp(-p["r"] * (p["t"] - p["td"])))


def stripped(W, p):
    return p["S"] - p["D"] * W.exp(-p["r"] * p["td"])


def h_european(W, how):
    """Early exercise never optimal: European price on the stripped spot."""
    o, p = setup(W, RGW, how)
    W.assume(never(W, p))
    W.eq("European on stripped spot", o.call(), gbs(W, stripped(W, p), p["K"], p["t"], p["r"], p["r"], p["sigma"]), tol=1e-9)
    W.check("indicator", W.Not(bool(o.is_call_optimal())))


def h_indicator(W, how):
    o, p = setup(W, RGW, how)
    if W.truth(never(W, p)):
        W.check("never optimal", not o.is_call_optimal())
    else:
        W.check("optimal", bool(o.is_call_optimal()))


def h_formula(W, how, tiny):
    """Price at the critical ex-dividend price, which is recovered from the arguments of the bivariate distribution."""
    base = W.fo.base._Base
    real = base._CBND
    args = []

    def rec(o, a, b, rho):
        args.append((a, b, rho))
        return real(o, a, b, rho)

    W.stub(base, "_CBND", rec, both=True)
    euro = Euro(W)
    W.stub(W.fo.GBSOption, "call", lambda o: euro.of(o))
    o, p = setup(W, TINY if tiny else RGW, how)
    W.assume(W.Not(never(W, p)))
    S, K, t, td, r, D, s = (p[k] for k in RGW)
    v = o.call()
    if not args:
        W.check("formula used", False)
        return
    W.finite("price", v)
    Sx = stripped(W, p)
    vd, vt = s * W.sqrt(td), s * W.sqrt(t)
    b1 = -args[0][1]
    I = W.exp(W.log(Sx) + (r + s * s / 2) * td - b1 * vd)
    W.lt("critical price positive", 0, I)
    g = euro(I, K, t - td, r, r, s) - I - D + K
    W.le("exercise indifference", g, 1e-5, tol=1e-12)
    W.le("exercise indifference (below)", -1e-5, g, tol=1e-12)
    a1 = (W.log(Sx / K) + (r + s * s / 2) * t) / vt
    b1 = (W.log(Sx / I) + (r + s * s / 2) * td) / vd
    rho = -W.sqrt(td / t)
    M = lambda x, y: W.cbnd(x, y, rho) if W.symbolic else real(o, x, y, rho)
    W.eq("Roll-Geske-Whaley", v, Sx * W.Phi(b1) + Sx * M(a1, -b1) - K * W.exp(-r * t) * M(a1 - vt, -(b1 - vd))
         - (K - D) * W.exp(-r * td) * W.Phi(b1 - vd), tol=1e-8)
    W.check("indicator", bool(o.is_call_optimal()))


def h_beyond(W, how):
    """The critical price lies beyond 2e8: exercise is out of reach, the price is European on the stripped spot."""
    table = dict(RGW, S=("p", 5.1e7, 9.9e7), K=("p", 2e7, 9e7), D=("p", 1e6, 9e6), sigma=("p", 1.5, 3))
    euro = Euro(W)
    C = cls(W, CLS)
    p = constrain(W, CLS, inputs(W, table))
    W.stub(W.fo.GBSOption, "call", lambda o: euro.of(o))
    S, K, t, td, r, D, s = (p[k] for k in RGW)
    W.assume(D < K)
    W.assume(5e7 < S)
    W.assume(S < 1e8)
    W.assume(W.Not(never(W, p)))
    W.assume(euro(2e8, K, t - td, r, r, s) - 2e8 - D + K > 0)
    o = C(*p.values()) if how == "positional" else C(**p)
    W.eq("European on stripped spot", o.call(), euro(stripped(W, p), K, t, r, r, s), tol=1e-9)


def h_terminates(W, S0, most):
    """With the root bracketed in [0, S] and S <= S0 the widths reach 1e-5 after a known number of halvings."""
    G = W.fo.GBSOption
    real = G.call
    n = []
    euro = Euro(W)

    def call(o):
        n.append(1)
        if len(n) > most:
            raise RuntimeError("the search does not end")
        return euro.of(o) if W.symbolic else real(o)

    o, p = setup(W, dict(TINY, S=("p", S0 / 3, S0), K=("p", S0 / 3, S0)), "keyword")
    S, K, t, td, r, D, s = (p[k] for k in RGW)
    W.assume(W.Not(never(W, p)))
    W.assume(S <= S0)
    W.assume(euro(S, K, t - td, r, r, s) - S - D + K <= 0)
    W.stub(G, "call", call, both=True)
    W.check("ends", W.isnum(o.call()))


def CASES(tier):
    k = 8 if tier == "quick" else 12
    S0, most = (3.2e-4, 8) if tier == "quick" else (1.28e-3, 10)  # 5 (7) halvings, the start, the upper end and one to spare
    out = [dict(name="terminates", harness="h_terminates", params=dict(S0=S0, most=most), patch_cbnd=True, maxpaths=200, val_tol=1e-4)]
    for how in ("keyword", "positional"):
        out.append(dict(name=f"beyond-{how}", harness="h_beyond", params=dict(how=how), patch_cbnd=True, maxdec=12, val_tol=1e-4))
    for how in ("keyword", "positional", "changed"):
        out.append(dict(name=f"european-{how}", harness="h_european", params=dict(how=how)))
        out.append(dict(name=f"indicator-{how}", harness="h_indicator", params=dict(how=how)))
        for tiny in (True, False):
            out.append(dict(name=f"formula-{how}{'-tiny' if tiny else ''}", harness="h_formula", params=dict(how=how, tiny=tiny), patch_cbnd=True,
                            bounded_paths=True, maxdec=k, maxpaths=200, val_tol=1e-4))
    return out
