"""C12: The spread approximation is Kirk's formula with exact limits and parity."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="unbounded: all real inputs at once (S1, S2, Q1, Q2, t, sigma1, sigma2 > 0, K >= 0, -1 < rho < 1)", thorough="as quick")
OUTSIDE = "rounding; the accuracy of N (its own property)"
ASSUMPTIONS = []
CLS = SHORT["SpreadApproxOption"]


def build(W, p, how):
    C = cls(W, CLS)
    if how == "keyword":
        return C(**p)
    if how == "changed":
        q = dict(p, S1=W.pos("S1x", 60, 150), sigma2=W.pos("sigma2x", 0.1, 0.6), t=W.pos("tx", 0.1, 1))
        o = C(**q)
        for k in ("S1", "sigma2", "t"):
            o.set_param(k, p[k])
        return o
    return C(*p.values())


def kirk(W, p):
    B = p["Q2"] * p["S2"] * W.exp((p["b2"] - p["r"]) * p["t"])
    X = p["K"] * W.exp(-p["r"] * p["t"])
    A = p["Q1"] * p["S1"] * W.exp((p["b1"] - p["r"]) * p["t"])
    F = B / (B + X)
    v = W.sqrt(p["sigma1"] ** 2 + (p["sigma2"] * F) ** 2 - 2 * p["rho"] * p["sigma1"] * p["sigma2"] * F) * W.sqrt(p["t"])
    d1 = W.log(A / (B + X)) / v + v / 2
    return A, B + X, d1, d1 - v


def h_kirk(W, how, **over):
    p = constrain(W, CLS, inputs(W, KIRK, **over))
    o = build(W, p, how)
    A, Y, d1, d2 = kirk(W, p)
    c, q = o.call(), o.put()
    W.eq("call", c, A * W.Phi(d1) - Y * W.Phi(d2), tol=1e-8)
    W.eq("put", q, Y * W.Phi(-d2) - A * W.Phi(-d1), tol=1e-8)
    W.eq("parity", c - q, A - p["Q2"] * p["S2"] * W.exp((p["b2"] - p["r"]) * p["t"]) - p["K"] * W.exp(-p["r"] * p["t"]), tol=1e-8)


def h_default(W):
    """Weights default to one."""
    p = constrain(W, CLS, inputs(W, KIRK, Q1=1, Q2=1))
    q = {k: v for k, v in p.items() if k not in ("Q1", "Q2")}
    for o in (cls(W, CLS)(**q), cls(W, CLS)(*q.values())):
        A, Y, d1, d2 = kirk(W, p)
        W.eq("call", o.call(), A * W.Phi(d1) - Y * W.Phi(d2), tol=1e-8)
        W.eq("put", o.put(), Y * W.Phi(-d2) - A * W.Phi(-d1), tol=1e-8)


def h_margrabe(W):
    p = constrain(W, CLS, inputs(W, KIRK, K=0))
    A = p["Q1"] * p["S1"] * W.exp((p["b1"] - p["r"]) * p["t"])
    B = p["Q2"] * p["S2"] * W.exp((p["b2"] - p["r"]) * p["t"])
    v = W.sqrt((p["sigma1"] ** 2 + p["sigma2"] ** 2 - 2 * p["rho"] * p["sigma1"] * p["sigma2"]) * p["t"])
    d1 = (W.log(p["Q1"] * p["S1"] / (p["Q2"] * p["S2"])) + (p["b1"] - p["b2"]) * p["t"]) / v + v / 2
    o = build(W, p, "keyword")
    W.eq("exchange call", o.call(), A * W.Phi(d1) - B * W.Phi(d1 - v), tol=1e-8)
    W.eq("exchange put", o.put(), B * W.Phi(v - d1) - A * W.Phi(-d1), tol=1e-8)
    # exchanging the assets exchanges call and put
    sw = dict(p, S1=p["S2"], S2=p["S1"], b1=p["b2"], b2=p["b1"], sigma1=p["sigma2"], sigma2=p["sigma1"], Q1=p["Q2"], Q2=p["Q1"])
    W.eq("assets exchanged", o.put(), build(W, sw, "positional").call(), tol=1e-8)


def h_single(W):
    p = constrain(W, CLS, inputs(W, KIRK, Q2=0))
    o = build(W, p, "keyword")
    g = W.fo.GBSOption(p["Q1"] * p["S1"], p["K"], p["t"], p["r"], p["b1"], p["sigma1"])
    W.eq("call of the first leg", o.call(), g.call(), tol=1e-8)
    W.eq("put of the first leg", o.put(), g.put(), tol=1e-8)
    a = (p["Q1"] * p["S1"], p["K"], p["t"], p["r"], p["b1"], p["sigma1"])
    W.eq("call formula", o.call(), gbs(W, *a), tol=1e-8)
    W.eq("put formula", o.put(), gbs(W, *a, call=False), tol=1e-8)


def h_variance(W):
    """The composite variance is positive, so the price is defined, for every correlation inside (-1, 1)."""
    p = constrain(W, CLS, inputs(W, KIRK))
    B, X = W.pos("B", 1, 100), W.pos("X", 1, 100)
    F = B / (B + X)
    W.lt("variance", 0, p["sigma1"] ** 2 + (p["sigma2"] * F) ** 2 - 2 * p["rho"] * p["sigma1"] * p["sigma2"] * F)


def CASES(tier):
    return [dict(name=f"kirk-{h}", harness="h_kirk", params=dict(how=h)) for h in ("keyword", "positional", "changed")] + \
        [dict(name="default-weights", harness="h_default"), dict(name="margrabe", harness="h_margrabe"), dict(name="single-leg", harness="h_single"),
         dict(name="variance", harness="h_variance")]
