"""C14: The Barone-Adesi-Whaley price follows its definition on both sides."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="price pieces: all real inputs and every value of the critical price; critical price: seed and up to 1 Newton step, all real inputs",
              thorough="as quick with up to 2 Newton steps")
OUTSIDE = "convergence (termination) of the Newton iteration beyond the unrolled steps; sign of the put premium for b > r; rounding"
ASSUMPTIONS = ["r > 0"]
CLS = SHORT["BAWAmericanApproxOption"]


def terms(W, p, call):
    """Q and the discount factor of the carry."""
    n = 2 * p["b"] / p["sigma"] ** 2
    X = 2 * p["r"] / (p["sigma"] ** 2 * (1 - W.exp(-p["r"] * p["t"])))
    root = W.sqrt((n - 1) ** 2 + 4 * X)
    Q = ((1 - n) + root) / 2 if call else ((1 - n) - root) / 2
    return Q, W.exp((p["b"] - p["r"]) * p["t"]), n, X


def premium(W, p, Sk, call):
    """A with price = European + A (S/Sk)^Q."""
    Q, e, n, X = terms(W, p, call)
    d1 = (W.log(Sk / p["K"]) + (p["b"] + p["sigma"] ** 2 / 2) * p["t"]) / (p["sigma"] * W.sqrt(p["t"]))
    return (Sk / Q) * (1 - e * W.Phi(d1)) if call else -(Sk / Q) * (1 - e * W.Phi(-d1)), Q


def stub(W):
    """The critical prices stand for any positive number."""
    C = cls(W, CLS)
    W.stub(C, "_bawKc", lambda o: W.pos("Sc", 90, 300), both=True)
    W.stub(C, "_bawKp", lambda o: W.pos("Sp", 30, 110), both=True)
    return C


def h_price(W, call, how):
    C = stub(W)
    p = inputs(W, AM)
    if how == "changed":
        q = dict(p, b=W.real("bx", -0.1, 0.15), sigma=W.pos("sx", 0.15, 0.6))
        o = C(**q)
        o.set_param("b", p["b"])
        o.set_param("sigma", p["sigma"])
    else:
        o = C(*p.values()) if how == "positional" else C(**p)
    v = o.call() if call else o.put()
    eu = gbs(W, *[p[k] for k in ("S", "K", "t", "r", "b", "sigma")], call=call)
    if call and W.truth(p["b"] >= p["r"]):
        W.eq("European call", v, eu, tol=1e-8)
        return
    Sk = o._bawKc() if call else o._bawKp()
    A, Q = premium(W, p, Sk, call)
    if call:
        if W.truth(p["S"] < Sk):
            W.eq("European plus premium", v, eu + A * W.exp(Q * W.log(p["S"] / Sk)), tol=1e-7)
        else:
            W.eq("intrinsic value", v, p["S"] - p["K"], tol=1e-8)
    elif W.truth(p["S"] > Sk):
        W.eq("European plus premium", v, eu + A * W.exp(Q * W.log(p["S"] / Sk)), tol=1e-7)
    else:
        W.eq("intrinsic value", v, p["K"] - p["S"], tol=1e-8)


def h_matching(W, call):
    """The critical price satisfies the value-matching equation to a millionth of the strike."""
    C = cls(W, CLS)
    p = inputs(W, AM)
    if call:
        W.assume(p["b"] < p["r"])
    o = C(**p)
    Sk = o._bawKc() if call else o._bawKp()
    A, Q = premium(W, p, Sk, call)
    eu = gbs(W, *[p[k] if k != "S" else Sk for k in ("S", "K", "t", "r", "b", "sigma")], call=call)
    gap = (Sk - p["K"] if call else p["K"] - Sk) - eu - A
    W.le("value matching", W.abs(gap) / p["K"], 1e-6, tol=1e-8)


def h_premium(W, call):
    """The premium is not negative (call: b < r; put: b <= r)."""
    C = stub(W)
    r, g = W.pos("r", 0.02, 0.15), W.real("gap", 0.001, 0.1)
    W.assume(0 < g if call else 0 <= g)
    p = inputs(W, AM, r=r, b=r - g)
    o = C(**p)
    Sk = o._bawKc() if call else o._bawKp()
    if not W.truth(p["S"] < Sk if call else p["S"] > Sk):
        return
    Q, e, n, X = terms(W, p, call)
    d1 = (W.log(Sk / p["K"]) + (p["b"] + p["sigma"] ** 2 / 2) * p["t"]) / (p["sigma"] * W.sqrt(p["t"]))
    N = W.Phi(d1 if call else -d1)
    W.lt("discounting", W.exp(-p["r"] * p["t"]), 1, lemma="disc", uses=[])
    W.le("carry", e, 1, lemma="carry", uses=[])
    W.lt("X", 0, X, lemma="X", uses=["disc"])
    if call:
        W.lt("exponent", 0, Q, lemma="Q", uses=["X"])
    else:
        W.lt("exponent", Q, 0, lemma="Q", uses=["X"])
    W.le("exercise gain", e * N, 1, lemma="N", uses=["carry"])
    A, Q = premium(W, p, Sk, call)
    W.le("coefficient", 0, A, lemma="A", uses=["Q", "N"])
    v = o.call() if call else o.put()
    eu = gbs(W, *[p[k] for k in ("S", "K", "t", "r", "b", "sigma")], call=call)
    W.le("premium not negative", 0, A * W.exp(Q * W.log(p["S"] / Sk)), uses=["A"], tol=1e-7)
    W.eq("premium", v - eu, A * W.exp(Q * W.log(p["S"] / Sk)), tol=1e-7)


def h_seed(W, call):
    """The starting value lies between the strike and the perpetual limit, so the iteration starts in the domain of log."""
    C = cls(W, CLS)
    g = W.pos("gap", 0.01, 0.4)
    b = W.real("b", -0.4, 0.1) if call else W.real("b", -0.1, 0.4)
    r = b + g if call else W.pos("r", 0.01, 0.1)
    p = inputs(W, dict(AM, sigma=("p", 0.06, 0.4)), b=b, r=r)
    W.assume(0 < r)
    o = C(**p)
    at = W.mark()
    Sk = o._bawKc() if call else o._bawKp()
    W.lt("critical price positive", 0, Sk, at=at)


def CASES(tier):
    it = 1 if tier == "quick" else 2
    out = []
    for call in (True, False):
        s = "call" if call else "put"
        for how in ("keyword", "positional", "changed"):
            out.append(dict(name=f"{s}-{how}", harness="h_price", params=dict(call=call, how=how), val_tol=1e-6))
        out.append(dict(name=f"{s}-matching", harness="h_matching", params=dict(call=call), bounded_paths=True, nofeas=True, maxdec=it + 1, maxpaths=12))
        out.append(dict(name=f"{s}-premium", harness="h_premium", params=dict(call=call)))
        out.append(dict(name=f"{s}-seed", harness="h_seed", params=dict(call=call), bounded_paths=True, nofeas=True, maxdec=1, maxpaths=8))
    return out
