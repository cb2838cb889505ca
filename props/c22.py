"""C22: Prices are homogeneous and depend on time and rates only as products."""
from .common import *  # noqa: F401,F403
from .c20 import PAY, mc, table, matrix

BOUNDS = dict(quick="all real inputs and positive scale factors; one-asset lattices n = 1..3, two-asset lattices n = 1, 2; Barone-Adesi-Whaley: every critical price proportional to the strike, and the critical price itself up to 1 Newton step; Roll-Geske-Whaley: never optimal, and the exercise formula at an arbitrary critical price; Monte Carlo one path of 2 steps",
              thorough="one-asset lattices up to n = 5, two-asset lattices up to n = 3; up to 2 Newton steps")
OUTSIDE = "more lattice steps; the critical-price search of Roll-Geske-Whaley (it has an absolute tolerance); Heston-Nandi beyond 3 days; rounding"
ASSUMPTIONS = []
MONEY = dict(S=1, K=1, FT=1, D=1, S1=1, S2=1, K2=1)
TIME = dict(t=1, td=1, T=1, r=-1, b=-1, b1=-1, b2=-1, sigma=-0.5, sigma1=-0.5, sigma2=-0.5, sigmaS=-0.5, sigmaE=-1.5, sigmaF=-1.5, KappaE=-1, KappaF=-1)
BAW, BS, RG = "BAWAmericanApproxOption", "BSAmericanApproxOption", "RollGeskeWhaleyOption"
SPREADS = ("BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption")


def scaled(W, p, kind, degree):
    """The same option in other units; d is the square root of the factor where times are scaled."""
    if kind == "money":
        c = W.pos("c", 0.3, 3)
        e = {k: MONEY.get(k, 0) for k in p}
        if degree == 0:
            e["K"] = 0
        if degree == 2:
            e["K"] = 2
        return {k: v if not e[k] else v * c ** e[k] for k, v in p.items()}, c**degree if degree else 1
    d = W.pos("d", 0.6, 1.6)
    e = {k: int(2 * TIME.get(k, 0)) for k in p}
    return {k: v if not e[k] else v * d ** e[k] if e[k] > 0 else v / d ** -e[k] for k, v in p.items()}, 1


def value(name, v):
    return v["OptionPrice"] if name == BS else v


def nan(x):
    return isinstance(x, float) and x != x


def compare(W, name, kw, p, kind, degree, sides, deltas, tol):
    q, f = scaled(W, p, kind, degree)
    C = cls(W, SHORT[name])
    a, b = C(**p, **kw), C(**q, **kw)
    for m in sides:
        x, y = getattr(a, m)(), getattr(b, m)()
        W.eq(m, value(name, y), f * value(name, x), tol=tol)
        if name == BS:
            u, v = x["TriggerPrice"], y["TriggerPrice"]
            if nan(u) or nan(v):
                W.check(m + " trigger undefined in both", nan(u) and nan(v))
            else:
                W.eq(m + " trigger", v, f * u, tol=tol)
    if deltas:
        for m in sides:
            for how in deltas:
                k = {} if how == "analytic" else dict(method="fdm") if how == "fdm" else {}
                W.eq(f"delta {m} {how}", b.delta(call=m == "call", **k), a.delta(call=m == "call", **k), tol=1e-6)


def h_scale(W, name, kw, kind, degree, deltas, tol):
    p = constrain(W, SHORT[name], inputs(W, CLASSES[SHORT[name]][0]))
    compare(W, name, kw, p, kind, degree, ("call", "put"), deltas, tol)


def h_baw(W, kind, deltas):
    C = cls(W, SHORT[BAW])
    for m, nm, lo, hi in (("_bawKc", "kc", 1.1, 2.5), ("_bawKp", "kp", 0.4, 0.9)):
        W.stub(C, m, lambda o, nm=nm, lo=lo, hi=hi: W.pos(nm, lo, hi) * o._K, both=True)
    p = inputs(W, AM)
    compare(W, BAW, {}, p, kind, 1, ("call", "put"), deltas, 1e-8)


def h_critical(W, kind, call):
    """The critical price itself, as far as its iteration is unrolled."""
    C = cls(W, SHORT[BAW])
    p = inputs(W, AM)
    if call:
        W.assume(p["b"] < p["r"])
    q, f = scaled(W, p, kind, 1)
    m = "_bawKc" if call else "_bawKp"
    x, y = getattr(C(**p), m)(), getattr(C(**q), m)()
    W.eq("critical price", y, f * x, tol=1e-7)


def h_bs(W, kind, call, branch):
    p = inputs(W, AM, b=0.0)
    g, r = W.pos("gap", 0.005, 0.1), W.pos("r", 0.02, 0.15)
    b = {"american": r - g, "european": r + g, "equal": r}[branch]
    p.update(r=r, b=b)
    compare(W, BS, {}, p, kind, 1, ("call" if call else "put",), None, 1e-7)


def h_rgw_never(W, kind):
    p = constrain(W, SHORT[RG], inputs(W, RGW))
    W.assume(p["D"] <= p["K"] * (1 - W.exp(-p["r"] * (p["t"] - p["td"]))))
    compare(W, RG, {}, p, kind, 1, ("call",), None, 1e-8)


def h_rgw(W, kind):
    """Where exercise can be optimal. The auxiliary European price stands for a function with which every spot is critical, so
    that the search ends at once (the tiny gap absorbs rounding) and its absolute tolerance does not enter."""
    D = []
    W.stub(W.fo.GBSOption, "call", lambda o: o._S + D[-1] - o._K - 1e-9 * o._K, both=True)
    p = constrain(W, SHORT[RG], inputs(W, RGW))
    W.assume(W.Not(p["D"] <= p["K"] * (1 - W.exp(-p["r"] * (p["t"] - p["td"])))))
    q, f = scaled(W, p, kind, 1)
    for v in (p, q):
        W.assume(v["S"] < 1000)
        W.assume(v["K"] < 1000)
    C = cls(W, SHORT[RG])
    out = []
    for v in (p, q):
        D.append(v["D"])
        out.append(C(**v).call())
    W.eq("call", out[1], f * out[0], tol=1e-7)


def h_mc(W, kind, name):
    p = inputs(W, PAY)
    q, f = scaled(W, p, kind, 1)
    e = table(W, matrix(W, 1, 2))
    out = []
    for v in (p, q):
        w = mc(W).WienerPath(e, v["sigma"], v["t"] / 2, v["b"])
        o = getattr(mc(W), name)(w, *v.values())
        out.append((o.call(), o.put()))
    for i, m in enumerate(("call", "put")):
        W.eq(m, out[1][i][0], f * out[0][i][0], tol=1e-9)


def h_hn(W, t):
    from .c18 import inp, make
    p = inp(W)
    c = W.pos("c", 0.5, 2)
    a, b = make(W, p, t, "keyword"), make(W, dict(p, S=p["S"] * c, K=p["K"] * c), t, "keyword")
    W.eq("call", b.call(), c * a.call(), tol=1e-5)
    W.eq("put", b.put(), c * a.put(), tol=1e-5)
    for call in (True, False):
        W.eq(f"delta {call}", b.delta(call=call), a.delta(call=call), tol=1e-4)
    W.eq("gamma", b.gamma() * c, a.gamma(), tol=1e-4)


def CASES(tier):
    big = tier == "thorough"
    out = []

    def add(nm, h, **k):
        c = dict(name=nm, harness=h, maxpaths=200, nofeas=True, merge=True)
        c.update(k)
        out.append(c)

    for t in (1, 2, 3):
        add(f"money-HestonNandi-{t}", "h_hn", params=dict(t=t), val_tol=1e-2, samples=1)
    for kind in ("money", "time"):
        for n in ("GBSOption", "BlackScholesOption", "Black76Option"):
            add(f"{kind}-{n}", "h_scale", params=dict(name=n, kw={}, kind=kind, degree=1, deltas=("analytic",), tol=1e-9))
        add(f"{kind}-MiltersenSchwartz", "h_scale", params=dict(name="MiltersenSchwartzOption", kw={}, kind=kind, degree=1, deltas=None, tol=1e-8))
        add(f"{kind}-Kirk", "h_scale", params=dict(name="SpreadApproxOption", kw={}, kind=kind, degree=1, deltas=None, tol=1e-9))
        add(f"{kind}-BAW", "h_baw", params=dict(kind=kind, deltas=None), merge=False)
        for call in (True, False):
            add(f"{kind}-BAW-critical-{'call' if call else 'put'}", "h_critical", params=dict(kind=kind, call=call), merge=False, maxdec=5 if big else 3, bounded_paths=True)
            for br in ("american", "european", "equal"):
                add(f"{kind}-BS-{'call' if call else 'put'}-{br}", "h_bs", params=dict(kind=kind, call=call, branch=br), merge=False)
        add(f"{kind}-RGW-never", "h_rgw_never", params=dict(kind=kind), merge=False)
        add(f"{kind}-RGW-exercise", "h_rgw", params=dict(kind=kind), merge=False, nofeas=False, z3_timeout=2000, patch_cbnd=True)
        for n in LATTICES:
            for st in ("european", "american"):
                for k in range(1, (6 if big else 4)):
                    add(f"{kind}-{n}-{st}-{k}", "h_scale", params=dict(name=n, kw=dict(type=st, n=k), kind=kind, degree=1, deltas=None, tol=1e-8))
        for n in SPREADS:
            for op in range(1, 10) if n == SPREADS[0] else (None,):
                deg = {8: 0, 9: 2}.get(op, 1)
                for st in ("european", "american"):
                    for k in (1, 2, 3) if big else (1, 2):
                        kw = dict(otype=st, n=k, **(dict(option=op) if op else {}))
                        add(f"{kind}-{n}-{op or ''}-{st}-{k}", "h_scale", params=dict(name=n, kw=kw, kind=kind, degree=deg, deltas=None, tol=1e-8))
        for n in ("PlainVanillaPayoff", "ArithmeticAsianPayoff"):
            add(f"{kind}-MC-{n}", "h_mc", params=dict(kind=kind, name=n))
    return out
