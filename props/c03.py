"""C03: finite-difference greeks are the derivatives of the option's own price in the named parameter."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="every class with numerical greeks, call and put, all real inputs; lattices with n = 2 (two-asset n = 1); "
                    "iterative prices stand for an arbitrary function of the parameters",
              thorough="as quick with lattices n = 3 (two-asset n = 2)")
OUTSIDE = "accuracy of numdifftools itself (it is taken to return the derivative of the function it is given)"
ASSUMPTIONS = ["numdifftools.Derivative(f, n)(x) is the n-th derivative of f at x"]

TWO = ("SpreadApproxOption", "BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption")
TREES = ("CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption")
AMERICAN = ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption")
VAN = ("GBSOption", "BlackScholesOption", "Black76Option")
ORDER = ["delta", "theta", "vega", "rho", "lambda", "gamma"]


def setup(W, name, fixed, over):
    path = SHORT[name]
    C = cls(W, path)
    table, fx = CLASSES[path]
    p = constrain(W, path, inputs(W, table, **over))
    kw = dict(fx, **fixed)
    if name in AMERICAN:  # the price is an arbitrary function of the parameters
        wrap = (lambda v: dict(OptionPrice=v, TriggerPrice=v)) if name == "BSAmericanApproxOption" else (lambda v: v)
        for m in ("call", "put"):
            if hasattr(C, m):
                W.stub(C, m, lambda self, m=m: wrap(W.opaque("price." + m, *self.get_params().values())))
    mk = lambda **q: C(**dict(p, **kw, **q) if not q else dict(dict(p, **kw), **q))  # noqa: E731
    return C, p, mk


def price(name, o, call):
    v = o.call() if call else o.put()
    return v["OptionPrice"] if name == "BSAmericanApproxOption" else v


def h_fdm(W, name, call, via, fixed, zero_b):
    W.record_nd()
    C, p, mk = setup(W, name, fixed, dict(b=0) if zero_b else {})
    o = mk()
    und = ["S1", "S2"] if name in TWO else (["FT"] if name in ("Black76Option", "MiltersenSchwartzOption") else ["S"])
    vols = ["sigma1", "sigma2"] if name in TWO else (["sigmaS", "sigmaE", "sigmaF"] if name == "MiltersenSchwartzOption" else ["sigma"])
    base = price(name, o, call)

    def ref(par, n=1, side=call, **k):
        return W.deriv(lambda x: price(name, mk(**{par: x}), side), p[par], n, **k)

    vstep = dict(step=p["sigma"] / 10) if name in AMERICAN[1:] else {}
    exp = dict(delta=[ref(u) for u in und], gamma=[ref(u, 2, True) for u in und], theta=[-ref("t", step=1 / 252)],
               vega=[ref(v, 1, True, **vstep) for v in vols])
    exp["lambda"] = [d * p[u] / base for d, u in zip(exp["delta"], und)]
    if "r" in p:
        exp["rho"] = [ref("r")]
    n0 = len(W.notes("nd"))
    if via == "dict":
        got = o.greeks() if name == "RollGeskeWhaleyOption" else o.greeks(call=call)
        want = [g for g in ORDER if g in exp]
        W.check("greek names", sorted(got) == sorted(want))
        steps = [(None, s) for _, _, s in W.notes("nd")[n0:]]
    elif via == "GreeksFDM":
        got = W.fo.GreeksFDM(o).greeks(call)
        W.check("greek names", sorted(got) == sorted(ORDER))
        steps = [(None, s) for _, _, s in W.notes("nd")[n0:]]
    else:
        got, steps = {}, []
        for g in exp:
            m = getattr(o, "lamb" if g == "lambda" else g)
            args = [] if name == "RollGeskeWhaleyOption" or g in ("vega", "gamma") else [call]
            kw = dict(method="fdm") if name in VAN else {}
            if g == "rho" and name in VAN and not zero_b:
                continue
            n0 = len(W.notes("nd"))
            got[g] = m(*args, **kw)
            steps += [(g, s) for _, _, s in W.notes("nd")[n0:]]
    for g, es in exp.items():
        if g not in got:
            continue
        v = got[g]
        if name in TWO and g in ("delta", "gamma", "lambda", "vega"):
            ks = vols if g == "vega" else und
            W.check(f"{g} keys", sorted(v) == sorted(ks))
            v = [v[k] for k in ks]
        elif name == "MiltersenSchwartzOption" and g == "vega":
            W.check("vega shape", v.shape == (3,))
            v = list(v)
        else:
            v = [v]
        for k, (a, b) in enumerate(zip(v, es)):
            W.eq(f"{g}[{k}]", a, b, tol=1e-4 if g == "gamma" else 1e-5)
    for g, s in steps:
        if s is None:
            continue
        lim = 1 / 252
        ok = W.Or(s <= lim * (1 + 1e-9), s <= p["sigma"] / 10 * (1 + 1e-9)) if (g in (None, "vega") and "sigma" in p) else s <= lim * (1 + 1e-9)
        W.check("step at most one trading day / a tenth of the volatility", ok)


def CASES(tier):
    out = []
    n1 = 2 if tier == "quick" else 3
    for path in CLASSES:
        name = path.split(".")[-1]
        for call in (True, False):
            if name == "RollGeskeWhaleyOption" and not call:
                continue
            vias = ["method", "GreeksFDM"] if name in VAN else ["method", "dict"]
            for via in vias:
                fixes = [{}]
                if name in TREES:
                    fixes = [dict(n=n1, type="european"), dict(n=n1, type="american")]
                elif name in TWO[1:]:
                    fixes = [dict(n=n1 - 1, otype="european"), dict(n=n1 - 1, otype="american")]
                for f in fixes:
                    for zb in ((False, True) if name in VAN[:2] and via == "method" else (name == "Black76Option",)):
                        out.append(dict(name=f"{name}-{'call' if call else 'put'}-{via}-{'-'.join(map(str, f.values()))}{'-b0' if zb else ''}",
                                        harness="h_fdm", params=dict(name=name, call=call, via=via, fixed=f, zero_b=zb and name != "Black76Option"),
                                        val_tol=1e-3))
                        if name == "Black76Option":
                            out[-1]["params"]["zero_b"] = True
    return out
