"""C24: Invalid requests are refused instead of priced."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="arrays of 2 elements; lattices of 1 and 2 steps; any real input, style string and option number", thorough="arrays of up to 4 elements; lattices of up to 3 steps")
OUTSIDE = "arrays with a single element; inputs outside the documented domain (negative prices, volatilities, times)"
ASSUMPTIONS = []
EURO = ("GBSOption", "BlackScholesOption", "Black76Option")
AMER = ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption")
SPREADS = ("BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption")
ANY = Exception

METHODS = {
    "call": lambda o: o.call(), "put": lambda o: o.put(), "vega": lambda o: o.vega(), "gamma": lambda o: o.gamma(),
    "vega-fdm": lambda o: o.vega(method="fdm"), "gamma-fdm": lambda o: o.gamma(method="fdm"),
}
for _m in ("delta", "theta", "rho", "lamb", "c_of_c", "greeks"):
    for _c in (True, False):
        METHODS[f"{_m}-{'call' if _c else 'put'}"] = lambda o, m=_m, c=_c: getattr(o, m)(call=c)
        if _m not in ("c_of_c", "greeks"):
            METHODS[f"{_m}-fdm-{'call' if _c else 'put'}"] = lambda o, m=_m, c=_c: getattr(o, m)(call=c, method="fdm")


def tab(name):
    return CLASSES[SHORT[name]][0]


def ok(W, label, thunk):
    v, e = W.attempt(thunk)
    W.check(f"{label} accepted", e is None)
    return v


def h_sigma(W, name, how):
    """Without volatility every price and greek is refused; the object itself, its parameters and report are not."""
    C = cls(W, SHORT[name])
    p = inputs(W, tab(name))
    x = p.pop("sigma")
    if how == "none":
        o = ok(W, "construction", lambda: C(**p, sigma=None))
    elif how == "omitted":
        o = ok(W, "construction", lambda: C(**p))
    else:  # volatility removed later
        o = C(**p, sigma=x)
        o.call()
        ok(W, "removal", lambda: o.set_param("sigma", None))
    for m, f in METHODS.items():
        W.raises(m, ValueError, lambda: f(o))
    v = ok(W, "parameters", lambda: o.get_params())
    W.check("no volatility reported", v["sigma"] is None)
    ok(W, "report", lambda: o.summary(printer=False))
    ok(W, "repr", lambda: repr(o))
    ok(W, "volatility set", lambda: o.set_param("sigma", x))
    ok(W, "priced once set", lambda: o.call())


def h_sigma_given(W, name, zero):
    """With volatility nothing is refused, except the numerical rho with a cost of carry."""
    C = cls(W, SHORT[name])
    p = inputs(W, tab(name))
    if "b" in p:
        if zero:
            p["b"] = 0.0
        else:
            W.assume(W.Not(p["b"] == 0))
    o = ok(W, "construction", lambda: C(**p))
    for m, f in METHODS.items():
        if m.startswith("rho-fdm") and not zero:
            W.raises(m, ValueError, lambda: f(o))
        else:
            ok(W, m, lambda: f(o))


def h_rho_array(W, name, n, zeros):
    """Numerical rho with arrays of carries: refused as soon as one is not zero."""
    C = cls(W, SHORT[name])
    p = inputs(W, tab(name))
    b = W.real("bx", 0.01, 0.1)
    W.assume(W.Not(b == 0))
    p["b"] = W.arr([0.0 if z else b for z in zeros])
    o = C(**p)
    for c in (True, False):
        if all(zeros):
            ok(W, f"rho {c}", lambda: o.rho(call=c, method="fdm"))
        else:
            W.raises(f"rho {c}", ValueError, lambda: o.rho(call=c, method="fdm"))


def h_array(W, name, where, n, how):
    C = cls(W, SHORT[name])
    p = inputs(W, tab(name))
    bad = dict(p)
    for k in where:
        bad[k] = W.arr([p[k] + i for i in range(n)])
    if how == "positional":
        W.raises("construction", TypeError, lambda: C(*bad.values()))
    elif how == "keyword":
        W.raises("construction", TypeError, lambda: C(**bad))
    else:
        o = ok(W, "scalars", lambda: C(**p))
        W.raises("parameter change", TypeError, lambda: o.set_param(where[0], bad[where[0]]))


def h_accept(W, name, n, how):
    """Scalars, and arrays where they are supported, are accepted."""
    C = cls(W, SHORT[name])
    p = inputs(W, tab(name))
    if how == "none":
        del p["sigma"]
        ok(W, "scalars without volatility", lambda: C(**p))
        return
    o = ok(W, "scalars", lambda: C(**p))
    if how == "array":
        for k in p:
            a = C(**dict(p, **{k: W.arr([p[k] + i * 0.001 for i in range(n)])}))
            ok(W, f"array {k}", lambda: a.call())
    else:
        for k in p:
            ok(W, f"scalar {k}", lambda: o.set_param(k, p[k]))


def style_key(name):
    return "type" if name in LATTICES else "otype"


def h_style(W, name, n, how, opt):
    """Unknown exercise styles are refused for both sides, with and without the tree."""
    C = cls(W, SHORT[name])
    p = inputs(W, tab(name))
    constrain(W, SHORT[name], p)
    if opt:
        p["option"] = opt
    key = style_key(name)
    if how in ("None", "empty", "number"):
        s = dict(None_=None, empty="", number=1)[how if how != "None" else "None_"]
    else:
        s = W.string("style", ("bermudan", "European", "american ", "x"))
        W.assume(W.Not(s == "european"))
        W.assume(W.Not(s == "american"))
    if how == "changed":
        o = C(**p, n=n, **{key: "european"})
        o.call()
        v, e = W.attempt(lambda: o.set_param(key, s))
        if e is not None:
            W.check("refused", True)
            return
    else:
        o, e = W.attempt(lambda: C(**p, n=n, **{key: s}))
        if e is not None:
            W.check("refused", True)
            return
    W.raises("call", ANY, lambda: o.call())
    W.raises("put", ANY, lambda: o.put())
    W.raises("call tree", ANY, lambda: o.call(tree=True))
    W.raises("put tree", ANY, lambda: o.put(tree=True))


def h_style_ok(W, name, n, style, opt):
    C = cls(W, SHORT[name])
    p = inputs(W, tab(name))
    constrain(W, SHORT[name], p)
    if opt:
        p["option"] = opt
    key = style_key(name)
    o = ok(W, "construction", lambda: C(**p, n=n, **{key: style}))
    for side in ("call", "put"):
        ok(W, side, lambda: getattr(o, side)())
        ok(W, side + " tree", lambda: getattr(o, side)(tree=True))


def h_option(W, n, style, how):
    """Unknown option numbers of the two-asset tree are refused."""
    C = cls(W, SHORT["BionomialSpreadAllTypes"])
    p = inputs(W, SPRALL)
    constrain(W, SHORT["BionomialSpreadAllTypes"], p)
    if how == "low":
        k = W.real("number", -5, 0.9)
        W.assume(k < 1)
    elif how == "high":
        k = 9 + W.pos("number", 0.5, 20)
    elif how == "between":
        k = W.real("number", 1.2, 8.8)
        W.assume(1 < k)
        W.assume(k < 9)
        for i in range(2, 9):
            W.assume(W.Not(k == i))
    else:
        k = dict(none=None, text="1", zero=0, ten=10)[how]
    o, e = W.attempt(lambda: C(**p, n=n, option=k, otype=style))
    if e is not None:
        W.check("refused", True)
        return
    W.raises("call", ANY, lambda: o.call())
    W.raises("put", ANY, lambda: o.put())
    W.raises("tree", ANY, lambda: o.call(tree=True))
    W.raises("put tree", ANY, lambda: o.put(tree=True))


def CASES(tier):
    big = tier == "thorough"
    out = []

    def add(nm, h, mp=64, **k):
        out.append(dict(name=nm, harness=h, params=k, maxpaths=mp))

    for c in EURO:
        for how in ("none", "omitted", "removed"):
            add(f"sigma-{c}-{how}", "h_sigma", name=c, how=how)
        for zero in (True, False):
            if c == "Black76Option" and not zero:
                continue
            add(f"given-{c}-{'zero' if zero else 'carry'}", "h_sigma_given", name=c, zero=zero)
        for n in (2,) + ((3, 4) if big else ()):
            add(f"accept-{c}-array-{n}", "h_accept", name=c, n=n, how="array")
    for c in EURO[:2]:
        for z in ((True, True), (True, False), (False, True), (False, False)) + (((True, True, False), (True, True, True)) if big else ()):
            add(f"rho-array-{c}-{'-'.join('zero' if q else 'carry' for q in z)}", "h_rho_array", name=c, n=len(z), zeros=z)
    for c in AMER:
        names = list(tab(c))
        sets = [(k,) for k in names] + [tuple(names)] + [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
        for n in (2,) + ((3, 4) if big else ()):
            for w in sets:
                for how in ("positional", "keyword") + (("changed",) if len(w) == 1 else ()):
                    add(f"array-{c}-{n}-{'+'.join(w)}-{how}", "h_array", name=c, where=w, n=n, how=how)
        for how in ("none", "scalar"):
            add(f"accept-{c}-{how}", "h_accept", name=c, n=1, how=how)
    for c in LATTICES + SPREADS:
        opts = (1, 4, 8) + ((2, 3, 5, 6, 7, 9) if big else ()) if c == "BionomialSpreadAllTypes" else (0,)
        for opt in opts:
            for n in ((1, 2) if c in LATTICES else (1,)) + ((3,) if big and c in LATTICES else ()):
                for how in ("any", "changed", "None", "empty", "number"):
                    add(f"style-{c}-{opt}-{n}-{how}", "h_style", name=c, n=n, how=how, opt=opt)
        for opt in (range(1, 10) if c == "BionomialSpreadAllTypes" else (0,)):
            for st in ("european", "american"):
                add(f"style-ok-{c}-{opt}-{st}", "h_style_ok", name=c, n=1, style=st, opt=opt)
    for st in ("european", "american"):
        for how in ("low", "high", "between", "none", "zero", "ten", "text"):
            add(f"option-{st}-{how}", "h_option", n=1, style=st, how=how)
    for c in out:  # some cases split on comparisons inside the payoff
        c["merge"] = c["harness"] in ("h_style_ok",)
    return out
