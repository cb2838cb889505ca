"""C23: Printed reports and repr state the option's true parameters and prices."""
import inspect
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="lattices of 1 and 2 steps; arrays of 2 and 7 elements; any real input; every single and the simultaneous parameter change",
              thorough="lattices of 1 to 4 steps, arrays of up to 8 elements, every option number of the two-asset tree")
OUTSIDE = "how Python itself prints a float; Heston-Nandi and Monte Carlo classes (no report)"
ASSUMPTIONS = ["the iterative American approximations are represented by an arbitrary function of the object's numbers in the symbolic run (their reports only print it)"]
AMER = ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption")
SPREADS = ("BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption")
NOSIGMA = ("GBSOption", "BlackScholesOption", "Black76Option") + AMER + LATTICES


def make(W, name):
    C = cls(W, SHORT[name])
    if name in AMER:
        W.stub_price(C, (lambda v: dict(OptionPrice=v, TriggerPrice=v * v)) if name.startswith("BSA") else (lambda v: v))
    return C


def values(W, name, suffix="", **kw):
    tab, fixed = CLASSES[SHORT[name]]
    p = inputs(W, tab, suffix)
    constrain(W, SHORT[name], p)
    return {**p, **fixed, **kw}


def show_value(W, v):
    """Arrays of more than six elements are abbreviated, to two digits."""
    if hasattr(v, "shape") and v.shape and v.shape[0] > 6:
        return W.np.array2string(v.round(2), threshold=6)
    return v


def rnd(v):
    return v.round(2) if hasattr(v, "shape") and v.shape else round(v, 6)


def lines(text):
    return [" ".join(s.split()) for s in text.split("\n") if s.strip()]


def expected(W, name, o, p, priced=True):
    """The lines the report must have for an option with the parameters p; o only supplies the title."""
    C = type(o)
    order = [k for k in inspect.signature(C.__init__).parameters if k in p]
    if name == "BionomialSpreadAllTypes":  # the two strikes are optional arguments, reported together
        order = [k for k in o.get_params() if k in p]
    show = dict(p)
    if name == "Black76Option":
        order.insert(4, "b")
        show["b"] = 0
    if name == "BlackScholesOption" and "b" not in order:
        show["b"] = o.get_params().get("b")
    out = [f"Title: {o.__title__} Valuation", "Parameters:"]
    show = {k: show_value(W, v) for k, v in show.items()}
    out += [f"{k} = {show[k]}" for k in order]
    f = C(**p)  # a fresh object, so that nothing remembered from earlier calls can enter
    if priced:
        out.append("Option Price:")
        if name.startswith("BSA"):
            for m in ("call", "put"):
                v = getattr(f, m)()
                out.append(f"{m}: {round(v['OptionPrice'], 6)}, trigger: {round(v['TriggerPrice'], 6)}")
        else:
            style = p.get("type", p.get("otype"))
            for m in ("call",) if name.startswith("Roll") else ("call", "put"):
                out.append(f"{m}{'-' + style if style else ''}: {show_value(W, rnd(getattr(f, m)()))}")
    if name.startswith("Roll"):
        yes = not W.truth(p["D"] <= p["K"] * (1 - W.exp(-p["r"] * (p["t"] - p["td"]))))
        out.append(f"Optimal to Exercise Call Option: {yes}")
    return order, show, out


def check(W, label, name, o, p, priced=True):
    order, show, exp = expected(W, name, o, p, priced)
    text = o.summary(printer=False)
    W.check(f"{label}: report is text", isinstance(text, str))
    W.same(f"{label}: report", lines(text), lines("\n".join(exp)))
    r, printed = W.stdout(lambda: o.summary())
    W.check(f"{label}: printing returns nothing", r is None)
    W.same(f"{label}: printed", printed.rstrip("\n"), text.rstrip("\n"))
    r, printed = W.stdout(lambda: o.summary(printer=True))
    W.same(f"{label}: printed on request", printed.rstrip("\n"), text.rstrip("\n"))
    r, printed = W.stdout(lambda: o.summary(printer=False))
    W.check(f"{label}: nothing printed when off", printed == "")
    W.same(f"{label}: str", str(o), text)
    W.same(f"{label}: repr", " ".join(repr(o).split()), " ".join(f"{o.__name__}({', '.join(str(show[k]) for k in order)})".split()))


def declared(W, o):
    n, t = o.__name__, o.__title__
    W.check("name and title declared", isinstance(n, str) and isinstance(t, str) and bool(n) and bool(t))


def h_report(W, name, kw):
    C = make(W, name)
    p = values(W, name, **kw)
    o = C(**p)
    declared(W, o)
    check(W, "new", name, o, p)


def h_positional(W, name, kw):
    C = make(W, name)
    p = values(W, name, **kw)
    o = C(*[p[k] for k in inspect.signature(C.__init__).parameters if k in p])
    check(W, "positional", name, o, p)


def h_changed(W, name, kw, which):
    """The report follows every parameter change."""
    C = make(W, name)
    p = values(W, name, **kw)
    o = C(**p)
    o.summary(printer=False)
    tab = CLASSES[SHORT[name]][0]
    q = dict(p)
    for k in [which] if which else list(p):
        if k in tab:
            q[k] = val(W, k, tab[k], "_new")
        elif k in ("type", "otype"):
            q[k] = "american" if p[k] == "european" else "european"
        elif k == "n":
            q[k] = p[k] + 1
        elif k == "option":
            q[k] = p[k] % 9 + 1
    if "rho" in q:
        W.assume(q["rho"] < 1)
        W.assume(-1 < q["rho"])
    constrain(W, SHORT[name], q)
    for k in q:
        if q[k] is not p[k]:
            o.set_param(k, q[k])
    check(W, "changed", name, o, q)


def h_nosigma(W, name, how, kw):
    """Without volatility there are no prices, but the parameters are still reported."""
    C = cls(W, SHORT[name])
    p = values(W, name, **kw)
    if how == "removed":
        o = C(**p)
        o.set_param("sigma", None)
        p["sigma"] = None
    elif how == "omitted":
        q = dict(p)
        del q["sigma"]
        o = C(**q)
        p["sigma"] = None
    else:
        p["sigma"] = None
        o = C(**p)
    check(W, how, name, o, p, priced=False)


def h_unpriceable(W, name, kw):
    """Parameters are reported even if the prices cannot be computed."""
    C = make(W, name)
    p = values(W, name, **kw)
    check(W, "unpriceable", name, C(**p), p, priced=False)


def h_array(W, name, where, n):
    C = cls(W, SHORT[name])
    p = values(W, name)
    for k in where:
        p[k] = W.arr([p[k] + i * 0.001 for i in range(n)])
    check(W, "array", name, C(**p), p)


def CASES(tier):
    big = tier == "thorough"
    out = []

    def add(nm, h, mp=64, **k):
        out.append(dict(name=nm, harness=h, params=k, maxpaths=mp, nofeas=True, merge=True))

    for name in SHORT:
        if name in LATTICES:
            kws = [dict(type=s, n=n) for s in ("european", "american") for n in ((1, 2, 3, 4) if big else (1, 2))]
        elif name in SPREADS:
            opts = (range(1, 10) if big else (1, 4, 7)) if name == SPREADS[0] else (None,)
            kws = [dict(otype=s, n=1, **(dict(option=op) if op else {})) for s in ("european", "american") for op in opts]
        else:
            kws = [{}]
        for kw in kws:
            tag = "-".join(str(v) for v in kw.values())
            add(f"report-{name}-{tag}", "h_report", name=name, kw=kw)
        kw = kws[0]
        add(f"positional-{name}", "h_positional", name=name, kw=kw)
        allp = list(CLASSES[SHORT[name]][0]) + list(kw)
        for w in allp + [None]:
            add(f"changed-{name}-{w or 'all'}", "h_changed", name=name, kw=kw, which=w)
        for how in ("none", "removed", "omitted") if name in NOSIGMA else ():
            if how == "omitted" and name in LATTICES:
                continue
            add(f"volatility-{how}-{name}", "h_nosigma", name=name, how=how, kw=kw)
        if name in LATTICES:
            add(f"unpriceable-{name}", "h_unpriceable", name=name, kw=dict(type="bermudan", n=1))
        if name in SPREADS:
            add(f"unpriceable-{name}", "h_unpriceable", name=name, kw=dict(otype="bermudan", n=1))
        if name == SPREADS[0]:
            add(f"unpriceable-{name}-option", "h_unpriceable", name=name, kw=dict(option=12, n=1))
        if name in ("GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption", "SpreadApproxOption"):
            tab = list(CLASSES[SHORT[name]][0])
            for n in (2, 3, 7, 8) if big else (2, 7):
                for w in [(k,) for k in tab if name != "MiltersenSchwartzOption"] + [tuple(tab[:1]), tuple(tab[:2])]:
                    add(f"array-{name}-{'+'.join(w)}-{n}", "h_array", name=name, where=w, n=n)
    seen = set()
    return [c for c in out if not (c["name"] in seen or seen.add(c["name"]))]
