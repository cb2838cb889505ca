"""C04: after parameter changes an option is indistinguishable from one constructed with those parameters."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="every class and parameter, sequences of two changes, a copy in between; all real values; lattices n = 2 "
                    "(two-asset n = 1); the price of an iterative approximation stands for any function of all numbers the object holds",
              thorough="as quick with three changes, lattices n = 3 (two-asset n = 2)")
OUTSIDE = "longer sequences"
ASSUMPTIONS = []
ITER = ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption")
STYLE = {"type": "american", "otype": "european", "option": 6, "n": 1}
DERIVED = {"GBSOption": ("delta", "vega"), "BlackScholesOption": ("theta",), "Black76Option": ("gamma",)}


def results(W, o):
    out = [o.call()]
    if hasattr(o, "put"):
        out.append(o.put())
    for m in DERIVED.get(type(o).__name__, ()):
        out.append(getattr(o, m)())
    out.append(o.theta(method="fdm") if isinstance(o, W.fo.GBSOption) else o.theta())  # differentiates copies of this object
    return out


def compare(W, label, o, ref, want, prices=True):
    got = o.get_params()
    W.check(f"{label}: parameter names", all(k in got for k in want))
    for k in want:
        W.same(f"{label}: {k}", got[k], want[k])
    if prices:
        W.same(f"{label}: prices", results(W, o), results(W, ref))


def stubs(W, C):
    n = C.__name__ if isinstance(C.__name__, str) else C
    if n in ITER:
        W.stub_price(C, (lambda v: dict(OptionPrice=v, TriggerPrice=v)) if n.startswith("BSA") else (lambda v: v))


def h_set(W, path, fixed, seq):
    C = cls(W, path)
    stubs(W, C)
    table, fx = CLASSES[path]
    kw = dict(fx, **fixed)
    p = constrain(W, path, inputs(W, table))
    cur = dict(p, **kw)
    o = C(**cur)
    compare(W, "constructed", o, None, cur, prices=False)
    cp = o.copy()
    first = dict(cur)
    for k, q in enumerate(seq):
        v = STYLE[q] if q in STYLE else val(W, q, table[q], f"_new{k}")
        if q not in STYLE:
            constrain(W, path, {a: b for a, b in dict(cur, **{q: v}).items() if a in p})
        o.set_param(q, v)
        cur[q] = v
    compare(W, "changed", o, C(**cur), cur)
    compare(W, "copy taken before", cp, C(**first), first)
    cp2 = o.copy()
    q = seq[0]
    o.set_param(q, first[q])
    back = dict(cur, **{q: first[q]})
    compare(W, "changed back", o, C(**back), back, prices=False)
    compare(W, "copy taken after", cp2, C(**cur), cur)
    cp2.set_param(q, first[q])
    compare(W, "changed copy", cp2, None, back, prices=False)
    compare(W, "original of changed copy", o, None, back, prices=False)


def h_late_sigma(W, path):
    """Volatility left undefined at construction and supplied later."""
    C = cls(W, path)
    stubs(W, C)
    table, fx = CLASSES[path]
    p = constrain(W, path, inputs(W, table))
    s = p.pop("sigma")
    o = C(**p)
    got = o.get_params()
    W.check("undefined volatility is reported", got["sigma"] is None)
    W.same("other parameters", {k: got[k] for k in p}, p)
    c = o.copy()
    q = list(p)[1]
    o.set_param(q, p[q])
    o.set_param("sigma", s)
    full = dict(p, sigma=s)
    compare(W, "volatility supplied", o, C(**full), full)
    W.check("copy still without volatility", c.get_params()["sigma"] is None)


def h_array_copy(W, name, par):
    """Array parameters are not shared between copies."""
    p = inputs(W, GBS)
    x, y, z = val(W, par, GBS[par], "_1"), val(W, par, GBS[par], "_2"), val(W, par, GBS[par], "_new")
    C = cls(W, name)
    o = C(**dict(p, **{par: W.arr([x, y])}))
    c = o.copy()
    c.get_params()[par][0] = z
    W.same("original keeps its array", o.get_params()[par], W.arr([x, y]))
    W.same("original's price", o.call(), C(**dict(p, **{par: W.arr([x, y])})).call())
    c.set_param(par, W.arr([z, z]))
    W.same("changed copy", c.call(), C(**dict(p, **{par: W.arr([z, z])})).call())
    W.same("original after change of the copy", o.put(), C(**dict(p, **{par: W.arr([x, y])})).put())


def h_positional(W, path, fixed):
    """Keyword and positional construction agree; the same value set again changes nothing."""
    C = cls(W, path)
    stubs(W, C)
    table, fx = CLASSES[path]
    kw = dict(fx, **fixed)
    p = constrain(W, path, inputs(W, table))
    a, b = C(*p.values(), **kw), C(**p, **kw)
    W.same("same parameters", a.get_params(), b.get_params())
    W.same("same prices", results(W, a), results(W, b))
    for q in p:
        b.set_param(q, p[q])
    W.same("same parameters after setting all again", a.get_params(), b.get_params())
    W.same("same prices after setting all again", results(W, a), results(W, b))


def CASES(tier):
    out = []
    thorough = tier != "quick"
    for path, (table, fx) in CLASSES.items():
        name = path.split(".")[-1]
        names = list(table) + [k for k in fx if k in STYLE]
        if "option" in fx:
            names += []
        bounded = {}
        fixed = {}
        if thorough and "n" in fx:
            fixed = dict(n=fx["n"] + 1)
        m = len(names)
        for i, q in enumerate(names):
            seq = [q, names[(i + 1) % m]] + ([names[(i + 3) % m]] if thorough else [])
            out.append(dict(name=f"{name}-{'-'.join(seq)}", harness="h_set", params=dict(path=path, fixed=fixed, seq=seq), samples=2, **bounded))
            if i % 3 == 0:
                out.append(dict(name=f"{name}-{q}-twice", harness="h_set", params=dict(path=path, fixed=fixed, seq=[q, q]), samples=2, **bounded))
        if "Spread" not in name or name == "SpreadApproxOption":
            out.append(dict(name=f"{name}-positional", harness="h_positional", params=dict(path=path, fixed=fixed), samples=2, **bounded))
        if name == "GBSOption":
            out += [dict(name=f"array-copy-{q}", harness="h_array_copy", params=dict(name=name, par=q)) for q in GBS]
        if "sigma" in table and "n" not in fx:
            out.append(dict(name=f"{name}-late-sigma", harness="h_late_sigma", params=dict(path=path), samples=2, **bounded))
    return out
