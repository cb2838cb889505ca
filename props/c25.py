"""C25: Tree plots draw and label every node with its own value."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="binomial and trinomial trees n = 1..4, both styles, call and put; all real inputs, arbitrary text offsets; font sizes 7, 12, 20; digits 0..4",
              thorough="n = 1..7, trinomial n = 1..6")
OUTSIDE = "matplotlib's own drawing; axis limits"
ASSUMPTIONS = ["matplotlib.pyplot draws what plot() and annotate() are given (the calls are recorded)"]


def ints(W, xs):
    out = []
    for x in W.np.asarray(xs).ravel().tolist() if not isinstance(xs, (list, tuple)) else xs:
        out.append(int(x) if not hasattr(x, "t") else int(x.t.args[0]))
    return out


def h_plot(W, name, n, z, type, custom):
    W.record_plots()
    C = cls(W, SHORT[name])
    p = inputs(W, TREE)
    tri = name == "TrinomialTreeOption"
    o = C(*p.values(), type, n)
    kw, size, digits = {}, 12, 2
    if custom:
        dx, dy = W.real("dx", -0.5, 0.5), W.real("dy", -0.5, 0.5)
        size, digits = custom
        kw = dict(dx=dx, dy=dy, size=size, digits=digits, figsize=(n, 7), dpi=31)
    if z > 0 and not custom:
        fig = o.plot()
    else:
        fig = o.plot(call=z > 0, **kw)
    tree = o.call(tree=True) if z > 0 else o.put(tree=True)
    W.check("returns the figure", fig == "figure")
    figs = W.notes("plt.figure")
    W.check("one figure", len(figs) == 1)
    if custom and figs:
        W.check("figure options", figs[0][1].get("figsize") == (n, 7) and figs[0][1].get("dpi") == 31)
    levels = (lambda k: range(-k, k + 1)) if tri else (lambda k: range(-k, k + 1, 2))
    steps = (1, 0, -1) if tri else (1, -1)
    nodes = {(k, y) for k in range(n + 1) for y in levels(k)}
    edges = {frozenset({(k, y), (k + 1, y + s)}) for k in range(n) for y in levels(k) for s in steps}
    drawn = set()
    for a, k in W.notes("plt.plot"):
        xs, ys = ints(W, a[0]), ints(W, a[1])
        W.check("coordinates", len(xs) == len(ys))
        pts = list(zip(xs, ys))
        drawn |= {frozenset({u, v}) for u, v in zip(pts, pts[1:])}
    W.check("every node connected to its successors", edges <= drawn)
    W.check("no other connection", drawn <= edges)
    seen = set()
    off = None
    for a, k in W.notes("plt.annotate"):
        k = dict(k)
        for key, v in zip(("text", "xy", "xytext"), a):
            k[key] = v
        x, y = ints(W, list(k["xy"]))
        W.check(f"annotated place {x},{y} is a node", (x, y) in nodes)
        if (x, y) not in nodes:
            continue
        seen.add((x, y))
        val = tree[n - y][x] if tri else tree[(x - y) // 2][x]
        W.eq(f"value at {x},{y}", k["text"], round(val, digits))
        W.check("font size", k.get("fontsize") == size)
        tx, ty = k["xytext"]
        if custom:
            W.eq(f"text offset x {x},{y}", tx, x + dx)
            W.eq(f"text offset y {x},{y}", ty, y + dy)
        else:
            off = off or (tx - x, ty - y)
            W.check(f"same offset {x},{y}", abs(float(tx - x - off[0])) < 1e-9 and abs(float(ty - y - off[1])) < 1e-9)
    W.check("every node labelled", seen == nodes)
    for nm in ("xlabel", "ylabel"):
        W.check(nm + " font size", all(k.get("fontsize") == size for a, k in W.notes("plt." + nm)))


def CASES(tier):
    out = []
    q = tier == "quick"
    sizes = [(7, 3), (20, 4), (12, 0), (12, 1)]
    for name in LATTICES:
        N = 4 if q else (6 if name.startswith("Tri") else 7)
        for n in range(1, N + 1):
            for z in (1, -1):
                for type in ("european", "american"):
                    for c in (None, sizes[n % 4]):
                        out.append(dict(name=f"{name}-{n}-{'call' if z > 0 else 'put'}-{type}{'-custom' if c else ''}", harness="h_plot",
                                        params=dict(name=name, n=n, z=z, type=type, custom=c), weight=n))
    return out
