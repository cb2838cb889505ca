"""C20: Monte Carlo paths and payoffs follow their definitions."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="1 to 5 paths of 1 to 5 steps", thorough="1 to 8 paths of 1 to 8 steps")
OUTSIDE = "more paths or steps; rounding; overflow of the exponential"
ASSUMPTIONS = []
PAY = dict(S=("p", 80, 120), K=("p", 80, 120), t=("p", 0.2, 2), r=("r", -0.05, 0.15), b=("r", -0.1, 0.15), sigma=("p", 0.1, 0.6))
CLS = ("PlainVanillaPayoff", "ArithmeticAsianPayoff")


def mc(W):
    return W.fo.monte_carlo_options


def matrix(W, m, n, name="e", lo=-1.5, hi=1.5):
    return [[W.real(f"{name}{i}_{j}", lo, hi) for j in range(n)] for i in range(m)]


def table(W, rows):
    """m x n array of numbers."""
    return W.np.array(rows) if not W.symbolic else W.arr(rows)


def same_table(W, label, a, rows, tol=1e-9):
    W.same(label + " shape", tuple(int(k) for k in a.shape), (len(rows), len(rows[0])))
    for i, row in enumerate(rows):
        for j, x in enumerate(row):
            W.eq(f"{label} {i},{j}", a[i, j], x, tol=tol)


def h_path(W, m, n, how):
    e = matrix(W, m, n)
    s, dt, b = W.pos("sigma", 0.1, 0.6), W.pos("dt", 0.01, 0.5), W.real("b", -0.1, 0.2)
    eps = table(W, e)
    C = mc(W).WienerPath
    o = C(eps, s, dt, b) if how == "positional" else C(epsilon=eps, sigma=s, dt=dt, b=b)
    ref = [[(b - s * s / 2) * dt + s * W.sqrt(dt) * x for x in row] for row in e]
    same_table(W, "increments", o.generate_path(), ref)
    same_table(W, "second call", o.generate_path(), ref)
    same_table(W, "innovations kept", eps, e)


def terminal(W, name, p, row):
    s, prices = 0, []
    for x in row:
        s = s + x
        prices.append(p["S"] * W.exp(s))
    return prices[-1] if name == "PlainVanillaPayoff" else sum(prices, 0) / len(prices)


def h_payoff(W, name, m, n, how):
    """Any path object: the payoff only sees its log increments."""
    p = inputs(W, PAY)
    x = matrix(W, m, n, "x", -0.3, 0.3)
    arr = table(W, x)

    class P:
        def generate_path(self, **kw):
            return arr

    C = getattr(mc(W), name)
    o = C(P(), *p.values()) if how == "positional" else C(path=P(), **p)
    c, q = o.call(), o.put()
    W.same("one call value per path", tuple(int(k) for k in c.shape), (m,))
    W.same("one put value per path", tuple(int(k) for k in q.shape), (m,))
    D = W.exp(-p["r"] * p["t"])
    for i in range(m):
        A = terminal(W, name, p, x[i])
        W.eq(f"call {i}", c[i], D * W.max(A - p["K"], 0), tol=1e-9)
        W.eq(f"put {i}", q[i], D * W.max(p["K"] - A, 0), tol=1e-9)
        W.eq(f"parity {i}", c[i] - q[i], D * (A - p["K"]), tol=1e-9)
    same_table(W, "path kept", arr, x)


def h_full(W, name, m, n):
    """Payoff over the library's own path class."""
    p = inputs(W, PAY)
    e = matrix(W, m, n)
    dt = p["t"] / n
    path = mc(W).WienerPath(table(W, e), p["sigma"], dt, p["b"])
    x = [[(p["b"] - p["sigma"] ** 2 / 2) * dt + p["sigma"] * W.sqrt(dt) * v for v in row] for row in e]
    o = getattr(mc(W), name)(path, *p.values())
    c, q = o.call(), o.put()
    D = W.exp(-p["r"] * p["t"])
    for i in range(m):
        A = terminal(W, name, p, x[i])
        W.eq(f"call {i}", c[i], D * W.max(A - p["K"], 0), tol=1e-9)
        W.eq(f"put {i}", q[i], D * W.max(p["K"] - A, 0), tol=1e-9)


def CASES(tier):
    k = 5 if tier == "quick" else 8
    out = []
    for m in range(1, k + 1):
        for n in range(1, k + 1):
            for how in ("positional", "keyword"):
                out.append(dict(name=f"path-{m}x{n}-{how}", harness="h_path", params=dict(m=m, n=n, how=how)))
                for c in CLS:
                    out.append(dict(name=f"{c}-{m}x{n}-{how}", harness="h_payoff", params=dict(name=c, m=m, n=n, how=how)))
            for c in CLS:
                out.append(dict(name=f"full-{c}-{m}x{n}", harness="h_full", params=dict(name=c, m=m, n=n)))
    return out
