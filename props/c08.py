"""C08: European lattice prices are the discounted risk-neutral expectation."""
import math
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="CRR, Jarrow-Rudd, Tian n = 1..10, trinomial n = 1..7; call and put; all real inputs (S, K, t, sigma > 0)",
              thorough="n = 1..16, trinomial n = 1..10")
OUTSIDE = "larger n (the loops are the same); rounding"
ASSUMPTIONS = ["u > d, i.e. the lattice is not degenerate"]


def paths(lat, n):
    """{row: number of paths weighted with probabilities} after n steps."""
    row = {0: 1}
    for k in range(n):
        nxt = {}
        for j, w in row.items():
            for i, q in enumerate(lat.moves):
                nxt[j + i] = nxt.get(j + i, 0) + w * q
        row = nxt
    return row


def h_price(W, name, n, z, how):
    C = cls(W, SHORT[name])
    p = inputs(W, TREE)
    lat = Lattice(W, name, p, n)
    if how == "default":
        o = C(*p.values(), n=n)
    elif how == "positional":
        o = C(*p.values(), "european", n)
    else:
        o = C(**p, type="european", n=n)
    v = o.call() if z > 0 else o.put()
    if lat.tri:
        w = paths(lat, n)
    else:
        q, q1 = lat.moves
        w = {j: math.comb(n, j) * q ** (n - j) * q1**j for j in range(n + 1)}
    ref = W.exp(-p["r"] * p["t"]) * sum(w[j] * lat.payoff(n, j, z) for j in w)
    W.eq("discounted expectation", v, ref, tol=1e-8)


def h_parity(W, name, n):
    C = cls(W, SHORT[name])
    p = inputs(W, TREE)
    lat = Lattice(W, name, p, n)
    o = C(**p, type="european", n=n)
    g = lat.growth**n if name == "JRBinomialTreeOption" else W.exp(p["b"] * p["t"])
    W.eq("call - put", o.call() - o.put(), W.exp(-p["r"] * p["t"]) * (p["S"] * g - p["K"]), tol=1e-8)


def h_growth(W, name):
    """The reference factors used above: probabilities sum to one and reproduce the growth factor, second moment of the
    lattice per step (volatility) where the construction matches it exactly."""
    p = inputs(W, TREE)
    lat = Lattice(W, name, p, 1)
    f = [lat.u, 1, lat.d] if lat.tri else [lat.u, lat.d]
    W.eq("probabilities", sum(lat.moves), 1)
    W.eq("growth", sum(q * x for q, x in zip(lat.moves, f)), lat.growth, tol=1e-8)
    o = cls(W, SHORT[name])(**dict(p, K=p["S"] * lat.d / 2), type="european", n=1)
    W.eq("deep in the money call", o.call(), lat.Df * (p["S"] * lat.growth - p["S"] * lat.d / 2), tol=1e-8)
    if name == "TIANBinomialTreeOption":
        V = W.exp(p["sigma"] * p["sigma"] * lat.dt)
        M = W.exp(p["b"] * lat.dt)
        W.eq("second moment", lat.moves[0] * lat.u**2 + lat.moves[1] * lat.d**2, M * M * V, tol=1e-8)


def CASES(tier):
    out = []
    q = tier == "quick"
    for name in LATTICES:
        N = (7 if q else 10) if name.startswith("Tri") else (10 if q else 16)
        for n in range(1, N + 1):
            for z in (1, -1):
                out.append(dict(name=f"{name}-{n}-{'call' if z > 0 else 'put'}", harness="h_price",
                                params=dict(name=name, n=n, z=z, how=("keyword", "default", "positional")[n % 3]), weight=n))
            out.append(dict(name=f"{name}-{n}-parity", harness="h_parity", params=dict(name=name, n=n), weight=n))
        out.append(dict(name=f"{name}-growth", harness="h_growth", params=dict(name=name)))
    return out
