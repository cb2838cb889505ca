"""C09: American lattice values follow the optimal exercise recursion."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="binomial lattices n = 1..6, trinomial n = 1..4 (recursion); bounds and call equality n <= 4 (trinomial 3); all real inputs",
              thorough="binomial n = 1..8, trinomial n = 1..5; bounds and call equality n <= 6 (trinomial 4)")
OUTSIDE = "larger n (the loops are the same); rounding"
ASSUMPTIONS = ["u > d, i.e. the lattice is not degenerate"]


def setup(W, name, n, **over):
    p = inputs(W, TREE, **over)
    return cls(W, SHORT[name]), p, Lattice(W, name, p, n)


def h_recursion(W, name, n, z):
    C, p, lat = setup(W, name, n)
    o = C(**p, type="american", n=n)
    v = o.call() if z > 0 else o.put()
    tree = o.call(tree=True) if z > 0 else o.put(tree=True)
    for j in lat.levels(n):
        W.eq(f"terminal {j}", lat.at(tree, n, j), lat.payoff(n, j, z), cut=True)
    for k in range(n)[::-1]:
        nxt = [lat.at(tree, k + 1, j) for j in lat.levels(k + 1)]
        for j in lat.levels(k):
            W.eq(f"node {k},{j}", lat.at(tree, k, j), W.max(lat.intrinsic(k, j, z), lat.cont(nxt, j)), cut=True, tol=1e-8)
    W.eq("price is the root", v, lat.at(tree, 0, 0), tol=1e-8)


def h_price(W, name, n, z):
    """The price alone, against the recursion written out."""
    C, p, lat = setup(W, name, n)
    o = C(*p.values(), "american", n)
    v = o.call() if z > 0 else o.put()
    row = [lat.payoff(n, j, z) for j in lat.levels(n)]
    for k in range(n)[::-1]:
        row = [W.max(lat.intrinsic(k, j, z), lat.cont(row, j)) for j in lat.levels(k)]
    W.eq("price", v, row[0], tol=1e-8)


def probabilities(W, lat):
    """Step probabilities in [0, 1]."""
    for q in lat.moves:
        W.assume(0 <= q)
        W.assume(q <= 1)


def h_bounds(W, name, n, z):
    """American >= intrinsic at the root, American >= European node by node."""
    C, p, lat = setup(W, name, n)
    probabilities(W, lat)
    am = (lambda o: o.call(tree=True) if z > 0 else o.put(tree=True))(C(**p, type="american", n=n))
    eu = (lambda o: o.call(tree=True) if z > 0 else o.put(tree=True))(C(**p, type="european", n=n))
    for j in lat.levels(n):
        W.eq(f"terminal {j}", lat.at(am, n, j), lat.at(eu, n, j))
    for k in range(n + 1)[::-1]:
        for j in lat.levels(k):
            W.le(f"intrinsic {k},{j}", lat.intrinsic(k, j, z), lat.at(am, k, j), tol=1e-8)
            W.le(f"non-negative {k},{j}", 0, lat.at(eu, k, j), lemma=f"pos{k},{j}", uses=[f"pos{k + 1},{j + i}" for i in range(3)], tol=1e-8)
            W.le(f"european {k},{j}", lat.at(eu, k, j), lat.at(am, k, j), cut=True, uses=[], tol=1e-8)


def h_call(W, name, n):
    """b >= r >= 0: early exercise of a call never pays on the CRR, Tian and trinomial lattices."""
    r, gap = W.real("r", 0, 0.08), W.real("gap", 0, 0.08)
    W.assume(r >= 0)
    W.assume(gap >= 0)
    C, p, lat = setup(W, name, n, r=r, b=r + gap)
    probabilities(W, lat)
    am = C(**p, type="american", n=n).call(tree=True)
    eu = C(**p, type="european", n=n).call(tree=True)
    K, q = p["K"], lat.moves
    dt = lat.dt
    W.le("no growth against the holder", 1, lat.Df * lat.growth, lemma="grow", uses=[], tol=1e-8)
    W.le("discount", lat.Df, 1, lemma="disc", uses=[], tol=1e-8)
    for k in range(n + 1)[::-1]:
        nxt = None if k == n else [lat.at(eu, k + 1, j) for j in lat.levels(k + 1)]
        for j in lat.levels(k):
            a, e, S, ge = lat.at(am, k, j), lat.at(eu, k, j), lat.node(k, j), f"ge{k},{j}"
            if k < n:
                m = len(q)
                for i, w in enumerate(q):
                    W.le(f"child {k},{j},{i}", w * (lat.node(k + 1, j + i) - K), w * nxt[j + i], lemma=f"c{ge},{i}", uses=[f"ge{k + 1},{j + i}"], tol=1e-8)
                W.eq(f"martingale {k},{j}", sum(w * (lat.node(k + 1, j + i) - K) for i, w in enumerate(q)), S * lat.growth - K, tol=1e-8)
                W.le(f"continuation {k},{j}", lat.Df * (S * lat.growth - K), e, lemma=f"m{ge}", uses=[f"c{ge},{i}" for i in range(m)], tol=1e-8)
                W.le(f"growth {k},{j}", S - K, lat.Df * (S * lat.growth - K), lemma=f"g{ge}", uses=["grow", "disc"], tol=1e-8)
                W.le(f"holding {k},{j}", S - K, e, lemma=ge, uses=[f"m{ge}", f"g{ge}"], tol=1e-8)
            else:
                W.le(f"holding {k},{j}", S - K, e, lemma=ge, uses=[], tol=1e-8)
            W.eq(f"american=european {k},{j}", a, e, cut=True, uses=[ge], tol=1e-8)
    W.eq("american call", am[lat.n if lat.tri else 0][0], eu[lat.n if lat.tri else 0][0], tol=1e-8)


def CASES(tier):
    out = []
    qk = tier == "quick"
    for name in LATTICES:
        tri = name.startswith("Tri")
        N = (4 if qk else 5) if tri else (6 if qk else 8)
        M = (3 if qk else 4) if tri else (4 if qk else 6)
        for n in range(1, N + 1):
            for z in (1, -1):
                s = "call" if z > 0 else "put"
                out.append(dict(name=f"{name}-{n}-{s}-recursion", harness="h_recursion", params=dict(name=name, n=n, z=z), weight=n))
                if n <= N - 2:
                    out.append(dict(name=f"{name}-{n}-{s}-price", harness="h_price", params=dict(name=name, n=n, z=z), weight=n))
                if n <= M:
                    out.append(dict(name=f"{name}-{n}-{s}-bounds", harness="h_bounds", params=dict(name=name, n=n, z=z), weight=n))
            if n <= (2 if name.startswith("TIAN") else M) and name != "JRBinomialTreeOption":
                out.append(dict(name=f"{name}-{n}-call-is-european", harness="h_call", params=dict(name=name, n=n), weight=n))
    return out
