"""C10: Returned trees show each node's value in its documented place."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="binomial trees n = 1..6, trinomial n = 1..4; both exercise styles, call and put; all real inputs",
              thorough="binomial n = 1..8, trinomial n = 1..6")
OUTSIDE = "larger n (the loops are the same); rounding"
ASSUMPTIONS = ["u > d, i.e. the lattice is not degenerate"]


def h_tree(W, name, n, z, type, how):
    C = cls(W, SHORT[name])
    p = inputs(W, TREE)
    lat = Lattice(W, name, p, n)
    if how == "default":
        o = C(*p.values(), n=n)
    elif how == "positional":
        o = C(*p.values(), type, n)
    else:
        o = C(**p, type=type, n=n)
    f = o.call if z > 0 else o.put
    v = f()
    tree = f(True) if how == "positional" else f(tree=True)
    again = f(tree=False)
    shape = (2 * n + 1, n + 1) if lat.tri else (n + 1, n + 1)
    W.check("shape", tuple(tree.shape) == shape)
    if tuple(tree.shape) != shape:
        return
    inside = {(n - k + j if lat.tri else j, k) for k in range(n + 1) for j in lat.levels(k)}
    for i in range(shape[0]):
        for k in range(shape[1]):
            if (i, k) not in inside:
                W.eq(f"empty {i},{k}", tree[i][k], 0)
    W.eq("price again", again, v, tol=1e-8)
    for j in lat.levels(n):
        W.eq(f"terminal {j}", lat.at(tree, n, j), lat.payoff(n, j, z), cut=True, tol=1e-8)
    for k in range(n)[::-1]:
        nxt = [lat.at(tree, k + 1, j) for j in lat.levels(k + 1)]
        for j in lat.levels(k):
            ref = lat.cont(nxt, j)
            if type == "american":
                ref = W.max(lat.intrinsic(k, j, z), ref)
            W.eq(f"node {k},{j}", lat.at(tree, k, j), ref, cut=True, tol=1e-8)
    W.eq("root is the price", tree[n if lat.tri else 0][0], v, tol=1e-8)


def CASES(tier):
    out = []
    q = tier == "quick"
    for name in LATTICES:
        N = (4 if q else 6) if name.startswith("Tri") else (6 if q else 8)
        for n in range(1, N + 1):
            for z in (1, -1):
                for type in ("european", "american"):
                    for how in ("keyword", "positional") if n < 3 else ("keyword",):
                        out.append(dict(name=f"{name}-{n}-{'call' if z > 0 else 'put'}-{type}-{how}", harness="h_tree",
                                        params=dict(name=name, n=n, z=z, type=type, how=how), weight=n))
                out.append(dict(name=f"{name}-{n}-{'call' if z > 0 else 'put'}-default", harness="h_tree",
                                params=dict(name=name, n=n, z=z, type="european", how="default"), weight=n))
    return out
