"""C06: array inputs give, element by element, the scalar results."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="arrays of length 1, 2 and 3 with arbitrary real elements in every single parameter position, every pair of neighbouring "
                    "positions, all positions together; zero and non-zero carry mixed in one array; every price and greek method",
              thorough="as quick with every pair of positions")
OUTSIDE = "longer and multi-dimensional arrays"
ASSUMPTIONS = ["numdifftools differentiates element by element"]
NAMES = ("GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption", "SpreadApproxOption")
GREEKS = ("delta", "theta", "vega", "rho", "lamb", "gamma")
SIDED = ("delta", "theta", "rho", "lamb", "c_of_c", "greeks")


def methods(name):
    out = [("call", {}), ("put", {})]
    van = name in NAMES[:3]
    for g in GREEKS + (("c_of_c",) if van else ()) + ("greeks",):
        if name == "MiltersenSchwartzOption" and g == "rho":
            continue
        for side in ((dict(call=True), dict(call=False)) if g in SIDED else ({},)):
            for m in ((dict(method="analytic"), dict(method="fdm")) if van and g in GREEKS else ({},)):
                out.append((g, dict(side, **m)))
    return out


def elem(W, label, got, refs, tol):
    n = len(refs)
    r0 = refs[0]
    if isinstance(r0, dict):
        W.check(f"{label}: names", isinstance(got, dict) and list(got) == list(r0))
        for k in r0:
            elem(W, f"{label}[{k}]", got[k], [r[k] for r in refs], tol)
        return
    shape = (n,) + (r0.shape if isinstance(r0, W.np.ndarray) else ())
    if not isinstance(got, W.np.ndarray) or got.shape != shape:
        if n == 1 and (W.isnum(got) or got.size == max(1, r0.size if len(shape) > 1 else 1)):  # a single element counts as a number
            got = W.arr([got]) if W.isnum(got) else got.reshape(shape)
        else:
            W.check(f"{label}: shape {getattr(got, 'shape', type(got).__name__)} instead of {shape}", False)
            return
    for i, r in enumerate(refs):
        W.same(f"{label}[{i}]", got[i], r, tol=tol)


def h_elem(W, name, pars, n, zero, part):
    path = SHORT[name]
    C = cls(W, path)
    table, _ = CLASSES[path]
    p = inputs(W, table)
    if zero == "all":
        p["b"] = 0
    rows = [dict(p) for _ in range(n)]
    cols = {}
    for q in pars:
        xs = [val(W, q, table[q], f"_{i}") for i in range(n)]
        if q == "b" and zero == "mixed":
            xs[n // 2] = 0.0
        if q == "b" and zero == "all":
            xs = [0.0] * n
        cols[q] = W.arr(xs)
        for r, x in zip(rows, xs):
            r[q] = x
    for r in rows:
        constrain(W, path, r)
    o = C(**dict(p, **cols))
    scal = [C(**r) for r in rows]
    for m, kw in methods(name):
        fdm = kw.get("method") == "fdm" or name in NAMES[3:] and m in GREEKS + ("greeks",)
        if (part == "fdm") != fdm:
            continue
        if m == "rho" and kw.get("method") == "fdm" and not (zero == "all" or name == "Black76Option"):
            continue
        refs = [getattr(s, m)(**kw) for s in scal]
        got, err = W.attempt(lambda: getattr(o, m)(**kw))
        label = f"{m}({', '.join(f'{a}={b}' for a, b in kw.items())})"
        if err is not None:
            W.check(f"{label}: {type(err).__name__}: {str(err)[:80]}", False)
            continue
        elem(W, label, got, refs, 1e-9 if not fdm else 1e-4)


def CASES(tier):
    out = []
    for name in NAMES:
        ps = list(CLASSES[SHORT[name]][0])
        sel = [[q] for q in ps]
        pairs = [[a, b] for i, a in enumerate(ps) for j, b in enumerate(ps) if i < j]
        sel += pairs if tier != "quick" else [[a, ps[(i + 1) % len(ps)]] for i, a in enumerate(ps)]
        sel += [ps]
        for s in sel:
            for zero in (("no", "mixed", "all") if name in NAMES[:2] and ("b" in s) else ("no", "all") if name in NAMES[:2] else ("no",)):
                for part in ("plain", "fdm"):
                    for n in ((1, 2, 3) if len(s) == 1 else (3,)):
                        if zero != "no" and n == 1 or part == "fdm" and n == 2 or n == 1 and name == "MiltersenSchwartzOption":
                            continue
                        out.append(dict(name=f"{name}-{'all' if s == ps else '-'.join(s)}-{n}-b{zero}-{part}", harness="h_elem", weight=n * (2 if part == "fdm" else 1),
                                        params=dict(name=name, pars=s, n=n, zero=zero, part=part), samples=2, val_tol=1e-3))
    return out
