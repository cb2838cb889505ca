"""C21: The Monte Carlo engine averages the right payoffs over the right innovations."""
import re
from .common import *  # noqa: F401,F403
from .c20 import matrix, mc, table, same_table, terminal, PAY, CLS

BOUNDS = dict(quick="1 to 3 loops of 1 to 3 paths by 1 to 3 steps; up to 2 rejected Sobol draws", thorough="up to 4 loops of 4 by 4; up to 3 rejected draws")
OUTSIDE = "statistical quality of the Sobol generator (scipy); infinite payoffs; rounding"
ASSUMPTIONS = ["the Sobol generator returns points of [0, 1] and starts its unscrambled sequence at the origin"]


class Recorder:
    """User-supplied innovation, path and payoff classes that record how they are used."""

    def __init__(self, W, loops, m, n, payoff=True):
        self.W, self.m, self.n = W, m, n
        self.draws = [matrix(W, m, n, f"e{i}_") for i in range(loops)]
        self.k, self.made, self.paths, self.pays = 0, [], [], []
        rec = self

        class Inn(mc(W).Innovations):
            def __init__(s, *a, **k):
                rec.made.append((a, k))
                super().__init__(*a, **k)

            def sample_innovation(s, *a, **k):
                rec.k += 1
                return table(W, rec.draws[rec.k - 1])

        class Path(mc(W).Path):
            def __init__(s, epsilon, sigma, dt, b):
                rec.paths.append((epsilon, sigma, dt, b))
                super().__init__(epsilon, sigma, dt, b)

            def generate_path(s, **k):
                return s.epsilon

        class Pay(mc(W).Payoff):
            def __init__(s, path, S, K, t, r, b, sigma):
                rec.pays.append([path, dict(S=S, K=K, t=t, r=r, b=b, sigma=sigma), None])
                s.i = len(rec.pays) - 1
                super().__init__(path, S, K, t, r, b, sigma)

            def val(s, side):
                rec.pays[s.i][2] = side
                rows = s.path.generate_path()
                z = 1 if side == "call" else 7
                return W.arr([z * (i + 1) * rows[i, j] for i in range(rows.shape[0]) for j in (0,)])

            def call(s):
                return s.val("call")

            def put(s):
                return s.val("put")

        self.Inn, self.Path, self.Pay = Inn, Path, Pay


def expected(W, e, anti, std):
    rows = [list(r) for r in e] + ([[-x for x in r] for r in e] if anti else [])
    if std:
        flat = [x for r in rows for x in r]
        mean = sum(flat, 0) / len(flat)
        var = sum([(x - mean) ** 2 for x in flat], 0) / len(flat)
        W.assume(var > 0)
        sd = W.sqrt(var)
        rows = [[(x - mean) / sd for x in r] for r in rows]
    return rows


def h_engine(W, loops, m, n, anti, std, call, how):
    p = inputs(W, PAY)
    R = Recorder(W, loops, m, n)
    rows = [expected(W, e, anti, std) for e in R.draws]
    base = (loops, n, m, *p.values())
    kw = dict(Innovation=R.Inn, Path=R.Path, Payoff=R.Pay)
    if how == "positional":
        o = mc(W).MonteCarloOption(*base, R.Inn, R.Path, R.Pay, False, anti, std)
    elif how == "flags":
        o = mc(W).MonteCarloOption(*base, **kw, antithetic=anti, standardization=std)
    else:
        kw.update(dict(antithetic=True) if anti else {}, **(dict(standardization=True) if std else {}))
        o = mc(W).MonteCarloOption(mc_loops=loops, path_length=n, mc_paths=m, **p, **kw)
    out = o.call() if call else o.put()
    W.same("one generator", len(R.made), 1)
    a, k = R.made[0]
    made = dict(zip(("mc_paths", "path_length", "eps"), a), **k)
    W.same("paths requested", made["mc_paths"], m)
    W.same("steps requested", made["path_length"], n)
    W.check("no innovations given", made.get("eps") is None)
    W.same("one draw per loop", R.k, loops)
    W.same("one path per loop", len(R.paths), loops)
    W.same("one payoff per loop", len(R.pays), loops)
    W.same("one result per loop", tuple(int(x) for x in out.shape), (loops,))
    for i in range(loops):
        eps, s, dt, b = R.paths[i]
        same_table(W, f"innovations of loop {i}", eps, rows[i], tol=1e-8)
        W.eq(f"sigma {i}", s, p["sigma"])
        W.eq(f"dt {i}", dt, p["t"] / n)
        W.eq(f"b {i}", b, p["b"])
        path, q, side = R.pays[i]
        W.check(f"payoff path {i}", isinstance(path, R.Path))
        for x in p:
            W.eq(f"payoff {x} {i}", q[x], p[x])
        W.same(f"side {i}", side, "call" if call else "put")
        k = len(rows[i])
        W.eq(f"mean payoff {i}", out[i], sum([(1 if call else 7) * (j + 1) * rows[i][j][0] for j in range(k)], 0) / k, tol=1e-8)
        if std:
            flat = [x for r in rows[i] for x in r]
            W.eq(f"zero mean {i}", sum(flat, 0) / len(flat), 0, tol=1e-8)
            W.eq(f"unit variance {i}", sum([x * x for x in flat], 0) / len(flat), 1, tol=1e-8)


def h_library(W, name, loops, m, n, anti, call):
    """With the library's own path and payoffs."""
    p = inputs(W, PAY)
    R = Recorder(W, loops, m, n)
    o = mc(W).MonteCarloOption(loops, n, m, **p, Innovation=R.Inn, Path=mc(W).WienerPath, Payoff=getattr(mc(W), name), antithetic=anti)
    out = o.call() if call else o.put()
    D, dt = W.exp(-p["r"] * p["t"]), p["t"] / n
    for i, e in enumerate(R.draws):
        tot, rows = 0, expected(W, e, anti, False)
        for row in rows:
            A = terminal(W, name, p, [(p["b"] - p["sigma"] ** 2 / 2) * dt + p["sigma"] * W.sqrt(dt) * v for v in row])
            tot = tot + D * W.max(A - p["K"] if call else p["K"] - A, 0)
        W.eq(f"price {i}", out[i], tot / len(rows), tol=1e-9)


def stdout_text(W, f):
    r = W.stdout(f)
    return r if isinstance(r, str) else [x for x in r if isinstance(x, str)][-1]


def h_trace(W, loops, call):
    p = inputs(W, PAY)
    mk = lambda R, **k: mc(W).MonteCarloOption(loops, 2, 2, **p, Innovation=R.Inn, Path=R.Path, Payoff=R.Pay, **k)
    R = Recorder(W, loops, 2, 2)
    box = []
    text = stdout_text(W, lambda: box.append(mk(R, trace=True).call() if call else mk(R, trace=True).put()))
    it = box[0]
    R.k = 0
    quiet = stdout_text(W, lambda: box.append(mk(R).call() if call else mk(R).put()))
    W.same("nothing printed without trace", quiet.strip(), "")
    for i in range(loops):
        W.eq(f"same result {i}", it[i], box[1][i])
    run, ref = 0, "\nMonte Carlo Simulation Path:\n\n\n\nLoop:\t No\t\n"
    for i in range(loops):
        run = run + it[i]
        ref += f"\nLoop:\t {i} \t: {it[i]} {run / (i + 1)}"
    tidy = lambda x: re.sub(r"Loop: (\d) :", lambda k: "Loop " + "abcdefghij"[int(k[1])] + " :", " ".join(x.split()))
    W.same("trace", tidy(text), tidy(ref))


def h_user_eps(W, m, n, scramble):
    """Innovations supplied by the user are used as they are."""
    e = matrix(W, m, n)
    u = [[W.rng(f"u{i}_{j}", 0, 1) for j in range(n)] for i in range(m + 1)]
    fake_sobol(W, [u] * 9, [])
    eps = table(W, e)
    S = mc(W).NormalSobolInnovations(m, n, eps)
    same_table(W, "given innovations", S.sample_innovation(scramble=scramble), e)
    p = inputs(W, PAY)
    name = CLS[0]
    o = mc(W).MonteCarloOption(2, n, m, **p, Innovation=mc(W).NormalSobolInnovations, Path=mc(W).WienerPath, Payoff=getattr(mc(W), name), eps=eps)
    a = o.call()
    D, dt = W.exp(-p["r"] * p["t"]), p["t"] / n
    tot = 0
    for row in e:
        A = terminal(W, name, p, [(p["b"] - p["sigma"] ** 2 / 2) * dt + p["sigma"] * W.sqrt(dt) * v for v in row])
        tot = tot + D * W.max(A - p["K"], 0)
    for i in range(2):
        W.eq(f"price {i}", a[i], tot / m, tol=1e-9)
    same_table(W, "innovations kept", eps, e)


def fake_sobol(W, seqs, log):
    """Generators whose points are given: the k-th scrambled one follows seqs[k]; unscrambled ones follow the origin and seqs[0]."""
    count = [0]

    class G:
        def __init__(s, d, *, scramble=True, **k):
            log.append((d, scramble))
            s.d, s.i = d, 0
            if scramble:
                s.pts = seqs[count[0]]
                count[0] += 1
            else:
                s.pts = [[0.0] * d] + list(seqs[0])

        def random(s, n=1, **k):
            r = s.pts[s.i:s.i + n]
            s.i += n
            return table(W, [list(x[:s.d]) for x in r])

        def fast_forward(s, n):
            s.i += n
            return s

        def reset(s):
            s.i = 0
            return s

    W.hook("qmc.Sobol", G)


def quantile(W, u):
    if W.symbolic:
        from symfin import shims
        return shims._Norm.ppf(u)
    from scipy.stats import norm
    return norm.ppf(u)


def h_sobol(W, m, n, scramble, rejected, where):
    """Finite quantiles, right shape, rejected draws are drawn again, the origin is left out."""
    seqs = []
    for k in range(rejected + 1):
        u = [[W.rng(f"u{k}_{i}_{j}", 0, 1) for j in range(n)] for i in range(m)]
        if k < rejected:
            i, j = dict(first=(0, 0), last=(m - 1, n - 1))[where]
            u[i][j] = float((k + (where == "last")) % 2)
        seqs.append(u)
    log = []
    fake_sobol(W, seqs if scramble else seqs[-1:], log)
    S = mc(W).NormalSobolInnovations(m, n)
    x = S.sample_innovation() if scramble else S.sample_innovation(scramble=False)
    same_table(W, "quantiles", x, [[quantile(W, v) for v in row] for row in seqs[-1]])
    for i in range(m):
        for j in range(n):
            W.finite(f"finite {i},{j}", x[i, j])
    for d, s in log:
        W.same("dimension", d, n)
        W.same("scramble", s, scramble)


def h_sobol_engine(W, loops, m, n, call):
    """The engine draws a new scrambled set in every loop."""
    p = inputs(W, PAY)
    seqs = [[[W.rng(f"u{k}_{i}_{j}", 0.1, 0.9) for j in range(n)] for i in range(m)] for k in range(loops)]
    log = []
    fake_sobol(W, seqs, log)
    R = Recorder(W, 0, m, n)
    o = mc(W).MonteCarloOption(loops, n, m, **p, Innovation=mc(W).NormalSobolInnovations, Path=R.Path, Payoff=R.Pay)
    out = o.call() if call else o.put()
    W.same("one set per loop", len(log), loops)
    for k in range(loops):
        same_table(W, f"innovations {k}", R.paths[k][0], [[quantile(W, v) for v in row] for row in seqs[k]])
        W.eq(f"mean payoff {k}", out[k], sum([(1 if call else 7) * (i + 1) * quantile(W, seqs[k][i][0]) for i in range(m)], 0) / m, tol=1e-8)


def CASES(tier):
    big = tier == "thorough"
    out = []
    add = lambda nm, h, **k: out.append(dict(name=nm, harness=h, params=k))
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)] + ([(4, 3), (3, 4), (4, 4)] if big else [])
    for m, n in sizes:
        for loops in (1, 3) if not big else (1, 2, 3, 4):
            for anti in (False, True):
                for std in (False, True):
                    if std and m * n == 1 and not anti:
                        continue
                    for call in (True, False):
                        how = ("positional", "keyword", "flags")[(m + n + anti + std + call) % 3]
                        add(f"engine-{loops}-{m}x{n}-{'anti' if anti else 'plain'}-{'std' if std else 'raw'}-{'call' if call else 'put'}", "h_engine",
                            loops=loops, m=m, n=n, anti=anti, std=std, call=call, how=how)
    for c in CLS:
        for anti in (False, True):
            for call in (True, False):
                add(f"library-{c}-{'anti' if anti else 'plain'}-{'call' if call else 'put'}", "h_library", name=c, loops=2, m=2, n=2, anti=anti, call=call)
    for loops in (1, 2, 3):
        for call in (True, False):
            add(f"trace-{loops}-{'call' if call else 'put'}", "h_trace", loops=loops, call=call)
    for m, n in ((1, 1), (2, 3), (3, 2)):
        for sc in (True, False):
            add(f"given-{m}x{n}-{sc}", "h_user_eps", m=m, n=n, scramble=sc)
    for m, n in sizes:
        add(f"sobol-plain-{m}x{n}", "h_sobol", m=m, n=n, scramble=False, rejected=0, where="first")
        for rej in (0, 1, 2) + ((3,) if big else ()):
            for where in ("first", "last") if rej else ("first",):
                add(f"sobol-scrambled-{m}x{n}-{rej}-{where}", "h_sobol", m=m, n=n, scramble=True, rejected=rej, where=where)
    for call in (True, False):
        add(f"sobol-engine-{'call' if call else 'put'}", "h_sobol_engine", loops=3, m=2, n=2, call=call)
    return out
