"""C11: Two-asset lattice prices implement every documented payoff and both styles."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="n = 1, 2 (European spread, maximum, minimum and portfolio also n = 3); nine payoffs, call and put, both styles; all real inputs",
              thorough="n = 1..3 (European n = 4 for four payoffs)")
OUTSIDE = "larger n (the loops are the same); rounding"
ASSUMPTIONS = ["-1 < rho < 1"]
GEN = "BionomialSpreadAllTypes"
DED = {1: "BionomialSpreadOption", 2: "BionomialMaxOption", 3: "BionomialMinOption"}
NEED = {1: ("K",), 2: ("K",), 3: ("K",), 4: ("K", "K2"), 5: ("K", "K2"), 6: ("K",), 7: (), 8: ("K",), 9: ("K",)}


def payoff(W, opt, z, a, b, K, K2):
    """a = Q1*S1, b = Q2*S2."""
    m = W.max
    if z > 0:
        return [None, lambda: m(0, a - b - K), lambda: m(0, m(a, b) - K), lambda: m(0, W.min(a, b) - K), lambda: m(m(0, a - K), b - K2),
                lambda: m(m(0, a - K), K2 - b), lambda: m(0, a + b - K), lambda: m(0, b - a), lambda: m(0, a / b - K), lambda: m(0, a * b - K)][opt]()
    return [None, lambda: m(0, K - (a - b)), lambda: m(0, K - m(a, b)), lambda: m(0, K - W.min(a, b)), lambda: m(m(0, K - a), K2 - b),
            lambda: m(m(0, K - a), b - K2), lambda: m(0, K - (a + b)), lambda: m(0, a - b), lambda: m(0, K - a / b), lambda: m(0, K - a * b)][opt]()


class Lattice2:
    def __init__(self, W, p, n):
        self.W, self.p, self.n = W, p, n
        dt = self.dt = p["t"] / n
        self.h = W.sqrt(dt)
        self.m1 = p["b1"] - p["sigma1"] * p["sigma1"] / 2
        self.m2 = p["b2"] - p["sigma2"] * p["sigma2"] / 2
        self.c = W.sqrt(1 - p["rho"] * p["rho"])
        self.Df = W.exp(-p["r"] * dt)

    def node(self, k, j, i):
        """Asset prices after k steps with j, i net moves x1 = 2j-k, x2 = 2i-k of the two independent factors."""
        W, p = self.W, self.p
        x1, x2 = 2 * j - k, 2 * i - k
        s1 = p["S1"] * W.exp(self.m1 * k * self.dt + p["sigma1"] * x1 * self.h)
        s2 = p["S2"] * W.exp(self.m2 * k * self.dt + p["sigma2"] * (p["rho"] * x1 + self.c * x2) * self.h)
        return s1, s2

    def price(self, f, american):
        v = {(j, i): f(*self.node(self.n, j, i)) for j in range(self.n + 1) for i in range(self.n + 1)}
        for k in range(self.n)[::-1]:
            w = {}
            for j in range(k + 1):
                for i in range(k + 1):
                    w[j, i] = self.Df * (v[j, i] + v[j + 1, i] + v[j, i + 1] + v[j + 1, i + 1]) / 4
                    if american:
                        w[j, i] = self.W.max(w[j, i], f(*self.node(k, j, i)))
            v = w
        return v[0, 0]


def setup(W, **over):
    return constrain(W, SHORT[GEN], inputs(W, SPRALL, **over))


def h_price(W, opt, z, otype, n, how):
    p = setup(W)
    lat = Lattice2(W, p, n)
    drop = [x for x in ("K", "K2") if x not in NEED[opt]]
    q = {k: v for k, v in p.items() if k not in drop} if how == "minimal" else dict(p)
    if how == "positional":
        o = cls(W, SHORT[GEN])(*q.values(), opt, otype, n)
    elif how == "minimal" and opt == 1 and otype == "european":
        o = cls(W, SHORT[GEN])(**q, n=n)
    else:
        o = cls(W, SHORT[GEN])(**q, option=opt, otype=otype, n=n)
    v = o.call() if z > 0 else o.put()
    ref = lat.price(lambda a, b: payoff(W, opt, z, p["Q1"] * a, p["Q2"] * b, p["K"], p["K2"]), otype == "american")
    W.eq("price", v, ref, tol=1e-8)


def h_dedicated(W, opt, otype, n):
    p = setup(W)
    q = {k: p[k] for k in SPR}
    g = cls(W, SHORT[GEN])(**p, option=opt, otype=otype, n=n)
    a = cls(W, SHORT[DED[opt]])(**q, otype=otype, n=n)
    b = cls(W, SHORT[DED[opt]])(*q.values(), otype, n)
    for s in ("call", "put"):
        W.eq(f"{s} by keyword", getattr(a, s)(), getattr(g, s)(), tol=1e-8)
        W.eq(f"{s} by position", getattr(b, s)(), getattr(g, s)(), tol=1e-8)
    lat = Lattice2(W, p, n)
    for s, z in (("call", 1), ("put", -1)):
        W.eq(f"{s} price", getattr(a, s)(), lat.price(lambda x, y: payoff(W, opt, z, p["Q1"] * x, p["Q2"] * y, p["K"], None), otype == "american"), tol=1e-8)


def h_defaults(W, opt):
    """Weights 1, European, five steps."""
    p = setup(W, Q1=1, Q2=1)
    C = cls(W, SHORT[GEN])
    g = C(**p, option=opt, otype="european", n=5)
    q = {k: v for k, v in p.items() if k not in ("Q1", "Q2")}
    W.eq("general class", C(**q, option=opt).call(), g.call(), tol=1e-8)
    if opt in DED:
        q.pop("K2")
        o = cls(W, SHORT[DED[opt]])(**q)
        W.eq("dedicated call", o.call(), g.call(), tol=1e-8)
        W.eq("dedicated put", o.put(), g.put(), tol=1e-8)


def h_maxmin(W, z, n):
    """Maximum plus minimum is the sum of the two single-asset options."""
    p = setup(W)
    q = {k: p[k] for k in SPR}
    f = lambda o: o.call() if z > 0 else o.put()
    two = f(cls(W, SHORT[DED[2]])(**q, otype="european", n=n)) + f(cls(W, SHORT[DED[3]])(**q, otype="european", n=n))
    C = cls(W, SHORT[GEN])
    one = f(C(**dict(p, Q2=0), option=6, n=n)) + f(C(**dict(p, Q1=0), option=6, n=n))
    W.eq("max + min", two, one, tol=1e-8)


def h_parity(W, opt, n):
    p = setup(W)
    o = cls(W, SHORT[GEN])(**p, option=opt, otype="european", n=n)
    f = {1: lambda a, b: a - b - p["K"], 2: lambda a, b: W.max(a, b) - p["K"], 3: lambda a, b: W.min(a, b) - p["K"], 6: lambda a, b: a + b - p["K"],
         7: lambda a, b: b - a, 8: lambda a, b: a / b - p["K"], 9: lambda a, b: a * b - p["K"]}[opt]
    W.eq("call - put", o.call() - o.put(), Lattice2(W, p, n).price(lambda a, b: f(p["Q1"] * a, p["Q2"] * b), False), tol=1e-8)
    if opt == 1:
        W.eq("exchange parity", o.call() - o.put(), Lattice2(W, p, n).price(lambda a, b: p["Q1"] * a, False)
             - Lattice2(W, p, n).price(lambda a, b: p["Q2"] * b, False) - p["K"] * W.exp(-p["r"] * p["t"]), tol=1e-8)


def CASES(tier):
    out = []
    q = tier == "quick"
    for opt in range(1, 10):
        for otype in ("european", "american"):
            for z in (1, -1):
                s = f"{opt}-{otype}-{'call' if z > 0 else 'put'}"
                N = [1, 2] if q else [1, 2, 3]
                if otype == "european" and opt in (1, 2, 3, 6):
                    N = N + [N[-1] + 1]
                for n in N:
                    for how in ("keyword", "positional", "minimal") if n == 1 else ("keyword",):
                        out.append(dict(name=f"{s}-{n}-{how}", harness="h_price", params=dict(opt=opt, z=z, otype=otype, n=n, how=how), weight=n * n))
            if opt in DED:
                for n in (1, 2):
                    out.append(dict(name=f"{DED[opt]}-{otype}-{n}", harness="h_dedicated", params=dict(opt=opt, otype=otype, n=n), weight=2 * n))
        out.append(dict(name=f"{opt}-defaults", harness="h_defaults", params=dict(opt=opt), weight=5))
        if opt not in (4, 5):
            for n in (1, 2):
                out.append(dict(name=f"{opt}-parity-{n}", harness="h_parity", params=dict(opt=opt, n=n), weight=n))
    for z in (1, -1):
        for n in (1,):
            out.append(dict(name=f"max-min-{'call' if z > 0 else 'put'}-{n}", harness="h_maxmin", params=dict(z=z, n=n), weight=n))
    return out
