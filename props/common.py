"""Inputs, constructors and reference formulas shared by the property harnesses (run in both worlds)."""

# name -> (kind, lo, hi); kind p: positive, r: any real. The ranges only steer sampling, the solver sees the kind.
GBS = dict(S=("p", 80, 125), K=("p", 80, 125), t=("p", 0.25, 2.0), r=("r", -0.05, 0.15), b=("r", -0.1, 0.15), sigma=("p", 0.2, 0.6))
B76 = dict(FT=("p", 80, 125), K=("p", 80, 125), t=("p", 0.25, 2.0), r=("r", -0.05, 0.15), sigma=("p", 0.2, 0.6))
MS = dict(Pt=("p", 0.8, 1.0), FT=("p", 60, 120), K=("p", 60, 120), t=("p", 0.1, 1.0), T=("p", 1.0, 2.0), sigmaS=("p", 0.1, 0.5),
          sigmaE=("p", 0.1, 0.4), sigmaF=("p", 0.005, 0.05), rhoSE=("r", -0.5, 0.5), rhoSF=("r", -0.5, 0.5), rhoEF=("r", -0.5, 0.5),
          KappaE=("p", 0.5, 1.5), KappaF=("p", 0.1, 0.4))
AM = dict(S=("p", 80, 125), K=("p", 80, 125), t=("p", 0.25, 2.0), r=("p", 0.02, 0.15), b=("r", -0.1, 0.15), sigma=("p", 0.15, 0.6))
RGW = dict(S=("p", 60, 150), K=("p", 60, 150), t=("p", 0.5, 1.0), td=("p", 0.1, 0.4), r=("r", 0.01, 0.15), D=("p", 1, 10), sigma=("p", 0.2, 0.6))
KIRK = dict(S1=("p", 60, 150), S2=("p", 60, 150), K=("p", 1, 20), t=("p", 0.1, 2.0), r=("r", -0.05, 0.15), b1=("r", -0.1, 0.15),
            b2=("r", -0.1, 0.15), sigma1=("p", 0.1, 0.6), sigma2=("p", 0.1, 0.6), rho=("r", -0.8, 0.8), Q1=("p", 0.5, 2), Q2=("p", 0.5, 2))
TREE = dict(S=("p", 60, 150), K=("p", 60, 150), t=("p", 0.1, 1.0), r=("r", -0.05, 0.15), b=("r", -0.1, 0.15), sigma=("p", 0.2, 0.6))
SPR = dict(S1=("p", 60, 150), S2=("p", 60, 150), K=("p", 1, 50), t=("p", 0.1, 1.0), r=("r", -0.05, 0.15), b1=("r", -0.1, 0.15),
           b2=("r", -0.1, 0.15), sigma1=("p", 0.1, 0.6), sigma2=("p", 0.1, 0.6), rho=("r", -0.8, 0.8), Q1=("p", 0.5, 2), Q2=("p", 0.5, 2))
SPRALL = dict(S1=SPR["S1"], S2=SPR["S2"], t=SPR["t"], r=SPR["r"], b1=SPR["b1"], b2=SPR["b2"], sigma1=SPR["sigma1"],
              sigma2=SPR["sigma2"], rho=SPR["rho"], K=SPR["K"], K2=("p", 1, 50), Q1=SPR["Q1"], Q2=SPR["Q2"])
HN = dict(S=("p", 60, 150), K=("p", 60, 150))

# class path -> (inputs, fixed keyword arguments)
CLASSES = {
    "GBSOption": (GBS, {}),
    "BlackScholesOption": (GBS, {}),
    "Black76Option": (B76, {}),
    "MiltersenSchwartzOption": (MS, {}),
    "basic_american_options.RollGeskeWhaleyOption": (RGW, {}),
    "basic_american_options.BAWAmericanApproxOption": (AM, {}),
    "basic_american_options.BSAmericanApproxOption": (AM, {}),
    "binomial_tree_options.CRRBinomialTreeOption": (TREE, dict(type="european", n=2)),
    "binomial_tree_options.JRBinomialTreeOption": (TREE, dict(type="american", n=2)),
    "binomial_tree_options.TIANBinomialTreeOption": (TREE, dict(type="american", n=2)),
    "binomial_tree_options.TrinomialTreeOption": (TREE, dict(type="european", n=2)),
    "spread_options.SpreadApproxOption": (KIRK, {}),
    "spread_options.BionomialSpreadAllTypes": (SPRALL, dict(option=4, otype="american", n=1)),
    "spread_options.BionomialMaxOption": (SPR, dict(otype="american", n=1)),
    "spread_options.BionomialMinOption": (SPR, dict(otype="european", n=1)),
    "spread_options.BionomialSpreadOption": (SPR, dict(otype="european", n=1)),
}
SHORT = {k.split(".")[-1]: k for k in CLASSES}


def cls(W, path):
    o = W.fo
    for p in path.split("."):
        o = getattr(o, p)
    return o


def val(W, name, spec, suffix=""):
    k, lo, hi = spec
    return W.pos(name + suffix, lo, hi) if k == "p" else W.real(name + suffix, lo, hi)


def inputs(W, table, suffix="", **over):
    return {n: (over[n] if n in over else val(W, n, s, suffix)) for n, s in table.items()}


def constrain(W, path, p):
    """Documented preconditions of the class."""
    if path.endswith("MiltersenSchwartzOption"):
        W.assume(p["t"] <= p["T"])
    if path.endswith("RollGeskeWhaleyOption"):
        W.assume(p["td"] < p["t"])
        W.assume(p["D"] * W.exp(-p["r"] * p["td"]) < p["S"])
    if "rho" in p and "S1" in p:
        W.assume(p["rho"] < 1)
        W.assume(-1 < p["rho"])
    return p


def d12(W, S, K, t, b, sigma):
    v = sigma * W.sqrt(t)
    d1 = (W.log(S / K) + (b + sigma * sigma / 2) * t) / v
    return d1, d1 - v


def gbs(W, S, K, t, r, b, sigma, call=True):
    d1, d2 = d12(W, S, K, t, b, sigma)
    if call:
        return S * W.exp((b - r) * t) * W.Phi(d1) - K * W.exp(-r * t) * W.Phi(d2)
    return K * W.exp(-r * t) * W.Phi(-d2) - S * W.exp((b - r) * t) * W.Phi(-d1)


# ---- one-asset lattices: the documented factors and probabilities
BIN = ("CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption")
LATTICES = BIN + ("TrinomialTreeOption",)


class Lattice:
    """Reference lattice. moves: probabilities of (up, [middle,] down); node(k, j): asset price after k steps and j downs
    (binomial) or at level j = -k..k counted from the top down (trinomial)."""

    def __init__(self, W, name, p, n):
        self.W, self.name, self.p, self.n = W, name, p, n
        S, t, r, b, s = (p[k] for k in ("S", "t", "r", "b", "sigma"))
        dt = self.dt = t / n
        self.tri = name == "TrinomialTreeOption"
        if name == "CRRBinomialTreeOption":
            self.u = W.exp(s * W.sqrt(dt))
            self.d = W.exp(-s * W.sqrt(dt))
        elif name == "JRBinomialTreeOption":
            self.u = W.exp((b - s * s / 2) * dt + s * W.sqrt(dt))
            self.d = W.exp((b - s * s / 2) * dt - s * W.sqrt(dt))
        elif name == "TIANBinomialTreeOption":
            M, V = W.exp(b * dt), W.exp(s * s * dt)
            root = W.sqrt(V * V + 2 * V - 3)
            self.u, self.d = M * V / 2 * (V + 1 + root), M * V / 2 * (V + 1 - root)
        else:
            self.u = W.exp(s * W.sqrt(2 * dt))
            self.d = W.exp(-s * W.sqrt(2 * dt))
        self.Df = W.exp(-r * dt)
        if self.tri:
            h = W.exp(s * W.sqrt(dt / 2))
            m = W.exp(b * dt / 2)
            pu, pd = ((m - 1 / h) / (h - 1 / h)) ** 2, ((h - m) / (h - 1 / h)) ** 2
            self.moves = [pu, 1 - pu - pd, pd]
        else:
            q = 0.5 if name == "JRBinomialTreeOption" else (W.exp(b * dt) - self.d) / (self.u - self.d)
            self.moves = [q, 1 - q]
        self.growth = (self.u + self.d) / 2 if name == "JRBinomialTreeOption" else W.exp(b * dt)

    def levels(self, k):
        return range(2 * k + 1) if self.tri else range(k + 1)

    def node(self, k, j):
        """Asset price after k steps at row j from the top."""
        if self.tri:
            e = k - j
            return self.p["S"] * (self.u**e if e >= 0 else self.d ** (-e))
        return self.p["S"] * self.u ** (k - j) * self.d**j

    def intrinsic(self, k, j, z):
        return z * (self.node(k, j) - self.p["K"])

    def payoff(self, k, j, z):
        return self.W.max(self.intrinsic(k, j, z), 0)

    def cont(self, row, j):
        """Discounted expected continuation from the next column's values."""
        return self.Df * sum((q * row[j + i] for i, q in enumerate(self.moves)), 0)

    def at(self, tree, k, j):
        """Documented place of node (k, j) in a returned tree."""
        return tree[self.n - k + j][k] if self.tri else tree[j][k]
