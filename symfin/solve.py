"""Deciding obligations: canonical polynomials are handed to z3 (cvc5 as second solver) with the axioms of their
generators and the path condition; only `unsat` of the negated claim counts as decided."""
from fractions import Fraction as F
import math
import os
import select
import signal
import time
import z3
from . import terms as tm
from . import frac as fr
from .frac import GENS, padd, pmul, pscale
from .terms import T, C

STATS = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, cvc5=0, max_time=0.0)
TIMEOUT_MS = int(os.environ.get("SYMFIN_TIMEOUT_MS", "8000"))


def lcm(a, b):
    return a * b // math.gcd(a, b)


def clear_pair(a, b):
    """Multiply both sides by the common denominators. Returns (a', b', {gen: k}) free of negative exponents."""
    den = {}
    for _ in range(60):
        na, nb = fr.neg_sums(a), fr.neg_sums(b)
        if not na and not nb:
            break
        g = max(list(na) + list(nb))
        k = -min(na.get(g, 0), nb.get(g, 0))
        den[g] = den.get(g, 0) + k
        a, b = fr.pmul_keep(a, g, k), fr.pmul_keep(b, g, k)
    else:
        raise fr.TooBig()
    low = {}
    for p in (a, b):
        for m in p:
            for g, e in m:
                if e < low.get(g, 0):
                    low[g] = e
    if low:
        mul = {}
        for g, e in low.items():
            G = GENS[g]
            k = -e
            if G.kind == "sum":  # fractional leftovers
                a, b = fr.pmul_keep(a, g, k), fr.pmul_keep(b, g, k)
                den[g] = den.get(g, 0) + k
            else:
                mul[g] = k
                den[g] = den.get(g, 0) + k
        if mul:
            mm = {tuple(sorted(mul.items())): F(1)}
            a, b = pmul(a, mm), pmul(b, mm)
    return a, b, den


class Enc:
    """One solver query under construction."""

    def __init__(self, axioms=True, extra=0):
        self.vars = {}
        self.L = {}
        self.forms = []
        self.axioms = axioms
        self.extra = extra
        self.pending = []
        self.done = set()
        self.phis = []
        self._dens = {}
        self._keep = []

    # ---- collection: two passes (exponent denominators first, then emission)
    def scan(self, p):
        for m in p:
            for g, e in m:
                d = e.denominator if isinstance(e, F) else 1
                if g not in self.L:
                    self.L[g] = d
                    self.pending.append(g)
                else:
                    self.L[g] = lcm(self.L[g], d)

    def atom(self, kind, p, q={}):
        a, b, den = clear_pair(p, q)
        signs = []
        for g, k in den.items():
            if GENS[g].pos or (isinstance(k, F) and k.denominator > 1):
                continue
            if k % 2:
                signs.append(g)
        self.scan(a)
        self.scan(b)
        for g, k in den.items():
            self.scan({((g, k),): F(1)})
        at = (kind, a, b, tuple(signs) if kind in ("lt", "le") else (), tuple(den))
        self._dens[id(at)] = den
        self._keep.append(at)
        return at

    def cond(self, c):
        o = c.op
        if o in ("true", "false"):
            return (o,)
        if o in ("lt", "le", "eq"):
            return self.atom(o, fr.simp(fr.canon(c.args[0])), fr.simp(fr.canon(c.args[1])))
        if o == "not":
            return ("not", self.cond(c.args[0]))
        if o in ("and", "or"):
            return (o,) + tuple(self.cond(x) for x in c.args)
        if o == "sbool":
            return ("sbool", c.args[0])
        raise tm.Unsupported(o)

    def require(self, f):
        self.forms.append(f)

    # ---- generator axioms
    def gather(self):
        while self.pending:
            g = self.pending.pop()
            if g in self.done:
                continue
            self.done.add(g)
            G = GENS[g]
            k = G.kind
            if k == "sum":
                self.forms.append(("def", g, self.atom("eq", G.data)))
            elif not self.axioms:
                continue
            elif k == "exp" and not G.cplx:
                self.forms.append(("expsign", g, self.atom("lt", {G.data: F(1)})))
            elif k == "log" and not G.cplx:
                self.forms.append(self.atom("lt", {}, G.data))
                self.forms.append(("logsign", g, self.atom("lt", fr.P1, G.data)))
            elif k == "phi":
                self.forms.append(("phisign", g, self.atom("lt", G.data)))
                for h in self.phis:
                    self.forms.append(("phimono", g, h, self.atom("lt", G.data, GENS[h].data)))
                if len(self.phis) < 6:
                    self.phis.append(g)
            elif k == "pos":
                self.forms.append(("pos", g, self.atom("eq", G.data)))
            elif k == "ind":
                d = G.data
                self.forms.append(("ind", g, ("sbool", d[1]) if d[0] == "sbool" else self.atom(d[0], d[1])))

    # ---- emission
    def v(self, g):
        x = self.vars.get(g)
        if x is None:
            x = z3.Real(f"g{g}")
            self.vars[g] = x
        return x

    def gval(self, g, e=1):
        k = e * self.L[g]
        assert k == int(k) and k >= 0
        return self.v(g) ** int(k) if int(k) != 1 else self.v(g)

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            fs = [] if c == 1 and m else [z3.RealVal(str(c))]
            for g, e in m:
                k = int(e * self.L[g])
                x = self.v(g)
                if k > 60:  # a huge power (root of a long decimal exponent): any real number stands for it
                    fs.append(z3.Real(f"g{g}^{k}"))
                else:
                    fs.extend([x] * k)
            ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def emit(self, f):
        k = f[0]
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "eq":
            return self.poly(f[1]) == self.poly(f[2])
        if k == "ne":
            return self.poly(f[1]) != self.poly(f[2])
        if k in ("lt", "le"):
            a, b = self.poly(f[1]), self.poly(f[2])
            if f[3]:
                s = z3.Product(*[self.gval(g) for g in f[3]]) if len(f[3]) > 1 else self.gval(f[3][0])
                a, b = (a - b) * s, z3.RealVal(0)
            return a < b if k == "lt" else a <= b
        if k == "not":
            return z3.Not(self.emit(f[1]))
        if k == "and":
            return z3.And(*[self.emit(x) for x in f[1:]])
        if k == "or":
            return z3.Or(*[self.emit(x) for x in f[1:]])
        if k == "sbool":
            return z3.Bool("s!" + f[1])
        if k == "def":
            g, at = f[1], f[2]
            # data = 0 cleared:  a' = b'  where a = data*den; the sum itself: g * den = a'
            den = 1
            for h in at[4]:
                den = den * self.gval(h, self._den_exp(at, h))
            return self.gval(g) * den == self.poly(at[1])
        if k == "expsign":
            g, at = f[1], f[2]
            w = self.v(g)
            neg = self.emit(at)
            posi = self.emit(("lt", at[2], at[1], at[3]))
            return z3.And((w < 1) == neg, (w > 1) == posi)
        if k == "logsign":
            return (self.v(f[1]) > 0) == self.emit(f[2])
        if k == "phisign":
            w = self.v(f[1])
            at = f[2]
            h = z3.RealVal("1/2")
            return z3.And(w < 1, w > 0, (w < h) == self.emit(at), (w > h) == self.emit(("lt", at[2], at[1], at[3])))
        if k == "phimono":
            at = f[3]
            return z3.And((self.v(f[1]) < self.v(f[2])) == self.emit(at),
                          (self.v(f[1]) > self.v(f[2])) == self.emit(("lt", at[2], at[1], at[3])))
        if k == "pos":
            g, at = f[1], f[2]
            w = self.gval(g)
            ge = self.emit(("le",) + at[1:3] + (self._signs(at),))  # data <= 0
            # w*den = data when data > 0
            den = 1
            for h in at[4]:
                den = den * self.gval(h, self._den_exp(at, h))
            return z3.And(w >= 0, z3.Or(z3.And(ge, w == 0), z3.And(z3.Not(ge), w * den == self.poly(at[1]))))
        if k == "ind":
            g = f[1]
            w = self.v(g)
            c = self.emit(f[2])
            return z3.Or(z3.And(c, w == 1), z3.And(z3.Not(c), w == 0))
        raise AssertionError(k)

    def _signs(self, at):
        return tuple(h for h in at[4] if not GENS[h].pos and self._odd(at, h))

    def _odd(self, at, h):
        e = self._den_exp(at, h)
        return not (isinstance(e, F) and e.denominator > 1) and e % 2 == 1

    def _den_exp(self, at, h):
        return self._dens[id(at)][h]

    def base_axioms(self):
        out = []
        for g in sorted(self.L):
            G = GENS[g]
            if g not in self.vars:
                continue
            x = self.vars[g]
            if G.kind == "pi":
                out.append(x > z3.RealVal("3.14159") if self.L[g] == 1 else x > 1)
                if self.L[g] == 1:
                    out.append(x < z3.RealVal("3.1416"))
            elif G.kind == "prime":
                out += [x > 0, x ** self.L[g] == G.key]
            elif G.kind == "i":
                pass
            elif G.pos:
                out.append(x > 0)
            elif G.kind == "sum":
                out.append(x != 0)
                if self.L[g] > 1:
                    out.append(x > 0)
            elif self.L[g] > 1:
                out.append(x >= 0)
        return out


def run(enc, timeout=None, want_model=False):
    enc.gather()
    fs = [enc.emit(f) for f in enc.forms]
    fs += enc.base_axioms()
    timeout = timeout or TIMEOUT_MS
    t0 = time.time()
    STATS["queries"] += 1
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*fs)
    r = s.check()
    if r == z3.unknown:
        s2 = z3.Tactic("qfnra-nlsat").solver()
        s2.set("timeout", int(timeout))
        s2.add(*fs)
        r2 = s2.check()
        if r2 != z3.unknown:
            r, s = r2, s2
    res, model = str(r), None
    if r == z3.unknown and USE_CVC5:
        res = cvc5_check(s, timeout)
    if r == z3.sat and want_model:
        m = s.model()
        model = {}
        for g, x in enc.vars.items():
            if GENS[g].kind == "var":
                val = m.eval(x, model_completion=True)
                try:
                    q = val.as_fraction() if hasattr(val, "as_fraction") else None
                except Exception:
                    q = None
                if q is None:
                    try:
                        q = F(str(val.approx(12).as_fraction()))
                    except Exception:
                        continue
                model[GENS[g].key] = float(q) ** enc.L[g]
        for d in m.decls():
            if d.name().startswith("s!"):
                model[d.name()] = z3.is_true(m[d])
    dt = time.time() - t0
    STATS["time"] += dt
    STATS["max_time"] = max(STATS["max_time"], dt)
    STATS[res] = STATS.get(res, 0) + 1
    return res, model


USE_CVC5 = True


def cvc5_check(s, timeout):
    """cvc5 in a child process that is ended at the limit (its own limit is not always honoured)."""
    try:
        import cvc5
    except ImportError:
        return "unknown"
    STATS["cvc5"] += 1
    smt = "(set-logic QF_NRA)\n" + s.sexpr() + "\n(check-sat)\n"
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = "unknown"
        try:
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(int(timeout)))
            slv.setOption("nl-cov", "true")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
            sm = p.getSymbolManager()
            res = ""
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                res += cmd.invoke(slv, sm)
            if "error" not in res and res.strip() in ("sat", "unsat"):
                out = res.strip()
        except BaseException:  # noqa: BLE001
            pass
        try:
            os.write(wr, out.encode())
        finally:
            os._exit(0)
    os.close(wr)
    try:
        ready, _, _ = select.select([rd], [], [], timeout / 1000 + 2)
        out = os.read(rd, 20).decode() if ready else ""
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return out if out in ("sat", "unsat") else "unknown"


# ------------------------------------------------------------------ congruence: merge atoms whose arguments are equal
OPAQUE = ("phi", "pos", "fn", "log", "exp", "int", "deriv", "re", "sum")


def zero_test(p):
    """Is the polynomial identically 0 (modulo denominators)?"""
    try:
        a, _, _ = clear_pair(p, {})
        return not a
    except fr.TooBig:
        return False


def merge_map(polys):
    gs = {}
    for p in polys:
        for m in p:
            for g, _ in m:
                k = GENS[g].kind
                if k in ("phi", "pos", "log", "sum", "ind", "fn", "deriv", "int"):
                    gs.setdefault(k, set()).add(g)
    out = {}
    for k, s in gs.items():
        s = sorted(s)
        for i in range(len(s)):
            for j in range(i):
                if s[j] in out or s[i] in out:
                    continue
                A, B = GENS[s[i]], GENS[s[j]]
                if _same(k, A, B):
                    out[s[i]] = s[j]
    return out


def _same(k, A, B):
    if k in ("phi", "pos", "log", "sum"):
        return len(A.data) * len(B.data) < 4000 and zero_test(padd(A.data, B.data, -1))
    if k == "ind":
        return A.data[0] == B.data[0] and A.data[0] != "sbool" and zero_test(padd(A.data[1], B.data[1], -1))
    if k == "fn":
        if len(A.data) != len(B.data):
            return False
        for x, y in zip(A.data, B.data):
            if isinstance(x, dict) != isinstance(y, dict):
                return False
            if isinstance(x, dict):
                if not zero_test(padd(x, y, -1)):
                    return False
            elif x != y:
                return False
        return True
    if k == "deriv":
        a, b = A.data, B.data
        if a["n"] != b["n"] or a["bound"] != b["bound"] or not zero_test(padd(a["point"], b["point"], -1)):
            return False
        return zero_test(padd({a["mono"]: F(1)}, {b["mono"]: F(1)}, -1)) or equal_polys({a["mono"]: F(1)}, {b["mono"]: F(1)})
    if k == "int":
        return A.key[1:] == B.key[1:] and equal_polys({A.data["mono"]: F(1)}, {B.data["mono"]: F(1)})
    return False


def rename(p, mp):
    out = {}
    for m, c in p.items():
        if any(g in mp for g, _ in m):
            q = {(): c}
            for g, e in m:
                h = mp.get(g, g)
                q = pmul(q, {((h, e),): F(1)})
            out = padd(out, q)
        else:
            out = padd(out, {m: c})
    return out


def equal_polys(a, b):
    """Identity modulo denominators and congruence."""
    try:
        x, y, _ = clear_pair(a, b)
    except fr.TooBig:
        return False
    if x == y:
        return True
    for _ in range(4):
        mp = merge_map([x, y])
        if not mp:
            return False
        x, y = rename(x, mp), rename(y, mp)
        try:
            x, y, _ = clear_pair(x, y)
        except fr.TooBig:
            return False
        if x == y:
            return True
    return False


# ------------------------------------------------------------------ public entry points
def prove_eq_batch(pairs, facts=(), timeout=None):
    """All pairs equal? Level 0: one query with the disjunction of the (denominator-free) differences; pairs not
    settled this way are reported one by one. Returns list of (status, model)."""
    res = [None] * len(pairs)
    enc = Enc(axioms=False)
    hard = []
    disj = []
    for i, (l, r) in enumerate(pairs):
        if l is r:
            a = b = {((fr.gen("node", l.id).id, 1),): F(1)}
            disj.append((i, enc.atom("ne", a, b)))
            continue
        try:
            a, b = fr.simp(fr.canon(l)), fr.simp(fr.canon(r))
            x, y, _ = clear_pair(a, b)
            if x != y:
                for _ in range(4):
                    mp = merge_map([x, y])
                    if not mp:
                        break
                    x, y = rename(x, mp), rename(y, mp)
                    x, y, _ = clear_pair(x, y)
                    if x == y:
                        break
            if x == y:
                disj.append((i, enc.atom("ne", x, y)))
            else:
                hard.append((i, x, y))
        except fr.TooBig:
            hard.append((i, None, None))
    if disj:
        enc.require(("or",) + tuple(d for _, d in disj))
        r, m = run(enc, timeout)
        if r == "unsat":
            for i, _ in disj:
                res[i] = ("unsat", None)
        else:
            for i, _ in disj:
                res[i] = (r, None)
    for i, x, y in hard:
        if x is None:
            res[i] = ("unknown", None)
            STATS["unknown"] += 1
            continue
        enc = Enc()
        enc.require(enc.atom("ne", x, y))
        for f in facts:
            enc.require(enc.cond(f))
        res[i] = run(enc, timeout, want_model=True)
    return res


def prove(goal, facts=(), timeout=None):
    """Is the condition `goal` implied by the facts?  -> ('unsat' = proved | 'sat' | 'unknown', model)."""
    try:
        if goal.op == "eq":
            return prove_eq_batch([(goal.args[0], goal.args[1])], facts, timeout)[0]
        k = fr.key(fr.canon_c(goal))
        for f in facts:  # a fact with the same canonical form settles it
            if fr.key(fr.canon_c(f)) == k:
                facts = [f]
                break
        enc = Enc()
        enc.require(enc.cond(tm.notc(goal)))
        for f in facts:
            enc.require(enc.cond(f))
        return run(enc, timeout, want_model=True)
    except fr.TooBig:
        STATS["unknown"] += 1
        return "unknown", None


def feasible(facts, timeout=2000):
    try:
        enc = Enc()
        for f in facts:
            enc.require(enc.cond(f))
        r, m = run(enc, timeout, want_model=True)
        return r, m
    except fr.TooBig:
        return "unknown", None
