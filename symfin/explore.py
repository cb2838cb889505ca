"""Depth-first exploration of the branch decisions of symbolic runs, and the discharge of their obligations."""
import random
import time
import traceback
from . import terms as tm
from . import frac as fr
from . import solve as sv
from . import sym
from .loader import SpecAbort
from .terms import T, C


class Obl:
    __slots__ = ("label", "kind", "a", "b", "nfacts", "cut", "cond", "opts")

    def __init__(self, label, kind, a=None, b=None, cond=None, nfacts=0, cut=False, opts=None):
        self.label, self.kind, self.a, self.b, self.cond = label, kind, a, b, cond
        self.nfacts, self.cut, self.opts = nfacts, cut, opts or {}


class Path:
    """One run of the harness under a fixed prefix of decisions."""

    def __init__(self, prefix, merge, maxdec, nofeas=False, deadline=None):
        self.deadline = deadline
        self.nofeas = nofeas  # take both branches without asking whether they are possible
        self.prefix, self.merge, self.maxdec = prefix, merge, maxdec
        self.facts = []  # conditions assumed or decided so far, in order
        self.kinds = []
        self.taken = []
        self.alts = []
        self.obls = []
        self.notes = []
        self.spec = 0
        self.memo = {}
        self.cmemo = {}
        self.error = None
        self.nfeas = 0

    def fact(self, c, kind="assume"):
        if c is tm.TRUE:
            return
        if c is tm.FALSE:
            raise sym.PathStop()
        self.facts.append(c)
        self.kinds.append(kind)
        self.memo[c.id] = True
        self.memo[tm.notc(c).id] = False
        try:  # equivalently written conditions are recognised by their canonical form
            p = fr.canon_c(c)
            self.cmemo[fr.key(p)] = True
            self.cmemo[fr.key(fr.padd(fr.P1, p, -1))] = False
        except (fr.TooBig, ZeroDivisionError, tm.Unsupported):
            pass
        if c.op == "and":
            for x in c.args:
                self.memo[x.id] = True
                self.memo[tm.notc(x).id] = False

    def note(self, k, v):
        self.notes.append((k, v))

    def quick(self, c):
        r = self.memo.get(c.id)
        if r is not None:
            return r
        try:
            p = fr.canon_c(c)
        except (fr.TooBig, ZeroDivisionError):
            return None
        if p == fr.P1:
            return True
        if not p:
            return False
        return self.cmemo.get(fr.key(p))

    def decide(self, c):
        r = self.quick(c)
        if r is not None:
            return r
        if self.spec:
            raise SpecAbort()
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            if k >= self.maxdec:
                raise sym.Bound("decision bound")
            if self.deadline and time.time() > self.deadline:
                raise sym.Bound("time")
            if self.nofeas:
                t = f = "unknown"
            else:
                t, _ = sv.feasible(self.facts + [c])
                f, _ = sv.feasible(self.facts + [tm.notc(c)])
                self.nfeas += 2
            if t == "unsat" and f == "unsat":
                raise sym.PathStop()
            if f == "unsat":
                v = True
            elif t == "unsat":
                v = False
            else:
                v = True
                self.alts.append(list(self.taken) + [False])
        self.taken.append(v)
        self.fact(c if v else tm.notc(c), "branch")
        return v


def explore(run, merge=False, maxpaths=200, maxdec=60, deadline=None, nofeas=False):
    """run(engine) for every feasible decision sequence. Returns (paths, truncated)."""
    stack = [[]]
    paths = []
    truncated = 0
    stopped = 0
    while stack:
        if len(paths) >= maxpaths or (deadline and time.time() > deadline):
            truncated += len(stack)
            break
        prefix = stack.pop()
        p = Path(prefix, merge, maxdec, nofeas, deadline)
        sym.ENGINE = p
        try:
            run(p)
        except sym.PathStop:
            stopped += 1
            stack.extend(reversed(p.alts))
            continue
        except sym.Bound:
            truncated += 1
            stack.extend(reversed(p.alts))
            continue
        except tm.Unsupported as e:
            p.error = ("unsupported", str(e), traceback.format_exc(limit=-6))
        except Exception as e:  # noqa: BLE001 - raised by the code under check on this path
            p.error = ("exception", f"{type(e).__name__}: {e}", traceback.format_exc(limit=-6))
        finally:
            sym.ENGINE = None
        paths.append(p)
        stack.extend(reversed(p.alts))
    return paths, truncated, stopped


# ------------------------------------------------------------------ numeric signatures and sweeping
class Sampler:
    """Random environments inside the declared sampling ranges."""

    def __init__(self, decls, seed=1):
        self.decls = decls
        self.rnd = random.Random(seed)

    def one(self):
        env = {}
        for n, d in self.decls.items():
            if d.get("choices"):
                env[n] = self.rnd.choice(d["choices"])
            else:
                env[n] = self.rnd.uniform(d["lo"], d["hi"])
        for n in list(env):
            env["$" + n] = env[n]
        return env

    def satisfying(self, facts, n, tries=400, extra=()):
        """Environments on which every evaluable fact holds (facts with opaque atoms are ignored)."""
        out = []
        for _ in range(tries):
            env = self.one()
            self.complete(env, facts)
            if holds(facts, env):
                out.append(env)
                if len(out) >= n:
                    break
        return out

    def complete(self, env, facts):
        """Bound points and fresh symbols defined by equations."""
        for f in facts:
            if f.op == "eq":
                for x, y in ((f.args[0], f.args[1]), (f.args[1], f.args[0])):
                    if x.op == "var" and x.args[0] not in env:
                        try:
                            env[x.args[0]] = tm.evalf([y], env)[0]
                        except tm.NotEvaluable:
                            pass


def holds(facts, env, strict=True):
    for f in facts:
        try:
            if f.op == "eq":
                a, b = tm.evalf(list(f.args), env)
                if not abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)):
                    return False
            elif not tm.evalf([f], env)[0]:
                return False
        except tm.NotEvaluable:
            if strict:
                continue
    return True


def signatures(roots, envs):
    """{node id: tuple of floats} for evaluable T nodes."""
    nodes = [n for n in tm.topo(roots) if isinstance(n, T)]
    cols = []
    for e in envs:
        cols.append(eval_all(roots, e))
    out = {}
    for n in nodes:
        sig = []
        for c in cols:
            v = c.get(n.id)
            if v is None or isinstance(v, complex) or v != v:
                sig = None
                break
            sig.append(v)
        if sig is not None:
            out[n.id] = tuple(sig)
    return out


def eval_all(roots, env):
    m = tm.evalf_map(roots, env)
    return {k: v for k, v in m.items() if isinstance(v, (int, float)) and not isinstance(v, bool)}


def close(a, b, tol=1e-10):
    return all(abs(x - y) <= tol * (1e-3 + abs(x) + abs(y)) for x, y in zip(a, b))


class Discharger:
    """Decides the obligations of one path in order, with node-wise cuts."""

    def __init__(self, path, sampler, timeout=None, deadline=None):
        self.p = path
        self.sampler = sampler
        self.map = {}  # id -> T (proven replacement)
        self.timeout = timeout
        self.extra = []  # facts about cut variables
        self.lemmas = []  # (name, proved claim) usable in later claims
        self.deadline = deadline
        self.ncut = 0
        self.swept = 0
        self.fails = 0
        self.envs = None

    def rew(self, *roots):
        if not self.map:
            return list(roots)
        return subst_memo(roots, self.map)

    def run(self):
        """Yields (obl, status, model)."""
        out = []
        batch = []
        for o in self.p.obls:
            if o.kind == "eq" and not o.cut and not o.opts.get("lemma") and not o.opts.get("uses"):
                batch.append(o)
                if len(batch) >= 64:
                    out += self.flush(batch)
                    batch = []
                continue
            out += self.flush(batch)
            batch = []
            out.append(self.single(o))
        out += self.flush(batch)
        return out

    def flush(self, batch):
        if not batch:
            return []
        early = []
        if self.fails < 4:
            for o in batch:
                if self.differs(o, 1e-5):
                    early.append((o, "sat" if self.fails < 4 else "skipped", None))
                    self.fails += 1
        if early:
            done = {id(o) for o, _, _ in early}
            batch = [o for o in batch if id(o) not in done]
            if not batch or self.fails >= 4:
                return early + [(o, "skipped", None) for o in batch]
            return early + self.flush(batch)
        pairs = [tuple(self.rew(o.a, o.b)) for o in batch]
        res = sv.prove_eq_batch(pairs, [], self.timeout) if not any(o.opts.get("facts") for o in batch) else None
        out = []
        for i, o in enumerate(batch):
            st, m = res[i] if res else ("unknown", None)
            if st != "unsat":
                st, m = self.hard_eq(o)
            out.append((o, st, m))
        return out

    def differs(self, o, tol=1e-6):
        """Inputs at which the two sides are numerically far apart (a claim not worth a long proof attempt)."""
        if self.envs is None:
            self.envs = {}
        k = o.nfacts
        if k not in self.envs:
            self.envs[k] = self.sampler.satisfying(self.p.facts[:k], 4, tries=80)
        for e in self.envs[k]:
            if o.a is not o.b and violated(o, e, tol) is True:
                return True
        return False

    def hard_eq(self, o):
        if self.fails >= 4:
            return "skipped", None
        if self.differs(o):
            self.fails += 1
            return "sat", None
        st, m = self.hard_eq2(o)
        if st != "unsat":
            self.fails += 1
        return st, m

    def hard_eq2(self, o):
        a, b = self.rew(o.a, o.b)
        if (a, b) != (o.a, o.b):  # without the cuts of earlier claims
            (st, m), = sv.prove_eq_batch([(o.a, o.b)], [], self.timeout)
            if st == "unsat":
                return st, m
        facts = self.facts(o)
        # sweep, then try with the path facts
        (st, m), = sv.prove_eq_batch([(a, b)], facts, self.timeout)
        if st == "unsat":
            return st, m
        if sum(1 for _ in tm.topo([a, b])) > 12:
            self.sweep(a, b, o)
            a2, b2 = self.rew(a, b)
            if (a2, b2) != (a, b):
                (st2, m2), = sv.prove_eq_batch([(a2, b2)], facts, self.timeout)
                if st2 == "unsat":
                    return st2, m2
        return st, m

    def facts(self, o):
        # differentiation points only steer branches: a leaked one is a different number from the input it belongs to
        fs = [self.rewc(c) for c, k in zip(self.p.facts[: o.nfacts], self.p.kinds) if k != "bound"]
        uses = o.opts.get("uses")
        fs += [self.rewc(c) for c in self.extra]
        return fs + [self.rewc(c) for n, c in self.lemmas if uses is None or n in uses]

    def rewc(self, c):
        return subst_memo([c], self.map)[0] if self.map else c

    def sweep(self, a, b, o):
        """Numerically matching sub-terms of the two sides are proved equal bottom-up and merged."""
        facts = self.facts(o)
        envs = self.sampler.satisfying(self.p.facts[: o.nfacts], 3)
        if len(envs) < 2:
            return
        sig = signatures([a, b], envs)
        ina = {n.id for n in tm.topo([a]) if isinstance(n, T)}
        order = [n for n in tm.topo([b, a]) if isinstance(n, T) and n.op not in ("num", "pi", "i", "var")]
        bnodes = {n.id for n in tm.topo([b]) if isinstance(n, T)}
        table = {}
        for n in order:
            s = sig.get(n.id)
            if s is None:
                continue
            k = tuple(f"{x:.7e}" for x in s)
            table.setdefault(k, []).append(n)
        nb = 0
        for n in tm.topo([a]):
            if not isinstance(n, T) or n.id in bnodes or n.id in self.map or n.op in ("num", "pi", "i", "var"):
                continue
            if self.deadline and time.time() > self.deadline:
                return
            s = sig.get(n.id)
            if s is None:
                continue
            cands = [x for x in table.get(tuple(f"{x:.7e}" for x in s), []) if x.id in bnodes and x is not n]
            for c in cands[:2]:
                if not close(sig[c.id], s):
                    continue
                x, y = self.rew(n, c)
                if x is y:
                    break
                (st, _), = sv.prove_eq_batch([(x, y)], facts, min(self.timeout or 2000, 2000))
                nb += 1
                if st == "unsat":
                    self.map[n.id] = y
                    self.swept += 1
                    break

    def single(self, o):
        r = self.single1(o)
        if r[1] == "unsat" and o.opts.get("lemma"):
            c = o.cond if o.kind == "cond" else dict(eq=tm.eq, le=tm.le, lt=tm.lt)[o.kind](o.a, o.b)
            self.lemmas.append((o.opts["lemma"], c))
        return r

    def single1(self, o):
        if o.kind != "eq":
            if self.fails >= 4:
                return (o, "skipped", None)
            if o.kind in ("le", "lt") and self.differs(o):
                self.fails += 1
                return (o, "sat", None)
            r = self.single2(o)
            self.fails += r[1] != "unsat"
            return r
        return self.single2(o)

    def single2(self, o):
        facts = self.facts(o)
        if o.kind == "eq":
            a, b = self.rew(o.a, o.b)
            if self.fails < 4 and self.differs(o):
                self.fails += 1
                return (o, "sat", None)
            (st, m), = sv.prove_eq_batch([(a, b)], facts, self.timeout)
            if st != "unsat":
                st, m = self.hard_eq(o)
            if st == "unsat" and o.cut:
                self.cutvar([o.a, o.b], o)
            return (o, st, m)
        if o.kind in ("le", "lt"):
            a, b = self.rew(o.a, o.b)
            g = tm.le(a, b) if o.kind == "le" else tm.lt(a, b)
            st, m = sv.prove(g, facts, self.timeout)
            if st == "unsat" and o.cut:
                x = self.fresh(o)
                y = self.fresh(o)
                self.map[o.a.id], self.map[o.b.id] = x, y
                self.extra.append(tm.le(x, y) if o.kind == "le" else tm.lt(x, y))
            return (o, st, m)
        g = self.rewc(o.cond)
        st, m = sv.prove(g, facts, self.timeout)
        return (o, st, m)

    def fresh(self, o):
        self.ncut += 1
        return tm.var(f"!c{self.ncut}", pos=bool(o.opts.get("pos")))

    def cutvar(self, terms, o):
        v = self.fresh(o)
        for t in terms:
            if t.op not in ("num", "var"):
                self.map[t.id] = v


def subst_memo(roots, m):
    """Like terms.subst but with a persistent id map (new results are not recorded in m)."""
    loc = {}

    def get(n):
        return m.get(n.id) or loc.get(n.id)

    for n in topo_stop(roots, m):
        if n.id in m:
            continue
        if not any(isinstance(a, (T, C)) for a in n.args):
            loc[n.id] = n
            continue
        args = [get(a) if isinstance(a, (T, C)) else a for a in n.args]
        if all(x is y for x, y in zip(args, n.args)):
            loc[n.id] = n
        else:
            loc[n.id] = tm.rebuild(n, args)
    return [get(r) for r in roots]


def topo_stop(roots, m):
    seen, out, stack = set(), [], [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.id in m:
            continue
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, (T, C)) and a.id not in seen:
                stack.append((a, False))
    return out


# ------------------------------------------------------------------ concretisation
def violated(o, env, tol=1e-7):
    """Numerically violated at env? None when not evaluable."""
    env = {k: v * 1.003 + 1e-3 if k.startswith("$") and isinstance(v, float) else v for k, v in env.items()}
    try:
        if o.kind in ("eq", "le", "lt"):
            a, b = tm.evalf([o.a, o.b], env)
            if a != a or b != b:
                return None
            s = tol * (1 + abs(a) + abs(b))
            d = a - b
            if o.kind == "eq":
                return abs(d) > s
            return d.real > s
        return not tm.evalf([o.cond], env)[0]
    except tm.NotEvaluable:
        return None
    except (OverflowError, TypeError):
        return None


def concretise(o, path, sampler, model, n=6, tries=600, blind=True):
    """Candidate inputs for a violated obligation, best first."""
    facts = path.facts[: o.nfacts] if o is not None else path.facts
    good, maybe = [], []
    seeds = []
    if model:
        e = sampler.one()
        for k, v in model.items():
            if k in e and not k.startswith("$"):
                e[k] = v
                e["$" + k] = v
            elif k.startswith("s!"):
                e[k[2:]] = v
        seeds.append(e)
        for _ in range(40):
            e2 = dict(e)
            for k in sampler.decls:
                if sampler.rnd.random() < 0.5 and not sampler.decls[k].get("choices"):
                    e2[k] = e[k] * (1 + sampler.rnd.uniform(-0.2, 0.2))
                    e2["$" + k] = e2[k]
            seeds.append(e2)
    for i in range(tries + len(seeds)):
        env = seeds[i] if i < len(seeds) else sampler.one()
        if i >= len(seeds) and model and i % 3 == 0:
            base = seeds[0]
            env = dict(env)
            for k in sampler.decls:
                if sampler.rnd.random() < 0.4:
                    env[k] = base[k]
                    env["$" + k] = base[k]
        sampler.complete(env, facts)
        if not holds(facts, env):
            continue
        v = violated(o, env) if o is not None else True
        if v is True:
            good.append(env)
        elif v is None:
            maybe.append(env)
        if len(good) >= n or (not good and len(maybe) >= 3 * n):
            break
    if blind and not good and not maybe:
        # no sample follows this path: inputs meeting the preconditions alone, for the real code to decide
        pre = [f for f, k in zip(path.facts, path.kinds) if k == "assume"]
        maybe = sampler.satisfying(pre, 2 * n, tries=200)
        return maybe
    return (good + maybe)[:n]
