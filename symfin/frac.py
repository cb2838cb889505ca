"""Canonical form of terms: polynomials with rational exponents over generators.

A term is rewritten to  sum_i c_i * prod_j g_j^p_j  with rational c_i, p_j.  Generators g_j are variables, pi, the
imaginary unit, exp of a monomial (so that exp(a+b) = exp(a)exp(b) and exp(c m) = exp(m)^c), log of a positive
generator, normal cdf atoms, positive parts, 0/1 indicators, opaque function / derivative / integral atoms, and "sums"
(multi-term polynomials that are divided by or rooted).  The rules used are identities of real (for the imaginary
unit: complex) arithmetic wherever the expression is defined.
"""
from fractions import Fraction as F
import functools
import math
from . import terms as tm
from .terms import T, C


class TooBig(Exception):
    pass


LIMIT = 60000

GENS = []
_gtab = {}


class Gen:
    __slots__ = ("id", "kind", "key", "pos", "data", "cplx")

    def __repr__(self):
        return f"{self.kind}:{self.id}"


def gen(kind, key, pos=False, data=None, cplx=False):
    k = (kind, key, pos) if kind == "var" else (kind, key)
    g = _gtab.get(k)
    if g is None:
        g = Gen()
        g.id, g.kind, g.key, g.pos, g.data, g.cplx = len(GENS), kind, key, pos, data, cplx
        GENS.append(g)
        _gtab[k] = g
    return g


G_I = gen("i", "i", cplx=True)
G_PI = gen("pi", "pi", pos=True)

# a poly is {mono: Fraction}; a mono is a tuple of (gen id, exponent) sorted by gen id
P0 = {}
P1 = {(): F(1)}


def pconst(c):
    c = F(c)
    return {(): c} if c else {}


def pgen(g, p=1):
    return {((g.id, p),): F(1)}


def key(p):
    return tuple(sorted(p.items(), key=lambda kv: (_mk(kv[0]),)))


def _mk(m):
    return tuple((g, F(e)) for g, e in m)


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def _norm_e(e):
    return int(e) if isinstance(e, F) and e.denominator == 1 else e


def mono_mul(a, b):
    """Merge two monomials. Returns (coef, mono, expand) with expand a list of (gen, k) still to be multiplied in."""
    if not a and not b:
        return 1, (), None
    i = j = 0
    out = []
    touched = False
    while i < len(a) and j < len(b):
        ga, ea = a[i]
        gb, eb = b[j]
        if ga < gb:
            out.append(a[i])
            i += 1
        elif gb < ga:
            out.append(b[j])
            j += 1
        else:
            e = _norm_e(ea + eb)
            if e:
                out.append((ga, e))
                touched = True
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    if not touched:
        return 1, tuple(out), None
    return mono_fix(out)


def mono_fix(items):
    """Apply the generator relations to a merged monomial."""
    coef = 1
    expand = None
    out = []
    for g, e in items:
        G = GENS[g]
        k = G.kind
        if k == "i":
            r = e % 4
            if r >= 2:
                coef = -coef
            if r % 2:
                out.append((g, 1))
            continue
        if k == "sum" and e >= 1:
            fl = math.floor(e)
            expand = expand or []
            expand.append((G, fl))
            e = _norm_e(e - fl)
            if e:
                out.append((g, e))
            continue
        if k == "prime" and (e >= 1 or e < 0):
            fl = math.floor(e)
            coef = coef * F(G.key) ** fl
            e = _norm_e(e - fl)
            if e:
                out.append((g, e))
            continue
        if k == "ind" and e > 1:
            e = 1
        out.append((g, e))
    return coef, tuple(out), expand


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    later = []
    n = 0
    for ma, ca in a.items():
        for mb, cb in b.items():
            c, m, ex = mono_mul(ma, mb)
            v = ca * cb * c
            if ex:
                later.append((v, m, ex))
                continue
            w = r.get(m, 0) + v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        n += len(b)
        if len(r) > LIMIT or n > 20 * LIMIT:
            raise TooBig()
    for v, m, ex in later:
        q = {m: v}
        for G, k in ex:
            for _ in range(k):
                q = pmul(q, G.data)
        r = padd(r, q)
        if len(r) > LIMIT:
            raise TooBig()
    return r


def ppow(a, k):
    """Integer power."""
    if k == 0:
        return P1
    if k < 0:
        return ppow(pinv(a), -k)
    if len(a) == 1:
        (m, c), = a.items()
        cc, mm, ex = mono_fix([(g, _norm_e(e * k)) for g, e in m])
        q = {mm: c**k * cc}
        for G, n in ex or ():
            for _ in range(n):
                q = pmul(q, G.data)
        return q
    r = None
    while k:
        if k & 1:
            r = a if r is None else pmul(r, a)
        k >>= 1
        if k:
            a = pmul(a, a)
    return r


def is_real(p):
    return not any(GENS[g].cplx for m in p for g, _ in m)


def mono_cmp(a, b):
    """Lexicographic order on exponent vectors (a group order: compatible with multiplication)."""
    i = j = 0
    while i < len(a) or j < len(b):
        ga = a[i][0] if i < len(a) else 1 << 60
        gb = b[j][0] if j < len(b) else 1 << 60
        if ga < gb:
            return 1 if a[i][1] > 0 else -1
        if gb < ga:
            return -1 if b[j][1] > 0 else 1
        if a[i][1] != b[j][1]:
            return 1 if a[i][1] > b[j][1] else -1
        i += 1
        j += 1
    return 0


_cmpkey = functools.cmp_to_key(mono_cmp)


def lead(p):
    return max(p, key=_cmpkey)


def content(p, posonly):
    """p = c * m * q with q primitive. With posonly, c > 0 and m has only positive generators."""
    num, den = 0, 1
    for c in p.values():
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    c = F(num, den)
    if not posonly and p[lead(p)] < 0:
        c = -c
    allg = {g for m in p for g, _ in m}
    ds = [dict(m) for m in p]
    common = {}
    for g in allg:
        e = min(d.get(g, 0) for d in ds)
        G = GENS[g]
        if G.kind == "i" or (posonly and not G.pos):
            continue
        if e:
            common[g] = e
    m = tuple(sorted(common.items()))
    inv = tuple((g, -e) for g, e in m)
    q = {}
    for mm, v in p.items():
        q = padd(q, pmul({mm: v / c}, {inv: F(1)}))
    return c, m, q


def positive(p):
    """Syntactically positive, or declared positive by the preconditions."""
    if _DECL and len(p) > 1:
        c, m, q = content(p, True)
        if key(q) in _DECL:
            return True
    return bool(p) and all(c > 0 and all(GENS[g].pos or e % 2 == 0 for g, e in m) for m, c in p.items()) and any(
        all(GENS[g].pos for g, _ in m) for m in p
    )


def mono_poly(c, m):
    return {m: F(c)}


_DECL = set()


def declare(t):
    """The preconditions of the current case make t positive."""
    c, m, q = content(simp(canon(t)), True)
    k = key(q)
    if len(q) > 1 and not positive(q):
        _DECL.add(k)
        _forget()


def undeclare():
    if _DECL:
        _DECL.clear()
        _forget()


def _forget():
    _memo.clear()
    _cm.clear()
    for G in GENS:
        if G.kind == "sum":
            G.pos = positive(G.data)




def sumgen(q):
    k = key(q)
    return gen("sum", k, pos=positive(q), data=q, cplx=not is_real(q))


def pinv(p):
    if not p:
        raise ZeroDivisionError("division by zero")
    if len(p) == 1:
        (m, c), = p.items()
        cc, mm, ex = mono_fix([(g, -e) for g, e in m])
        q = {mm: 1 / c * cc}
        for G, n in ex or ():
            for _ in range(n):
                q = pmul(q, G.data)
        return q
    if not is_real(p):
        cj = conj(p)
        if cj is not None:
            n = pmul(p, cj)
            if is_real(n):
                return pmul(cj, pinv(n))
    c, m, q = content(p, False)
    if _DECL and key(pscale(q, F(-1))) in _DECL:
        c, q = -c, pscale(q, F(-1))
    if len(q) == 1:
        return pinv(p) if q is p else pmul(pinv({m: c}), pinv(q))
    s = sumgen(q)
    return pmul(pinv({m: c}), pgen(s, -1))


def conj(p):
    """Complex conjugate, or None when a complex generator has no known conjugate."""
    out = {}
    for m, c in p.items():
        s = 1
        items = []
        for g, e in m:
            G = GENS[g]
            if G.kind == "i":
                s = -s
                items.append((g, e))
            elif not G.cplx:
                items.append((g, e))
            elif G.kind == "exp":
                mm = G.data  # mono -> exponent poly
                if sum(1 for h, _ in mm if GENS[h].cplx) == 1 and any(GENS[h].kind == "i" for h, _ in mm):
                    items.append((g, -e))
                else:
                    return None
            else:
                return None
        cc, mm, ex = mono_fix(items)
        q = {mm: c * s * cc}
        for G, n in ex or ():
            for _ in range(n):
                q = pmul(q, G.data)
        out = padd(out, q)
    return out


def primes(n):
    out = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _num_pow(c, e):
    """c > 0 rational to a rational power, as a poly."""
    items = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in primes(n).items():
            items[p] = items.get(p, 0) + s * k
    coef = F(1)
    m = []
    for p, k in items.items():
        x = e * k
        fl = math.floor(x)
        coef *= F(p) ** fl
        x = _norm_e(x - fl)
        if x:
            m.append((gen("prime", p, pos=True).id, x))
    return {tuple(sorted(m)): coef}


def proot(p, e):
    """p ** e for a non-integer rational e, p >= 0."""
    e = F(e)
    if not p:
        return {}
    c, m, q = content(p, True)
    # c > 0, m positive generators
    r = _num_pow(c, e)
    mm = []
    for g, x in m:
        mm.append((g, _norm_e(x * e)))
    cc, fm, ex = mono_fix(mm)
    t = {fm: F(cc)}
    for G, n in ex or ():
        for _ in range(n):
            t = pmul(t, G.data)
    r = pmul(r, t)
    if len(q) == 1 and () in q:
        if q[()] == 1:
            return r
    # perfect squares of a known-sign polynomial are left alone
    s = sumgen(q)
    cc, fm, ex = mono_fix([(s.id, _norm_e(e))])
    t = {fm: F(cc)}
    for G, n in ex or ():
        for _ in range(n):
            t = pmul(t, G.data)
    return pmul(r, t)


def pexp(p):
    r = P1
    items = []
    const = F(0)
    for m, c in p.items():
        cx = any(GENS[g].cplx for g, _ in m)
        # exp(c * log g) = g^c
        if len(m) == 1 and m[0][1] == 1 and GENS[m[0][0]].kind == "log":
            base = GENS[m[0][0]].data
            cn = _norm_e(c)
            if isinstance(cn, int):
                r = pmul(r, ppow(base, cn))
            else:
                r = pmul(r, proot(base, cn))
            continue
        g = gen("exp", m, pos=not cx, data=m, cplx=cx)
        items.append((g.id, _norm_e(c)))
    return pmul(r, {tuple(sorted(items)): F(1)})


def plog(p, inv=False):
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            rest = []
            out = {}
            if c != 1:
                for n, s in ((c.numerator, 1), (c.denominator, -1)):
                    for q, k in primes(n).items():
                        out = padd(out, {((_loggen(pconst(q)).id, 1),): F(s * k)})
            for g, e in m:
                G = GENS[g]
                if G.kind == "exp" and not G.cplx:
                    out = padd(out, {G.data: F(e)})
                elif G.kind == "exp":
                    out = padd(out, {G.data: F(e)})
                elif G.pos:
                    out = padd(out, {((_loggen(G.data if G.kind == "sum" else pconst(F(G.key)) if G.kind == "prime" else pgen(G)).id, 1),): F(e)})
                else:
                    rest.append((g, e))
            if not rest:
                return out
            return padd(out, pgen(_loggen({tuple(rest): F(1)})))
        return pgen(_loggen(p))
    c, m, q = content(p, True)
    out = plog({m: c}) if (m or c != 1) else {}
    if not inv:  # the logarithm of a quotient with the longer part below is minus the logarithm of its reciprocal
        ds = [dict(mm) for mm in q]
        den = {g for d in ds for g, e in d.items() if e < 0 and GENS[g].kind == "sum" and not GENS[g].cplx}
        if any(len(GENS[g].data) > len(q) and all(d.get(g, 0) < 0 for d in ds) for g in den):
            return padd(out, pscale(plog(pinv(q), True), F(-1)))
    return padd(out, pgen(_loggen(q)))


def _loggen(p):
    return gen("log", key(p), pos=False, data=p, cplx=not is_real(p))


def flip(p):
    """Sign-normalise: (sign, p') with the leading coefficient of p' positive."""
    if p[lead(p)] < 0:
        return -1, pscale(p, F(-1))
    return 1, p


def pphi(p):
    if not p:
        return pconst(F(1, 2))
    s, q = flip(p)
    g = pgen(gen("phi", key(q), pos=True, data=q))
    return g if s > 0 else padd(P1, g, -1)


def known_sign(p):
    if not p:
        return 0
    if positive(p):
        return 1
    if positive(pscale(p, F(-1))):
        return -1
    return None


def ppos(p):
    """max(p, 0)."""
    ks = known_sign(p)
    if ks is not None:
        return p if ks > 0 else {}
    c, m, q = content(p, True)
    s, q = flip(q)
    k = known_sign(q)
    if k is not None:
        return p if k * s > 0 else {}
    g = pgen(gen("pos", key(q), data=q))
    if s < 0:  # max(-q, 0) = max(q, 0) - q
        g = padd(g, q, -1)
    return pmul({m: c}, g)


def pind(kind, p):
    """Indicator of p < 0 ('lt') / p <= 0 ('le') / p == 0 ('eq')."""
    ks = known_sign(p)
    if ks is not None:
        v = {"lt": ks < 0, "le": ks <= 0, "eq": ks == 0}[kind]
        return P1 if v else {}
    c, m, q = content(p, True)
    s, q = flip(q)
    if kind == "eq":
        return pgen(gen("ind", ("eq", key(q)), data=("eq", q)))
    if s > 0:
        return pgen(gen("ind", (kind, key(q)), data=(kind, q)))
    other = {"lt": "le", "le": "lt"}[kind]  # -q < 0  <=>  not (q <= 0)
    return padd(P1, pgen(gen("ind", (other, key(q)), data=(other, q))), -1)


_cm = {}


def canon_c(c):
    """Indicator polynomial of a condition."""
    r = _cm.get(c.id)
    if r is not None:
        return r
    o = c.op
    if o == "true":
        r = P1
    elif o == "false":
        r = {}
    elif o in ("lt", "le", "eq"):
        r = pind(o, padd(canon(c.args[0]), canon(c.args[1]), -1))
    elif o == "not":
        r = padd(P1, canon_c(c.args[0]), -1)
    elif o == "and":
        r = P1
        for x in c.args:
            r = pmul(r, canon_c(x))
    elif o == "or":
        r = P1
        for x in c.args:
            r = pmul(r, padd(P1, canon_c(x), -1))
        r = padd(P1, r, -1)
    elif o == "sbool":
        r = pgen(gen("ind", ("sbool", c.args[0]), data=("sbool", c.args[0])))
    else:
        raise tm.Unsupported(o)
    _cm[c.id] = r
    return r


_memo = {}


def gen_deps(gid, cache={}):
    """Names of the variables a generator depends on."""
    r = cache.get(gid)
    if r is not None:
        return r
    G = GENS[gid]
    k = G.kind
    if k == "var":
        r = frozenset([G.key])
    elif k in ("i", "pi", "prime"):
        r = frozenset()
    elif k == "exp":
        r = frozenset().union(*[gen_deps(h) for h, _ in G.data]) if G.data else frozenset()
    elif k in ("sum", "log", "phi", "pos"):
        r = poly_deps(G.data)
    elif k == "ind":
        r = frozenset() if G.data[0] == "sbool" else poly_deps(G.data[1])
    elif k == "re":
        r = frozenset().union(*[gen_deps(h) for h, _ in G.data])
    elif k in ("int", "deriv"):
        r = G.data["deps"]
    elif k == "fn":
        r = frozenset().union(*([poly_deps(p) for p in G.data[1:] if isinstance(p, dict)] or [frozenset()]))
    else:
        raise tm.Unsupported(k)
    cache[gid] = r
    return r


def poly_deps(p):
    s = set()
    for m in p:
        for g, _ in m:
            s |= gen_deps(g)
    return frozenset(s)


def canon(t):
    r = _memo.get(t.id)
    if r is not None:
        return r
    for n in tm.topo([t]):
        if not isinstance(n, T) or n.id in _memo:
            continue
        _memo[n.id] = _canon1(n)
    return _memo[t.id]


def _canon1(n):
    o, a = n.op, n.args
    if o == "num":
        return pconst(a[0])
    if o == "var":
        return pgen(gen("var", a[0], pos=a[1]))
    if o == "pi":
        return pgen(G_PI)
    if o == "i":
        return pgen(G_I)
    if o == "add":
        return padd(_memo[a[0].id], _memo[a[1].id])
    if o == "mul":
        return pmul(_memo[a[0].id], _memo[a[1].id])
    if o == "pow":
        return simp(ppow(_memo[a[0].id], a[1]))
    if o == "exp":
        return pexp(simp(_memo[a[0].id]))
    if o == "log":
        return plog(simp(_memo[a[0].id]))
    if o == "sqrt":
        return proot(simp(_memo[a[0].id]), F(1, 2))
    if o == "phi":
        return pphi(simp(_memo[a[0].id]))
    if o == "max":
        ops = {}
        todo = [a[0], a[1]]
        while todo:  # nested maxima: one flat set of operands, folded in a fixed order
            x = todo.pop()
            if x.op == "max":
                todo += x.args
            else:
                p = simp(_memo[x.id])
                ops[key(p)] = p
        ops = [ops[k] for k in sorted(ops)] if len(ops) > 2 else list(ops.values())
        r = ops[0]
        for y in ops[1:]:
            r = padd(y, ppos(simp(padd(r, y, -1))))
        return r
    if o == "ite":
        c = canon_c(a[0])
        x, y = _memo[a[1].id], _memo[a[2].id]
        d = padd(x, y, -1)
        if d and a[0].op in ("lt", "le"):
            # if p < 0 then y + k*p else y  =  y - k*max(-p, 0)
            p = padd(canon(a[0].args[0]), canon(a[0].args[1]), -1)
            if p and set(p) == set(d):
                m0 = next(iter(p))
                k = d[m0] / p[m0]
                if all(d[m] == k * p[m] for m in p):
                    return padd(y, pscale(ppos(simp(pscale(p, F(-1)))), -k))
        return padd(y, pmul(c, d))
    if o == "re":
        return pre(simp(_memo[a[0].id]))
    if o == "fn":
        data = [a[0]] + [simp(_memo[x.id]) if isinstance(x, T) else x for x in a[1:]]
        k = tuple(key(x) if isinstance(x, dict) else x for x in data)
        return pgen(gen("fn", k, pos=a[0] in POSITIVE_FN, data=data))
    if o == "deriv":
        body, bound, point = a[1], a[2], a[3]
        pt = simp(_memo[point.id])
        bp = simp(_memo[body.id])
        bn = bound.args[0]
        out = {}
        for c, const, dep in split(bp, bn):
            if not dep:
                continue
            g = gen("deriv", (a[0], dep, bn, key(pt)),
                    data=dict(n=a[0], mono=dep, bound=bn, point=pt,
                              deps=(poly_deps({dep: F(1)}) - {bn}) | poly_deps(pt)))
            out = padd(out, pmul({const: c}, pgen(g)))
        return out
    if o == "int":
        body, bound, lo, hi = a
        bp = simp(_memo[body.id])
        bn = bound.args[0]
        lk = key(_memo[lo.id]) if isinstance(lo, T) else lo
        hk = key(_memo[hi.id]) if isinstance(hi, T) else hi
        out = {}
        for c, const, dep in split(bp, bn):
            g = gen("int", (dep, bn, lk, hk), data=dict(mono=dep, bound=bn, deps=poly_deps({dep: F(1)}) - {bn}))
            out = padd(out, pmul({const: c}, pgen(g)))
        return out
    raise tm.Unsupported(o)


POSITIVE_FN = set()


def split(p, bn):
    for m, c in p.items():
        const = tuple((g, e) for g, e in m if bn not in gen_deps(g))
        dep = tuple((g, e) for g, e in m if bn in gen_deps(g))
        yield c, const, dep


def pre(p):
    """Real part (linear)."""
    out = {}
    for m, c in p.items():
        real = tuple((g, e) for g, e in m if not GENS[g].cplx)
        cx = tuple((g, e) for g, e in m if GENS[g].cplx)
        if not cx:
            out = padd(out, {m: c})
        elif len(cx) == 1 and GENS[cx[0][0]].kind == "i":
            continue
        else:
            out = padd(out, pmul({real: c}, pgen(gen("re", cx, data=cx))))
    return out


# ------------------------------------------------------------------ exact division by denominators
def neg_sums(p):
    """{gen: most negative integer exponent} over sum generators in p."""
    out = {}
    for m in p:
        for g, e in m:
            if e < 0 and GENS[g].kind == "sum":
                fl = math.floor(e)
                if fl < out.get(g, 0):
                    out[g] = fl
    return out


def clear(p, maxrounds=40):
    """Multiply p by powers of its sum denominators until none is left. Returns (numerator, [(gen, k)])."""
    den = {}
    for _ in range(maxrounds):
        ns = neg_sums(p)
        if not ns:
            return p, sorted(den.items())
        # outermost first: highest id
        g = max(ns)
        k = -ns[g]
        den[g] = den.get(g, 0) + k
        p = pmul_keep(p, g, k)
    raise TooBig()


def pmul_keep(p, g, k):
    """p * g^k for a sum generator g and integer k, expanding the non-negative integer powers."""
    out = {}
    d = GENS[g].data
    for m, c in p.items():
        dm = dict(m)
        e = dm.pop(g, 0) + k
        fl = math.floor(e)
        if fl > 0:
            fr = _norm_e(e - fl)
            if fr:
                dm[g] = fr
            q = pmul({tuple(sorted(dm.items())): c}, ppow(d, fl))
        else:
            e = _norm_e(e)
            if e:
                dm[g] = e
            q = {tuple(sorted(dm.items())): c}
        out = padd(out, q)
        if len(out) > LIMIT:
            raise TooBig()
    return out


def divexact(n, d, limit=4000):
    """n / d if exact as polynomials in the generators, else None."""
    if len(d) < 2:
        return None
    ld = lead(d)
    inv = tuple((g, -e) for g, e in ld)
    cd = d[ld]
    q = {}
    r = dict(n)
    # cheap necessary condition: total steps bounded
    steps = 0
    dd = dict(ld)
    while r:
        lr = lead(r)
        er = dict(lr)
        for g, e in dd.items():
            if er.get(g, 0) - e < 0 <= e and GENS[g].kind != "exp":
                return None
        m = dict(er)
        for g, e in dd.items():
            x = _norm_e(F(m.get(g, 0)) - e)
            if x:
                m[g] = x
            else:
                m.pop(g, None)
        mm = tuple(sorted(m.items()))
        c = r[lr] / cd
        q[mm] = q.get(mm, 0) + c
        sub_ = pmul({mm: c}, d)
        r = padd(r, sub_, -1)
        if lr in r:
            return None
        steps += 1
        if steps > limit or len(r) > 4 * (len(n) + len(d)) + 50:
            return None
    return {m: c for m, c in q.items() if c}


_simp = {}


def simp(p):
    """Cancel sum denominators that divide the numerator exactly."""
    ns = neg_sums(p)
    if not ns or len(p) < 2:
        return p
    k = key(p)
    r = _simp.get(k)
    if r is not None:
        return r
    r = p
    for g in sorted(ns, reverse=True):
        d = GENS[g].data
        # group the monomials containing g^-k (same fractional part)
        while True:
            ns2 = neg_sums(r)
            if g not in ns2:
                break
            kk = -ns2[g]
            part = {m: c for m, c in r.items() if dict(m).get(g, 0) < 0}
            rest = {m: c for m, c in r.items() if m not in part}
            done = False
            for cand, other in ((part, rest), (r, {})):
                if len(cand) < 2:
                    continue
                if any(_norm_e(F(dict(m).get(g, 0)) % 1) != 0 for m in cand):
                    continue
                try:
                    num = pmul_keep(cand, g, kk)
                    if len(num) > 400:
                        continue
                    q = divexact(num, d, 400)
                except TooBig:
                    q = None
                if q is not None:
                    r = padd(other, pmul_keep(q, g, 1 - kk) if kk > 1 else q)
                    done = True
                    break
            if not done:
                break
    _simp[k] = r
    return r


# ------------------------------------------------------------------ rendering
def show(p, depth=3):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda kv: _mk(kv[0])):
        s = str(c)
        for g, e in m:
            s += "*" + gshow(g, depth) + ("" if e == 1 else f"^{e}")
        out.append(s)
    return " + ".join(out[:12]) + (" + …" if len(out) > 12 else "")


def gshow(g, depth=3):
    G = GENS[g]
    if G.kind == "var":
        return G.key
    if G.kind in ("pi", "i"):
        return G.kind
    if depth == 0:
        return f"{G.kind}#{g}"
    if G.kind == "exp":
        return "exp(" + show({G.data: F(1)}, depth - 1) + ")"
    if G.kind in ("sum", "log", "phi", "pos"):
        return f"{G.kind}[" + show(G.data, depth - 1) + "]"
    if G.kind == "prime":
        return str(G.key)
    return f"{G.kind}#{g}"
