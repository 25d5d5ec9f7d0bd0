"""Range reasoning for index polynomials: sound, incomplete, no solver.

A context holds inclusive bounds for symbols / index variables and extra facts
(polynomials known to be >= 0).  nonneg(p) eliminates bounded atoms by their
end points and adds facts; decide(cond) evaluates a boolean term to
True / False / None.
"""
import random
from .terms import *
from . import terms as T

INTFN = {'fdiv', 'size', 'nearest_i', 'nearest_j', 'len'}


class Ctx:
    def __init__(self, parent=None):
        self.ranges = dict(parent.ranges) if parent else {}
        self.facts = list(parent.facts) if parent else []
        self.bfacts = dict(parent.bfacts) if parent else {}
        self.rewrite = dict(parent.rewrite) if parent else {}
        self.samples = [dict(x) for x in parent.samples] if parent and parent.samples is not None else None
        self.stale = None
        self.memo = {}
        self.rmemo = {}
        self.bmemo = {}
        self.is_base = False
        self.base = None if parent is None else parent if parent.is_base else parent.base

    def copy(self):
        return Ctx(self)

    def bound(self, a, lo=None, hi=None):
        if isinstance(lo, int):
            lo = num(lo)
        if isinstance(hi, int):
            hi = num(hi)
        a = single_atom(a) if a.kind == 'poly' else a
        self.ranges[a] = (lo, hi)
        if self.samples is not None:
            for s in self.samples:
                _drop(s, a)
                if not _assign(s, a, lo, hi):
                    self.samples = None
                    break
        self.memo = {}
        self.rmemo = {}
        self.bmemo = {}
        return self

    def fact(self, p):
        if constval(p) is None and p not in self.facts:
            self.facts.append(p)
            if self.samples is not None:
                self.samples = [s for s in self.samples if _sval(p, s) is None or _sval(p, s) >= 0] or None
                if self.samples is None:
                    self.stale = True
            self.memo = {}
            self.rmemo = {}
            self.bmemo = {}

    def assume(self, c):
        """add boolean term as a fact"""
        if c.kind == 'B':
            return
        if c.kind == 'and':
            for x in c.args:
                self.assume(x)
            return
        self.bfacts[c] = True
        n = lnot(c)
        self.bfacts[n] = False
        self.memo = {}
        self.rmemo = {}
        self.bmemo = {}
        if c.kind == 'lt0':
            p = c.args[0]
            if is_int(p):
                self.fact(sub(neg(p), ONE))
            else:
                self.fact(neg(p))
        elif c.kind == 'not' and c.args[0].kind == 'lt0':
            self.fact(c.args[0].args[0])
        elif c.kind == 'eq0':
            self.fact(c.args[0])
            self.fact(neg(c.args[0]))
        elif c.kind == 'not' and c.args[0].kind == 'eq0':
            p = c.args[0].args[0]
            if is_int(p):
                if nonneg(p, self):
                    self.fact(sub(p, ONE))
                elif nonneg(neg(p), self):
                    self.fact(sub(neg(p), ONE))


# ---- sample points of the index symbols: they only refute attempts to prove something false
_rng = random.Random(7)


def _drop(s, a):
    """forget values that may depend on a"""
    for k in [k for k in s if k is a or k.kind not in ('sym', 'var')]:
        del s[k]


def _sval(p, s):
    """value of an integer polynomial at a sample point, or None"""
    tot = 0
    for m, c in p.args:
        x = c
        for a, e in m:
            v = s.get(a)
            if v is None:
                v = _aval(a, s)
                if v is None:
                    return None
                s[a] = v
            if v is _NOVAL:
                return None
            if e != 1:
                if e < 0:
                    return None
                v = v ** e
            x = x * v
        tot += x
    return tot


class _NV:
    pass


_NOVAL = _NV()


def _aval(a, s):
    if a.kind == 'app' and a.args[0] in ('fdiv', 'min', 'max'):
        v = [_sval(x, s) for x in a.args[1:]]
        if any(x is None for x in v):
            return _NOVAL
        if a.args[0] == 'fdiv':
            return v[0] // v[1] if v[1] else _NOVAL
        return min(v) if a.args[0] == 'min' else max(v)
    return _NOVAL if a.kind not in ('sym', 'var') else None


def _assign(s, a, lo, hi):
    l = 0 if lo is None else _sval(lo, s)
    h = None if hi is None else _sval(hi, s)
    if l is None or (hi is not None and h is None):
        return False
    if h is None:
        h = l + 6
    if lo is None:
        l = min(0, h)
    if h < l:
        return False
    s[a] = _rng.randint(-(-l // 1), h // 1) if -(-l // 1) <= h // 1 else l
    return True


def _mksamples(ctx):
    out = []
    for _ in range(15):
        s = {}
        pend = [a for a in ctx.ranges if a.kind in ('sym', 'var')]
        ok = True
        n = 0
        while pend:
            a = pend.pop(0)
            n += 1
            if n > 400:
                ok = False
                break
            lo, hi = ctx.ranges[a]
            if any(b is not None and _sval(b, s) is None for b in (lo, hi)):
                pend.append(a)
                continue
            if not _assign(s, a, lo, hi):
                ok = False
                break
        if not ok:
            continue
        for f in ctx.facts:
            v = _sval(f, s)
            if v is not None and v < 0:
                ok = False
                break
        if ok:
            out.append(s)
            if len(out) >= 6:
                break
    return out


def refuted(p, ctx):
    if ctx.samples is None:
        if ctx.stale is True or ctx.stale is None:
            ctx.stale = False
            ctx.samples = _mksamples(ctx) or None
        if ctx.samples is None:
            return False
    for s in ctx.samples:
        v = _sval(p, s)
        if v is not None and v < 0:
            return True
    return False


CUR = [Ctx()]


def cur():
    return CUR[-1]


def is_int(p):
    if p.kind == 'poly':
        return all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for m, c in p.args)
    if p.kind == 'var':
        return True
    if p.kind == 'sym':
        return p.args[0] in INTSYMS or p.args[0].startswith('n:')
    if p.kind == 'app':
        if p.args[0] in INTFN:
            return True
        if p.args[0] in ('min', 'max', 'abs'):
            return all(is_int(x) for x in p.args[1:])
        return False
    if p.kind == 'ite':
        return is_int(p.args[1]) and is_int(p.args[2])
    return False


INTSYMS = set()


def isym(name, lo=None):
    """integer symbol"""
    INTSYMS.add(name)
    s = sym(name)
    if lo is not None:
        cur().bound(s, lo)
    return s


def _int_nonneg(p):
    return is_int(p) and nonneg(p)


T.NONNEG = _int_nonneg


def _atom_nonneg(a, ctx, depth):
    r = ctx.ranges.get(a)
    if r is not None and r[0] is not None:
        lo = r[0]
        c = constval(lo)
        if c is not None:
            return c >= 0
        return nonneg(lo, ctx, depth + 1)
    if a.kind == 'app':
        f = a.args[0]
        if f in ('size', 'len', 'nearest_i', 'nearest_j', 'abs', 'sqrt'):
            return True
        if f == 'dist' or f == 'pi':
            return True
        if f == 'fdiv':
            return nonneg(a.args[1], ctx, depth + 1) and nonneg(sub(a.args[2], ONE), ctx, depth + 1)
        if f == 'max':
            return any(nonneg(x, ctx, depth + 1) for x in a.args[1:])
        if f == 'min':
            return all(nonneg(x, ctx, depth + 1) for x in a.args[1:])
    if a.kind == 'ite':
        return nonneg(a.args[1], ctx, depth + 1) and nonneg(a.args[2], ctx, depth + 1)
    return False


def nonneg(p, ctx=None, depth=0):
    ctx = ctx or cur()
    c = constval(p)
    if c is not None:
        return c >= 0
    key = p
    r = ctx.memo.get(key)
    if r is not None and (r[0] or r[1] <= depth):
        return r[0]
    if depth > 9:
        return False
    if refuted(p, ctx):
        ctx.memo[key] = (False, -1)
        return False
    ctx.memo[key] = (False, depth)     # cut cycles
    r = _nonneg(p, ctx, depth)
    ctx.memo[key] = (r, depth)
    return r


def _nonneg(p, ctx, depth):
    # every monomial obviously >= 0
    ok = True
    for m, c in p.args:
        if c < 0:
            ok = False
            break
        for a, e in m:
            if e % 2 and not _atom_nonneg(a, ctx, depth):
                ok = False
                break
        if not ok:
            break
    if ok:
        return True
    ats = list(atoms_of(p))
    # eliminate bounded atoms, bound-on-others first
    def order(a):
        r = ctx.ranges.get(a)
        k = 0 if a.kind == 'var' else 1
        dep = 0
        if r:
            for b in r:
                if b is not None and constval(b) is None:
                    dep = -1
        return (dep, k, -a.id)
    ats.sort(key=order)
    for a in ats:
        deg = max(e for m, _ in p.args for x, e in m if x is a)
        mn = min(e for m, _ in p.args for x, e in m if x is a)
        if deg != 1 or mn != 1:
            continue
        A = coef(p, a)
        if a.kind == 'app' and a.args[0] in ('min', 'max') and constval(A) is not None:
            Bp = sub(p, mul(A, atom(a)))
            conj = (a.args[0] == 'min') == (constval(A) > 0)
            it = (nonneg(add(Bp, mul(A, x)), ctx, depth + 1) for x in a.args[1:])
            if (all(it) if conj else any(it)):
                return True
            continue
        if a.kind == 'ite':
            Bp = sub(p, mul(A, atom(a)))
            res = True
            for cnd, br in ((a.args[0], a.args[1]), (lnot(a.args[0]), a.args[2])):
                c2 = ctx.copy()
                c2.assume(cnd)
                if not nonneg(add(Bp, mul(A, br)), c2, depth + 2):
                    res = False
                    break
            if res:
                return True
            continue
        r = ctx.ranges.get(a)
        lo = hi = None
        if r is not None:
            lo, hi = r
        elif a.kind == 'app' and a.args[0] in ('size', 'len', 'nearest_i', 'nearest_j', 'dist', 'abs', 'sqrt'):
            lo = ZERO
        if lo is None and hi is None:
            continue
        Bp = sub(p, mul(A, atom(a)))
        if lo is not None and nonneg(A, ctx, depth + 1):
            if nonneg(add(Bp, mul(A, lo)), ctx, depth + 1):
                return True
        elif hi is not None and nonneg(neg(A), ctx, depth + 1):
            if nonneg(add(Bp, mul(A, hi)), ctx, depth + 1):
                return True
    # facts
    if depth < 5:
        facts = list(ctx.facts)
        for a in ats:
            if a.kind == 'app' and a.args[0] == 'fdiv':
                x, d = a.args[1], a.args[2]
                if nonneg(sub(d, ONE), ctx, depth + 2):
                    r0 = sub(x, mul(d, atom(a)))
                    facts.append(r0)
                    facts.append(sub(sub(d, ONE), r0))
        pa = set(ats)
        for f in facts:
            for m, c in f.args:
                if not m:
                    continue
                # want to cancel monomial m of p
                for pm, pc in p.args:
                    k = _mquot(pm, m)
                    if k is None:
                        continue
                    q = T.norm(F(pc) / c)
                    if q <= 0:
                        continue
                    kp = mkp(((k, q),))
                    if k and not nonneg(kp, ctx, depth + 2):
                        continue
                    np_ = sub(p, mul(kp, f))
                    if len(np_.args) <= len(p.args) + 1 and nonneg(np_, ctx, depth + 2):
                        return True
    return False


def _mquot(a, b):
    """monomial quotient a/b or None"""
    d = dict(a)
    for x, e in b:
        if d.get(x, 0) < e or e < 0:
            return None
        d[x] -= e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))


def coef(p, a):
    """coefficient polynomial of atom a (degree 1)"""
    out = {}
    for m, c in p.args:
        if any(x is a for x, _ in m):
            mm = []
            for x, e in m:
                if x is a:
                    e -= 1
                if e:
                    mm.append((x, e))
            out[tuple(mm)] = out.get(tuple(mm), 0) + c
    return T._poly(out)


def pos(p, ctx=None):
    return nonneg(sub(p, ONE), ctx) if is_int(p) else False


# ------------------------------------------------------------------ floor division
def pdivmod(a, b):
    """polynomial division of a by b on the leading monomial of b; integer quotient part"""
    q = ZERO
    # leading monomial: highest total degree then id
    def lead(p):
        return max(p.args, key=lambda mc: (sum(e for _, e in mc[0]), tuple((x.id, e) for x, e in mc[0])))
    lm, lc = lead(b)
    for _ in range(12):
        hit = None
        for m, c in a.args:
            k = _mquot(m, lm)
            if k is None:
                continue
            f = F(c) / lc
            fl = f.numerator // f.denominator
            if not lm:
                # constant divisor: only exact part of nonconstant monomials, floor of constant
                if m and fl != f and abs(f) < 1:
                    fl = 0
                elif m and fl != f:
                    fl = int(f)
            elif fl != f:
                fl = int(f)
            if fl == 0:
                continue
            hit = mkp(((k, int(fl)),))
            break
        if hit is None:
            break
        q = add(q, hit)
        a = sub(a, mul(hit, b))
    return q, a


def fdiv(a, b, ctx=None):
    ctx = ctx or cur()
    cb = constval(b)
    ca = constval(a)
    if cb is not None and ca is not None and cb != 0:
        x = F(ca) / cb
        return num(x.numerator // x.denominator)
    if cb == 1 and is_int(a):
        return a
    if not (is_int(a) and is_int(b)):
        return atom(mk('app', 'fdiv', a, b))
    q, r = pdivmod(a, b)
    for _ in range(4):
        if nonneg(r, ctx):
            if nonneg(sub(sub(b, ONE), r), ctx):
                return q
            r2 = sub(r, b)
            if nonneg(r2, ctx):
                q, r = add(q, ONE), r2
                continue
            break
        r2 = add(r, b)
        if nonneg(sub(neg(r), ONE), ctx):
            q, r = sub(q, ONE), r2
            continue
        break
    # common factor: r = g*r1 + s, b = g*b1, 0<=s<g
    for g in _factors(b):
        qg, s = pdivmod(r, g)
        b1, z = pdivmod(b, g)
        if z.args:
            continue
        if s.args and not (nonneg(s, ctx) and nonneg(sub(sub(g, ONE), s), ctx)):
            continue
        if not pos(g, ctx):
            continue
        if qg.args:
            return add(q, fdiv(qg, b1, ctx)) if constval(b1) != 1 else add(q, qg)
    if not r.args:
        return q
    return add(q, atom(mk('app', 'fdiv', r, b)))


def _factors(b):
    """candidate proper factors of b"""
    out = []
    if len(b.args) == 1:
        m, c = b.args[0]
        if abs(c) > 1 and c.denominator == 1:
            out.append(num(abs(c)))
        for x, e in m:
            out.append(atom(x))
    else:
        from math import gcd
        g = 0
        for _, c in b.args:
            g = gcd(g, int(c)) if c.denominator == 1 else 1
        if g > 1:
            out.append(num(g))
        common = None
        for m, _ in b.args:
            s = {x for x, _ in m}
            common = s if common is None else common & s
        for x in sorted(common or (), key=lambda t: t.id):
            out.append(atom(x))
    return out


def mod(a, b, ctx=None):
    return sub(a, mul(b, fdiv(a, b, ctx)))


def cdiv(a, b, ctx=None):
    return fdiv(add(a, sub(b, ONE)), b, ctx)


T.REBUILD['fdiv'] = lambda a, b: fdiv(a, b)


# ------------------------------------------------------------------ deciding booleans
def decide(c, ctx=None):
    ctx = ctx or cur()
    k = c.kind
    if k == 'B':
        return c.args[0]
    v = ctx.bfacts.get(c)
    if v is not None:
        return v
    if k == 'not':
        r = decide(c.args[0], ctx)
        return None if r is None else not r
    if k == 'and':
        r = True
        for x in c.args:
            d = decide(x, ctx)
            if d is False:
                return False
            if d is None:
                r = None
        return r
    if k == 'or':
        r = False
        for x in c.args:
            d = decide(x, ctx)
            if d is True:
                return True
            if d is None:
                r = None
        return r
    if k == 'lt0':
        p = c.args[0]
        if nonneg(p, ctx):
            return False
        if is_int(p) and nonneg(sub(neg(p), ONE), ctx):
            return True
        return None
    if k == 'eq0':
        p = c.args[0]
        a = single_atom(p)
        if a is not None and a.kind == 'ite':
            x = decide(eq0(a.args[1]), ctx)
            if x is not None and x == decide(eq0(a.args[2]), ctx):
                return x
        if is_int(p):
            if nonneg(sub(p, ONE), ctx) or nonneg(sub(neg(p), ONE), ctx):
                return False
            # divisibility: content of non-constant part does not divide the constant
            if _indivisible(p, ctx):
                return False
        if nonneg(p, ctx) and nonneg(neg(p), ctx):
            return True
        return None
    if k == 'exists':
        c2 = ctx.copy()
        v, n, body = c.args
        c2.bound(v, ZERO, sub(n, ONE))
        d = decide(body, c2)
        if d is False:
            return False
        if nonneg(neg(n), ctx):
            return False
        if d is True and pos(n, ctx):
            return True
        return None
    return None


def _indivisible(p, ctx):
    from math import gcd
    g = 0
    c0 = 0
    for m, c in p.args:
        if m == ():
            c0 = c
        else:
            g = gcd(g, int(c))
    if g > 1 and c0.denominator == 1 and int(c0) % g:
        return True
    # p = b*X + r with symbolic b dividing all but a remainder 0<r<b
    for m, c in p.args:
        for x, e in m:
            b = atom(x)
            for k in (abs(int(c)) or 1, 1):
                bb = mul(num(k), b)
                q, r = pdivmod(p, bb)
                if q.args and r.args and r is not p:
                    if nonneg(sub(r, ONE), ctx) and nonneg(sub(sub(bb, ONE), r), ctx) and pos(bb, ctx):
                        return True
                    if nonneg(sub(neg(r), ONE), ctx) and nonneg(sub(add(bb, r), ONE), ctx) and pos(bb, ctx):
                        return True
    return False
