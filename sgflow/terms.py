"""Hash-consed value terms.

Numeric terms are multivariate polynomials with rational coefficients over
*atoms* (symbols, bound index variables, applications, gated values, element
reads).  Boolean terms are built from comparisons of polynomials against zero.
Every construction normalises, so structurally equal computations written in
different ways become the same object (value numbering).
"""
from fractions import Fraction as F
import itertools

_tab = {}
_ids = itertools.count()


def mkp(items):
    return mk('poly', *items)


class Term:
    __slots__ = ('kind', 'args', 'id', '_fv', '_atoms')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(kind, *args):
    key = (kind,) + args
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.kind = kind
        t.args = args
        t.id = next(_ids)
        t._fv = None
        t._atoms = None
        _tab[key] = t
    return t


# ------------------------------------------------------------------ numbers
def norm(c):
    return c.numerator if type(c) is not int and c.denominator == 1 else c


def _mkey(mc):
    return tuple([(a.id, e) for a, e in mc[0]])


def _poly(d):
    """d: dict mono->coef"""
    items = [(m, c if type(c) is int else norm(c)) for m, c in d.items() if c]
    if len(items) > 1:
        items.sort(key=_mkey)
    return mk('poly', *items)


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = F(repr(x)) if x == x and x not in (float('inf'), float('-inf')) else x
        if isinstance(x, float):
            return atom(mk('inf')) if x == float('inf') else (
                neg(atom(mk('inf'))) if x == float('-inf') else atom(mk('app', 'nan')))
    if type(x) is not int:
        x = norm(F(x))
    return mkp((((), x),) if x != 0 else ())


def atom(t):
    """wrap an atom as a polynomial"""
    if t.kind == 'poly':
        return t
    return mkp(((((t, 1),), 1),))


def sym(name):
    """a symbolic number (size or scalar parameter)"""
    return atom(mk('sym', name))


def ispoly(t):
    return isinstance(t, Term) and t.kind == 'poly'


def constval(t):
    if t.kind == 'poly':
        if t.args == ():
            return 0
        if len(t.args) == 1 and t.args[0][0] == ():
            return t.args[0][1]
    return None


def single_atom(t):
    if t.kind == 'poly' and len(t.args) == 1:
        m, c = t.args[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in t.args:
            d[m] = d.get(m, 0) + c
    return _poly(d)


def neg(t):
    return mkp(tuple((m, -c) for m, c in t.args))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        d = {}
        for m1, c1 in r.args:
            for m2, c2 in t.args:
                m = _mulmono(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        r = _poly(d)
    return r


def div(a, b):
    if len(b.args) == 1:
        m, c = b.args[0]
        return mul(a, mkp(((tuple((x, -e) for x, e in m), norm(1 / F(c))),)))
    if not b.args:
        return atom(mk('app', 'div0', a))
    if a is b:
        return ONE
    lead = F(b.args[0][1])
    bn = mkp(tuple((m, norm(c / lead)) for m, c in b.args))
    return mul(a, mkp(((((mk('app', 'inv', bn), 1),), norm(1 / lead)),)))


def power(a, k):
    kv = constval(k)
    if kv is not None and kv.denominator == 1 and 0 <= kv <= 6:
        r = ONE
        for _ in range(int(kv)):
            r = mul(r, a)
        return r
    if kv is not None and kv.denominator == 1 and -6 <= kv < 0:
        return div(ONE, power(a, num(-kv)))
    if kv == F(1, 2):
        return app('sqrt', a)
    av = constval(a)
    if av is not None and kv is not None and kv.denominator == 1 and abs(kv) <= 64:
        return num(av ** int(kv))
    return app('pow', a, k)


ZERO = mkp(())
ONE = num(1)
TWO = num(2)

TRUE = mk('B', True)
FALSE = mk('B', False)


def B(x):
    return TRUE if x else FALSE


# ------------------------------------------------------------------ atoms
def app(fn, *args):
    """application with light normalisation, returned as a polynomial"""
    if fn in ('min', 'max'):
        return minmax(fn, args)
    if fn == 'radians':
        return mul(args[0], div(atom(mk('app', 'pi')), num(180)))
    if fn == 'degrees':
        return mul(args[0], div(num(180), atom(mk('app', 'pi'))))
    if NANS and fn in ('abs', 'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'exp', 'log', 'floor', 'ceil') and \
            any(nanp(a) for a in args):
        return app('nan')
    if fn == 'abs':
        c = constval(args[0])
        if c is not None:
            return num(abs(c))
        if args[0].args and args[0].args[0][1] < 0:
            args = (neg(args[0]),)
    if fn == 'sqrt':
        c = constval(args[0])
        if c in (0, 1):
            return args[0]
    return atom(mk('app', fn, *args))


NONNEG = None     # installed by prove.py


def minmax(fn, args):
    flat = []
    for a in args:
        s = single_atom(a)
        if s is not None and s.kind == 'app' and s.args[0] == fn:
            flat += list(s.args[1:])
        else:
            flat.append(a)
    inf = mk('inf')
    if fn == 'min' and len(flat) > 1:
        flat = [a for a in flat if single_atom(a) is not inf] or flat[:1]
    consts = [constval(a) for a in flat if constval(a) is not None]
    rest = []
    for a in flat:
        if constval(a) is None and a not in rest:
            rest.append(a)
    if consts:
        rest.append(num(min(consts) if fn == 'min' else max(consts)))
    # drop arguments known to be dominated
    out = []
    dropped = []
    for a in rest:
        drop = False
        for b in rest:
            if b is a:
                continue
            d = sub(a, b) if fn == 'min' else sub(b, a)
            c = constval(d)
            if c is not None and c > 0:
                drop = True
            elif c is None and b not in dropped and NONNEG is not None and NONNEG(d):
                drop = True
        if drop:
            dropped.append(a)
        else:
            out.append(a)
    if len(out) == 1:
        return out[0]
    return atom(mk('app', fn, *sorted(out, key=lambda t: t.id)))


# ------------------------------------------------------------------ booleans
def _some(t):
    """whether a sum of indicators has a nonzero item, as a formula"""
    if t.kind != 'app' or t.args[0] != 'sum':
        return None
    _, v, n, body = t.args
    a = single_atom(body) if ispoly(body) else None
    if a is None:
        return None
    if a.kind == 'ite':
        c, x, y = a.args
        if y is ZERO and constval(x) in (1,):
            return exists(v, n, c)
        if x is ZERO and constval(y) in (1,):
            return exists(v, n, lnot(c))
        return None
    q = _some(a)
    return None if q is None else exists(v, n, q)


def _count(p):
    """p = k*S+d with S a sum of indicators: (k, d, S)"""
    if not 1 <= len(p.args) <= 2:
        return None
    k = d = 0
    S = None
    for m, c in p.args:
        if not m:
            d = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == 'sum':
            k, S = c, m[0][0]
        else:
            return None
    return None if S is None else (k, d, S)


NANS = False      # set while a scenario feeds NaN into the code: comparisons with it are false


def nanp(p):
    """does arithmetic on NaN give this value?"""
    return any(a.kind == 'app' and a.args[0] == 'nan' for m, _ in p.args for a, _ in m)


def _abs_of(p):
    """x if p is a multiple of abs(x)"""
    if NANS:
        return None         # abs(NaN) > 0 is not NaN != 0
    if len(p.args) == 1:
        m, _ = p.args[0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == 'abs':
            return m[0][0].args[1]
    return None


def lt0(p):
    if NANS and nanp(p):
        return FALSE
    c = constval(p)
    if c is not None:
        return B(c < 0)
    x = _abs_of(p)
    if x is not None:
        return lnot(eq0(x)) if p.args[0][1] < 0 else FALSE
    z = _count(p)
    if z is not None:
        k, d, S = z
        q = _some(S)
        if q is not None:
            if k > 0 and d >= 0:
                return FALSE
            if k < 0 and d < 0:
                return TRUE
            if k < 0 and d < -k:
                return q            # S > d/-k >= 0
            if k > 0 and -d <= k:
                return lnot(q)      # S < -d/k <= 1
    e = _expand_minmax(p, lt0)
    if e is not None:
        return e
    e = _expand_inf(p)
    if e is not None:
        return B(e < 0)
    return mk('lt0', _prim(p))


def le0(p):
    if NANS and nanp(p):
        return FALSE
    return lnot(lt0(neg(p)))


def _expand_inf(p):
    """sign of a polynomial containing +inf linearly (everything else finite)"""
    inf = mk('inf')
    s = 0
    for m, c in p.args:
        if any(a is inf for a, _ in m):
            if len(m) != 1:
                return None
            s += c
    return (1 if s > 0 else -1) if s else None


def _prim(p):
    """scale to a primitive polynomial, keeping sign"""
    from math import gcd
    if not p.args:
        return p
    if any(a.kind == 'app' and a.args[0] == 'pi' for m, _ in p.args for a, _e in m):
        return p
    den = 1
    for _, c in p.args:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for _, c in p.args:
        g = gcd(g, int(c * den))
    k = F(den, g)
    if k == 1:
        return p
    return mkp(tuple((m, norm(c * k)) for m, c in p.args))


def _expand_minmax(p, rel):
    for m, c in p.args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] in ('min', 'max'):
            a = m[0][0]
            rest = add(p, neg(mkp(((m, c),))))
            parts = [rel(add(rest, mul(num(c), x))) for x in a.args[1:]]
            ismin = (a.args[0] == 'min') == (c > 0)
            return lor(*parts) if ismin else land(*parts)
    return None


def eq0(p):
    if NANS and nanp(p):
        return FALSE
    c = constval(p)
    if c is not None:
        return B(c == 0)
    x = _abs_of(p)
    if x is not None:
        return eq0(x)
    z = _count(p)
    if z is not None and z[1] * z[0] >= 0:
        q = _some(z[2])
        if q is not None:
            return FALSE if z[1] else lnot(q)
    if _expand_inf(p) is not None:
        return FALSE
    p = _prim(p)
    if p.args[0][1] < 0:
        p = neg(p)
    return mk('eq0', p)


def eq(a, b):
    return eq0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def lnot(t):
    if t.kind == 'B':
        return B(not t.args[0])
    if t.kind == 'not':
        return t.args[0]
    if t.kind == 'and':
        return lor(*[lnot(x) for x in t.args])
    if t.kind == 'or':
        return land(*[lnot(x) for x in t.args])
    return mk('not', t)


def _junct(kind, unit, zero, ts):
    out = []
    for t in ts:
        if t is zero:
            return zero
        if t is unit:
            continue
        if t.kind == kind:
            for x in t.args:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    for t in out:
        if lnot(t) in out and t.kind not in ('and', 'or'):
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(kind, *sorted(out, key=lambda t: t.id))


def land(*ts):
    return _junct('and', TRUE, FALSE, ts)


def lor(*ts):
    return _junct('or', FALSE, TRUE, ts)


def isbool(t):
    return isinstance(t, Term) and t.kind in ('B', 'lt0', 'eq0', 'not', 'and', 'or', 'bapp', 'exists', 'brd')


def bapp(fn, *args):
    return mk('bapp', fn, *args)


def exists(var, n, body):
    """exists 0<=var<n: body"""
    if body is FALSE:
        return FALSE
    if var not in fv(body):
        return land(lt(ZERO, n), body)
    return mk('exists', var, n, body)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isbool(a) or isbool(b):
        return lor(land(c, a), land(lnot(c), b))
    if c.kind == 'not':
        return ite(c.args[0], b, a)
    if not ispoly(a) or not ispoly(b):
        return mk('ite', c, a, b)
    if c.kind == 'lt0':
        d = sub(a, b)
        # min / max shapes
        k = _ratio(d, c.args[0])
        if k is not None:
            # c: k*d<0 ... a<b iff d<0
            return app('min', a, b) if k > 0 else app('max', a, b)
    return atom(mk('ite', c, a, b))


def _ratio(d, p):
    """k with p == k*d, or None"""
    if len(d.args) != len(p.args) or not d.args:
        return None
    k = F(p.args[0][1]) / d.args[0][1]
    for (m1, c1), (m2, c2) in zip(d.args, p.args):
        if m1 != m2 or c2 != k * c1:
            return None
    return k


# ------------------------------------------------------------------ traversal
_NOFV = frozenset()


def fv(t):
    """free index variables"""
    r = t._fv
    if r is not None:
        return r
    k = t.kind
    s = set()
    if k == 'var':
        s.add(t)
    elif k == 'poly':
        for m, _ in t.args:
            for a, _e in m:
                s |= fv(a)
    elif k in ('rd', 'brd'):
        for x in t.args[1]:
            s |= fv(x)
        for x in t.args[2]:
            s |= fv(x)
    elif k == 'exists':
        s |= fv(t.args[1])
        s |= fv(t.args[2]) - {t.args[0]}
    else:
        for x in t.args:
            if isinstance(x, Term):
                s |= fv(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        s |= fv(y)
            elif hasattr(x, 'term_fv'):
                s |= x.term_fv()
        if k == 'app':
            for x in t.args[1:]:
                if isinstance(x, Term) and x.kind == 'var':
                    s.discard(x)
    r = frozenset(s) if s else _NOFV
    t._fv = r
    return r


def atoms_of(p):
    if p._atoms is None:
        s = []
        for m, _ in p.args:
            for a, _e in m:
                if a not in s:
                    s.append(a)
        p._atoms = tuple(s)
    return p._atoms


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    k = t.kind
    if k == 'poly':
        for m, _ in t.args:
            for a, _e in m:
                yield from subterms(a, seen)
    elif k in ('rd', 'brd'):
        for x in t.args[1] + t.args[2]:
            yield from subterms(x, seen)
    else:
        for x in t.args:
            if isinstance(x, Term):
                yield from subterms(x, seen)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        yield from subterms(y, seen)


def rebuild(t, f):
    """rebuild term t applying f to each immediate sub-term (atoms of a poly)"""
    k = t.kind
    if k == 'poly':
        out = None
        same = True
        reps = {}
        for a in atoms_of(t):
            r = f(a)
            if not ispoly(r):
                r = atom(r) if r.kind not in ('str',) else r
            reps[a] = r
            if r is not atom(a):
                same = False
        if same:
            return t
        acc = []
        for m, c in t.args:
            r = num(c)
            for a, e in m:
                x = reps[a]
                if e > 0:
                    for _ in range(e):
                        r = mul(r, x)
                else:
                    for _ in range(-e):
                        r = div(r, x)
            acc.append(r)
        return add(*acc) if acc else ZERO
    if k in ('sym', 'var', 'B', 'str', 'inf', 'none'):
        return t
    if k == 'app':
        new = [(_rb(x, f)) for x in t.args[1:]]
        if all(x is y for x, y in zip(new, t.args[1:])):
            return t
        return app_any(t.args[0], *new)
    if k == 'bapp':
        return mk('bapp', t.args[0], *[_rb(x, f) for x in t.args[1:]])
    if k == 'ite':
        c = f(t.args[0])
        if c is TRUE:
            return f(t.args[1])
        if c is FALSE:
            return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if k == 'lt0':
        return lt0(f(t.args[0]))
    if k == 'eq0':
        return eq0(f(t.args[0]))
    if k == 'not':
        return lnot(f(t.args[0]))
    if k == 'and':
        out = []
        for x in t.args:
            y = f(x)
            if y is FALSE:
                return FALSE
            out.append(y)
        return land(*out)
    if k == 'or':
        out = []
        for x in t.args:
            y = f(x)
            if y is TRUE:
                return TRUE
            out.append(y)
        return lor(*out)
    if k == 'exists':
        return exists(t.args[0], f(t.args[1]), f(t.args[2]))
    raise TypeError(k)


def _rb(x, f):
    if isinstance(x, Term):
        return f(x)
    if isinstance(x, tuple):
        return tuple(f(y) if isinstance(y, Term) else y for y in x)
    return x


REBUILD = {}


def app_any(fn, *args):
    h = REBUILD.get(fn)
    if h:
        return h(*args)
    return app(fn, *args)


def subst(t, env, memo=None):
    """capture-free substitution var->poly (bound variables are globally unique)"""
    if not env:
        return t
    if memo is None:
        memo = {}
    return _subst(t, env, memo)


def _subst(t, env, memo):
    if t.kind in ('var', 'sym') and t in env:
        return env[t]
    if t.kind not in ('sym',):
        pass
    r = memo.get(t)
    if r is not None:
        return r
    if t.kind in ('rd', 'brd'):
        snap, e, idx = t.args
        e2 = tuple(_subst(x, env, memo) for x in e)
        i2 = tuple(_subst(x, env, memo) for x in idx)
        r = RD(snap, e2, i2, t.kind)
    else:
        r = rebuild(t, lambda x: _subst(x, env, memo))
    memo[t] = r
    return r


RD = None   # installed by arrays.py


_ALPHA = {}
_ACAN = {}


def _canon(h, k):
    r = _ACAN.get((h, k))
    if r is None:
        r = _ACAN[(h, k)] = mk('var', '_a%d_%d' % (h, k))
    return r


def alpha(t):
    """the term with bound variables named canonically (for comparison only)"""
    return _alpha(t)[0]


def _alpha(t):
    r = _ALPHA.get(t)
    if r is not None:
        return r
    h = [0]

    def f(x):
        y, k = _alpha(x)
        h[0] = max(h[0], k)
        return y
    if t.kind == 'app' and any(isinstance(x, Term) and x.kind == 'var' for x in t.args[1:]):
        new = [x if isinstance(x, Term) and x.kind == 'var' else _rb(x, f) for x in t.args[1:]]
        vs = [x for x in new if isinstance(x, Term) and x.kind == 'var']
        m = {v: _canon(h[0] + 1, k) for k, v in enumerate(vs)}
        e = {v: atom(c) for v, c in m.items()}
        new = [m[x] if isinstance(x, Term) and x.kind == 'var' else _rb(x, lambda y: subst(y, e)) for x in new]
        r = (mk('app', t.args[0], *new), h[0] + 1)
    elif t.kind == 'exists':
        n, b = f(t.args[1]), f(t.args[2])
        c = _canon(h[0] + 1, 0)
        r = (mk('exists', c, n, subst(b, {t.args[0]: atom(c)})), h[0] + 1)
    elif t.kind in ('rd', 'brd'):
        r = (t, 0)
    else:
        r = (rebuild(t, f), h[0])
    _ALPHA[t] = r
    return r


def var(name, _c=itertools.count()):
    return mk('var', '%s#%d' % (name, next(_c)))


def string(s):
    return mk('str', s)


# ------------------------------------------------------------------ display
def show(t, depth=6):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return '...'
    k = t.kind
    d = depth - 1
    if k == 'poly':
        if not t.args:
            return '0'
        parts = []
        for m, c in t.args:
            ms = '*'.join(show(a, d) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not ms:
                ms = fshow(c)
            elif c == -1:
                ms = '-' + ms
            elif c != 1:
                ms = fshow(c) + '*' + ms
            parts.append(ms)
        parts.sort(key=lambda s: (s.lstrip('-')[:1].isdigit(), s))
        r = parts[0]
        for p in parts[1:]:
            r += p if p.startswith('-') else '+' + p
        return r if len(parts) == 1 or depth == 6 else '(' + r + ')'
    if k in ('sym',):
        return t.args[0]
    if k == 'var':
        return t.args[0].split('#')[0] + "'"
    if k == 'B':
        return str(t.args[0])
    if k == 'str':
        return repr(t.args[0])
    if k == 'inf':
        return 'inf'
    if k in ('app', 'bapp'):
        if t.args[0] == 'in':
            return '%s[%s]' % (t.args[1], ','.join(show(x, d) for x in t.args[2:]))
        return '%s(%s)' % (t.args[0], ','.join(show(x, d) for x in t.args[1:]))
    if k == 'ite':
        return '(%s if %s else %s)' % (show(t.args[1], d), show(t.args[0], d), show(t.args[2], d))
    if k == 'lt0':
        return '%s<0' % show(t.args[0], d)
    if k == 'eq0':
        return '%s==0' % show(t.args[0], d)
    if k == 'not':
        return 'not(%s)' % show(t.args[0], d)
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(show(x, d) for x in t.args) + ')'
    if k in ('rd', 'brd'):
        return '%s[%s]' % (t.args[0], ','.join(show(x, d) for x in t.args[2]))
    if k == 'exists':
        return 'any(%s<%s: %s)' % (show(t.args[0], d), show(t.args[1], d), show(t.args[2], d))
    return '%s%r' % (k, t.args)


def fshow(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    return repr(f) if F(repr(f)) == c else '%d/%d' % (c.numerator, c.denominator)
