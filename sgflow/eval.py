"""Random interpretation of value terms.

Two closed-form value terms derived by the value-flow analysis are compared by
interpreting them in a common random model: index symbols become small
integers satisfying their ranges, input-array elements become pseudo-random
reals, known functions have their mathematical meaning and unknown ones are
pseudo-random functions of their arguments.  Equal terms always agree; distinct
ones disagree except with negligible probability.
"""
import hashlib
import math
import random
import struct
import itertools
from .terms import *
from . import terms as T
from .prove import *
from . import prove as PR
from .arrays import *

R_EARTH = 6370997.0


class EvalError(Exception):
    pass


def canon(x):
    if isinstance(x, bool):
        return 'B%d' % x
    if isinstance(x, float):
        if x != x:
            return 'nan'
        if x in (math.inf, -math.inf):
            return repr(x)
        if x == int(x) and abs(x) < 1e15:
            return str(int(x))
        return '%.7g' % x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, tuple):
        return '(' + ','.join(canon(y) for y in x) + ')'
    return str(x)


def h01(*key):
    """pseudo-random real in (0,1) from a key"""
    d = hashlib.blake2b('|'.join(canon(k) for k in key).encode(), digest_size=8).digest()
    return (struct.unpack('<Q', d)[0] + 1) / (2 ** 64 + 2)


def gc_dist(lon1, lat1, lon2, lat2, R=R_EARTH):
    p1, p2 = math.radians(lat1), math.radians(lat2)
    dl = math.radians(lon2 - lon1)
    a = math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(dl / 2) ** 2
    return 2 * R * math.asin(min(1.0, math.sqrt(max(a, 0.0))))


def slerp(lon1, lat1, lon2, lat2, f):
    p1, p2, l1, l2 = (math.radians(x) for x in (lat1, lat2, lon1, lon2))
    a = (math.cos(p1) * math.cos(l1), math.cos(p1) * math.sin(l1), math.sin(p1))
    b = (math.cos(p2) * math.cos(l2), math.cos(p2) * math.sin(l2), math.sin(p2))
    w = math.atan2(math.sqrt((a[1] * b[2] - a[2] * b[1]) ** 2 + (a[2] * b[0] - a[0] * b[2]) ** 2 + (a[0] * b[1] - a[1] * b[0]) ** 2), sum(x * y for x, y in zip(a, b)))
    if w < 1e-7:            # sin is linear: straight interpolation
        c = tuple((1 - f) * x + f * y for x, y in zip(a, b))
    else:
        s, t = math.sin((1 - f) * w) / math.sin(w), math.sin(f * w) / math.sin(w)
        c = tuple(s * x + t * y for x, y in zip(a, b))
    return math.degrees(math.atan2(c[1], c[0])), math.degrees(math.atan2(c[2], math.hypot(c[0], c[1])))


# conditions of bounds, which correct code may set where they are never reached
SOFT = set()


class Model:
    def __init__(self, seed, syms=None, inp=None, fn=None, default=None):
        self.seed = seed
        self.syms = dict(syms or {})
        self.inp = inp
        self.fn = fn or {}
        self.memo = {}
        self.rmemo = {}
        self.default = default
        self.steps = 0
        self.noise = 0.0
        self.nrng = None
        self.over = None        # leaf -> value replacing the model's own
        self.track = None       # leaves read, when a list
        self.sizes = 4          # largest length of a list of unknown length
        self.cov = None         # condition -> {truth value: environment}
        self.free = None        # leaf -> (low, high) range it may be given, None when fixed

    def noisy(self, amp, seed):
        """the same model with rounding noise on every elementary function (conditioning estimate)"""
        M = Model(self.seed, self.syms, self.inp, self.fn, self.default)
        M.over, M.free, M.sizes = self.over, self.free, self.sizes
        M.noise = amp
        M.nrng = random.Random(seed)
        return M

    def rnd(self, *key):
        return h01(self.seed, *key)

    # ---------------------------------------------------------------- terms
    def ev(self, t, env=None):
        env = env or {}
        f = fv(t)
        key = (t, tuple((v.id, env[v]) for v in sorted(f, key=lambda v: v.id) if v in env)) if f else t
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 3000000:
                raise EvalError('budget')
            r = self._ev(t, env)
            self.memo[key] = r
        return r

    def num(self, t, env=None):
        r = self.ev(t, env)
        return float(r) if isinstance(r, bool) else r

    def _poly(self, t, env):
        tot = 0
        scale = 0.0
        for m, c in t.args:
            x = int(c) if c.denominator == 1 else c.numerator / c.denominator
            for a, e in m:
                y = self.num(a, env)
                if isinstance(y, str) or isinstance(y, tuple):
                    y = self.rnd('num', y)
                if e < 0:
                    if y == 0:
                        if x == 0 or x != x:
                            x = math.nan
                        else:
                            x = math.inf if x > 0 else -math.inf
                        continue
                    x = x / (y ** (-e))
                else:
                    try:
                        x = x * y ** e
                    except OverflowError:
                        x = math.inf
            tot = tot + x
            if not isinstance(x, int):
                scale = max(scale, abs(x))
        return tot, scale

    def _ev(self, t, env):
        k = t.kind
        if k == 'poly':
            return self._poly(t, env)[0]
        if k == 'B':
            return t.args[0]
        if k == 'sym':
            n = t.args[0]
            if n in self.syms:
                if (self.track is not None or self.over) and not is_int(t):
                    return self.leaf(('sym', n), self.syms[n])
                return self.syms[n]
            if n.startswith('?'):
                raise EvalError('opaque ' + n)
            if is_int(t):
                r = PR.cur().ranges.get(t)
                lo = 1
                return 1 + int(self.rnd('isym', n) * 4)
            if n == 'f:R':
                return R_EARTH
            return self.generic(('sym', n))
        if k == 'var':
            if t in env:
                return env[t]
            raise EvalError('free variable %s' % t.args[0])
        if k in ('str', 'none'):
            return 's:' + str(t.args[0]) if t.args else 'none'
        if k == 'inf':
            return math.inf
        if k in ('rd', 'brd'):
            snap, e, ix = t.args
            return self.read(snap, tuple(self.num(x, env) for x in e), tuple(self.num(x, env) for x in ix))
        if k == 'ite':
            c = self.ev(t.args[0], env)
            if self.cov is not None:
                c = bool(c)
                self.cov.setdefault(t.args[0], {}).setdefault(c, env)
            return self.ev(t.args[1], env) if c else self.ev(t.args[2], env)
        if k == 'lt0':
            v, s = self._poly(t.args[0], env)
            if not isinstance(v, int) and v == v and s < math.inf and abs(v) <= 1e-12 * s:
                return False
            return v < 0
        if k == 'eq0':
            v, s = self._poly(t.args[0], env)
            if not isinstance(v, int) and v == v and s < math.inf and abs(v) <= 1e-12 * s:
                return True
            return v == 0
        if k == 'not':
            return not self.ev(t.args[0], env)
        if k == 'and':
            return all(self.ev(x, env) for x in t.args)
        if k == 'or':
            return any(self.ev(x, env) for x in t.args)
        if k == 'exists':
            v, n, body = t.args
            for i in range(int(self.num(n, env))):
                e2 = dict(env)
                e2[v] = i
                if self.ev(body, e2):
                    return True
            return False
        if k == 'app':
            return self.app(t, env)
        if k == 'bapp':
            if t.args[0] == 'unk':
                raise EvalError('opaque condition')
            f = self.fn.get(t.args[0])
            args = tuple(self.arg(x, env) for x in t.args[1:])
            if f:
                return bool(f(*args))
            if t.args[0] == 'isnan':
                return args[0] != args[0]
            return self.rnd('bapp', t.args[0], args) < 0.5
        raise EvalError('term kind ' + k)

    def arg(self, x, env):
        if isinstance(x, Term):
            return self.num(x, env)
        return x if not isinstance(x, tuple) else tuple(self.arg(y, env) for y in x)

    def cond(self, c, env):
        r = bool(self.ev(c, env))
        if self.cov is not None:
            self.cov.setdefault(c, {}).setdefault(r, dict(env))
        return r

    def leaf(self, key, val):
        if self.over and key in self.over:
            val = self.over[key]
        if self.track is not None and isinstance(val, (int, float)) and not isinstance(val, bool):
            self.track[key] = val
        return val

    def generic(self, key):
        r = None
        if self.default:
            r = self.default(key)
        if r is None:
            r = self.rnd(*key) * 2 - 1
        if self.over or self.track is not None:
            r = self.leaf(key, r)
        return r

    def app(self, t, env):
        fn = t.args[0]
        a = t.args[1:]
        h = getattr(self, 'f_' + fn, None)
        if h is not None:
            return h(a, env)
        if any(isinstance(x, Term) and x.kind == 'var' for x in a) and fn not in ('in', 'file'):
            return self.opaque_binder(t, env)
        args = tuple(self.arg(x, env) for x in a)
        f = self.fn.get(fn)
        if f is not None:
            return f(*args)
        m = MATH.get(fn)
        if m is not None:
            if any(isinstance(x, (str, tuple)) for x in args):
                return self.generic((fn,) + args)
            if self.cov is not None and fn in ('min', 'max') and len(a) == 2 and (constval(a[0]) is None) != (constval(a[1]) is None):
                c = lt(a[0], a[1])
                if c.kind == 'lt0' and args[0] != args[1]:
                    SOFT.add(c)
                    self.cov.setdefault(c, {}).setdefault(args[0] < args[1], env)
            try:
                r = m(*args)
                if self.noise and isinstance(r, float):
                    r *= 1 + self.noise * (2 * self.nrng.random() - 1)
                return r
            except (ValueError, ZeroDivisionError):
                return math.nan
            except OverflowError:
                return math.inf
        if fn == 'in' and self.inp is not None:
            r = self.inp(*args)
            if r is not None:
                if self.over or self.track is not None:
                    r = self.leaf(('in',) + args, r)
                return r
        if fn in ('size', 'len', 'nearest_i', 'nearest_j') :
            return 1 + int(self.rnd(fn, args) * self.sizes)
        if fn == 'nan':
            return math.nan
        return self.generic((fn,) + args)

    def opaque_binder(self, t, env):
        """application whose arguments bind index variables: hash of the enumerated body"""
        args = t.args[1:]
        binders = []
        out = []
        k = 0
        while k < len(args):
            x = args[k]
            if isinstance(x, Term) and x.kind == 'var':
                binders.append((x, args[k + 1]))
                k += 2
                continue
            out.append(x)
            k += 1

        def enum(bs, e):
            if not bs:
                return tuple(self.arg(x, e) for x in out)
            v, n = bs[0]
            n = int(self.num(n, e))
            r = []
            for i in range(n):
                e2 = dict(e)
                e2[v] = i
                r.append(enum(bs[1:], e2))
            return (n, tuple(r))
        body = enum(binders, dict(env))
        if t.args[0] == 'lam':
            return 'lam:' + hashlib.blake2b(canon(body).encode(), digest_size=8).hexdigest()
        return self.generic((t.args[0], body))

    def _enum(self, v, n, body, env):
        for i in range(int(self.num(n, env))):
            e2 = dict(env)
            e2[v] = i
            yield i, e2

    def f_size(self, a, env):
        x = a[0]
        x = single_atom(x) if ispoly(x) else x
        if x is not None and x.kind == 'app':
            if x.args[0] in ('usorted', 'sorted', 'usorted_r', 'sorted_r', 'nunique', 'uset'):
                return int(self.num(x, env))
            if x.args[0] == 'in':           # independent of the seed, so that ranges derived from it are stable
                return 1 + int(h01('size', tuple(self.arg(y, env) for y in x.args[1:])) * self.sizes)
        return 1 + int(self.rnd('size', self.arg(a[0], env)) * self.sizes)

    def _list(self, a, env):
        x = single_atom(a[0]) if ispoly(a[0]) else a[0]
        v, n, body = x.args[1:]
        return [self.num(body, e) for _, e in self._enum(v, n, body, env)]

    def f_nunique(self, a, env):
        return len(set(self._list(a, env)))

    def _pick(self, l, a, env):
        k = int(self.num(a[1], env))
        if not 0 <= k < len(l):
            raise EvalError('list index')
        return l[k]

    def f_usorted(self, a, env):
        return self._pick(sorted(set(self._list(a, env))), a, env)

    def f_uset(self, a, env):
        return self._pick(sorted(set(self._list(a, env)), key=lambda x: h01('order', x)), a, env)

    def f_usorted_r(self, a, env):
        return self._pick(sorted(set(self._list(a, env)), reverse=True), a, env)

    def f_sorted(self, a, env):
        return self._pick(sorted(self._list(a, env)), a, env)

    def f_sorted_r(self, a, env):
        return self._pick(sorted(self._list(a, env), reverse=True), a, env)

    def f_sum(self, a, env):
        v, n, body = a
        return sum(self.num(body, e) for _, e in self._enum(v, n, body, env))

    def f_prod(self, a, env):
        v, n, body = a
        r = 1
        for _, e in self._enum(v, n, body, env):
            r = r * self.num(body, e)
        return r

    def f_rmin(self, a, env):
        base, v, n, body = a
        r = self.num(base, env)
        for _, e in self._enum(v, n, body, env):
            x = self.num(body, e)
            if x < r:
                r = x
        return r

    def f_rmax(self, a, env):
        base, v, n, body = a
        r = self.num(base, env)
        for _, e in self._enum(v, n, body, env):
            x = self.num(body, e)
            if x > r:
                r = x
        return r

    def _arg(self, a, env, sign):
        base, bkey, v, n, key, X = a
        r = self.num(base, env)
        kv = self.num(bkey, env)
        for _, e in self._enum(v, n, key, env):
            x = self.num(key, e)
            if (x < kv if sign < 0 else x > kv):
                kv = x
                r = self.num(X, e)
        return r

    def f_rargmin(self, a, env):
        return self._arg(a, env, -1)

    def f_rargmax(self, a, env):
        return self._arg(a, env, 1)

    # ---------------------------------------------------------------- arrays
    def read(self, s, env, ix):
        key = (s.uid, env, ix)
        r = self.rmemo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 3000000:
                raise EvalError('budget')
            r = self._read(s, env, ix)
            self.rmemo[key] = r
        return r

    def _read(self, s, env, ix):
        m = dict(zip(s.fvs, env))
        if isinstance(s, Const):
            return self.ev(s.val)
        if isinstance(s, Inp):
            if isinstance(s.name, tuple):
                t = mk('app', *s.name, *[num(int(x)) for x in ix])
            else:
                if isinstance(s.name, str) and s.name.startswith('!'):
                    raise EvalError('uninitialised element')
                t = mk('app', 'in', s.name, *[num(int(x)) for x in env], *[num(int(x)) for x in ix])
            return self.ev(t)
        if isinstance(s, Lam):
            m.update(zip(s.vars, ix))
            return self.ev(s.body, m)
        if isinstance(s, Sel):
            p = s.a if self.cond(s.c, m) else s.b
            return self.read(p, tuple(m[v] for v in p.fvs), ix)
        if isinstance(s, Upd):
            w = self.writers(s, env, m)
            b = w.get(ix)
            if b is None:
                p = s.prev
                return self.read(p, tuple(m[v] for v in p.fvs), ix)
            m.update(b)
            return self.ev(s.val, m)
        if isinstance(s, LoopEnd):
            n = int(self.num(s.phi.loop.n, m))
            return self.after(s.phi, m, n, ix)
        if isinstance(s, Phi):
            return self.after(s, m, m[s.loop.v], ix)
        raise EvalError('snap')

    def after(self, ph, m, k, ix):
        m = dict(m)
        if k <= 0 or ph.body_end is ph:
            p = ph.base
            return self.read(p, tuple(m[v] for v in p.fvs), ix)
        m[ph.loop.v] = k - 1
        p = ph.body_end
        return self.read(p, tuple(m[v] for v in p.fvs), ix)

    def writers(self, s, env, m):
        key = ('w', s.uid, env)
        w = self.rmemo.get(key)
        if w is None:
            w = {}

            def go(bs, e):
                if not bs:
                    if s.guard is TRUE or self.cond(s.guard, e):
                        w[tuple(self.num(x, e) for x in s.idx)] = {v: e[v] for v, _ in s.bvars}
                    return
                v, n = bs[0]
                for i in range(int(self.num(n, e))):
                    e2 = dict(e)
                    e2[v] = i
                    go(bs[1:], e2)
            go(list(s.bvars), dict(m))
            self.rmemo[key] = w
        return w


def _acos(x):
    if abs(x) > 1 and abs(x) < 1 + 1e-9:
        x = math.copysign(1.0, x)
    return math.acos(x)


def _asin(x):
    if abs(x) > 1 and abs(x) < 1 + 1e-9:
        x = math.copysign(1.0, x)
    return math.asin(x)


def _sqrt(x):
    return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-12 else math.nan)


def _nl(lon):
    return lon


MATH = {
    'pi': lambda: math.pi, 'sqrt': _sqrt, 'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'arccos': _acos, 'arcsin': _asin,
    'acos': _acos, 'asin': _asin, 'arctan': math.atan, 'atan': math.atan, 'arctan2': math.atan2, 'exp': math.exp, 'log': math.log,
    'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh, 'abs': abs, 'min': min, 'max': max,
    'fdiv': lambda a, b: (a // b if b else 0), 'inv': lambda a: (1 / a if a else math.inf), 'pow': lambda a, b: a ** b,
    'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'int': lambda a: int(a) if a == a and abs(a) < 1e300 else 0, 'f4': lambda a: struct.unpack('f', struct.pack('f', a))[0],
    'fmod': math.fmod, 'copysign': math.copysign, 'round': lambda a, *k: float(round(a, *[int(x) for x in k])),
    'sign': lambda a: (a > 0) - (a < 0), 'cbrt': lambda a: math.copysign(abs(a) ** (1 / 3), a),
    'dist': lambda a, b, c, d: gc_dist(a, b, c, d),
    'npts_lon': lambda a, b, c, d, n, k: slerp(a, b, c, d, (k + 1) / (n + 1))[0],
    'npts_lat': lambda a, b, c, d, n, k: slerp(a, b, c, d, (k + 1) / (n + 1))[1],
    'div0': lambda a: math.nan if a == 0 else math.copysign(math.inf, a),
    'nan': lambda: math.nan, 'swapbytes': lambda a: struct.unpack('<d', struct.pack('>d', a))[0],
}


def close(a, b, rtol=1e-7):
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        return a == b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    a, b = float(a), float(b)
    if a != a or b != b:
        return (a != a) and (b != b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-9


def opaque(t):
    """does the term contain something the analysis does not know?"""
    for s in subterms(t):
        if s.kind == 'sym' and isinstance(s.args[0], str) and s.args[0].startswith('?'):
            return s.args[0]
        if s.kind == 'bapp' and s.args[0] == 'unk':
            return 'unknown condition'
    return None
