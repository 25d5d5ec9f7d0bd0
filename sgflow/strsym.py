"""String operations on partially known strings.

Known parts are kept, unknown parts are replaced by distinct tokens, the operation is applied to the resulting constant strings and
the tokens in the result are replaced by the parts they stand for.  This is done for several assignments of tokens (with and without dots,
digits, slashes); a result that is not the same for all of them is not determined by the known parts and NOPE is returned."""
import re
import posixpath
from .terms import *            # noqa
from .values import *           # noqa

NOPE = object()
_SYM = ('qAx', 'r9.T/z8.5', 'v7/', '/w6/u')


_TOK = {
    'word': ('q%dAx', 'Z%dut', 'n%dm', '_%db'),
    'name': ('q%dAx', 'The%dta.x', 'n-%de', '_%db'),
    'int': ('7%d3', '15%d9', '8%d041', '9%d7'),
    'float': ('1%d.5', '2.%d7', '3.%d1E+05', '4%d.25e-3'),
    'junk': ('q%dAx', 'n%d-m', '1%d-2', 'x/%d'),
    'junk-e': ('h%dello', 'tru%de', '1%de2e3', 'E%dx'),
    'unit': ('1%ddays', '1.%d5s', '2%d.m', '3.%d1E+05K'),
    'sign': ('1%d-', '--1.%d5', '2%d+3', '+-3.%d'),
    'exp': ('1.%de', '2%d.5E+', '3.%d1e-', '4%dE'),
    'junk-dot': ('x%d.y', '1.%d.2', '..%d', 'a.b%dc'),
}
_APPLY = ('lower', 'upper')


class Bad(Exception):
    pass


class Tokens:
    def __init__(self, k):
        self.k = k
        self.by = {}
        self.back = {}

    def token(self, p):
        t = self.by.get(p)
        if t is not None:
            return t
        n = len(self.by)
        if p[0] == 'num':
            m = re.match(r'^0?(\d*)d?$', p[2] or '')
            if not m:
                raise Bad()
            w = int(m.group(1) or 0)
            if w:
                if not p[2].startswith('0'):
                    raise Bad()
                s = (('7%d31', '0%d82', '1%d59', '8%d07')[self.k] % n)
                if len(s) > w:
                    raise Bad()
                s = s[0] + '0' * (w - len(s)) + s[1:]
            else:
                s = ('7%d31', '8%d', '15%d9', '90%d047')[self.k] % n
        elif p[0] == 'digits':
            # decimal digits of an integer, exactly p[2] of them
            w = p[2]
            if w <= 2:
                # digits of other scripts cannot be mistaken for the digits of a constant
                z = (0x660, 0x6f0, 0x7c0, 0x966, 0x9e6, 0xa66, 0xae6, 0xb66, 0xbe6, 0xc66, 0xce6, 0xd66)
                if self.k + 4 * (n // 10) >= len(z):
                    raise Bad()
                s = chr(z[self.k + 4 * (n // 10)] + n % 10) * w
            else:
                s = ('7%d31', '9%d82', '1%d59', '8%d07')[self.k] % n
                s = s[0] + (s[1:] + '4' * w)[-(w - 1):] if len(s) < w or n < 10 else s
                if len(s) != w:
                    s = (s + '4' * w)[:w]
                while s in self.back:
                    s = s[:-1] + str((int(s[-1]) + 1) % 10)
        elif p[0] == 'real':
            s = ('1.%d5E+03', '-2.%d7E-04', '3.%d1E+05', '4.%d25e+00')[self.k] % n
        elif p[0] == 'tok':
            s = _TOK[p[1]][self.k] % n
        elif p[0] in _APPLY and len(p) > 1 and p[1] == 'tok':
            s = getattr(self.token(p[1:]), p[0])()
            if s in self.back:
                return s
        elif p[0] in ('choice', 'unk', 'obj', 'join', 'fmt'):
            raise Bad()
        elif p[0] == 'var':
            return p[1 + self.k]
        elif p[0] != 'sym':
            # text computed in a way not modelled
            raise Bad()
        else:
            s = _SYM[self.k]
            if p[0] in ('rstrip', 'dirname') and s.endswith('/'):
                s = 'v7x'
            s = s[0] + str(n) + s[1:]
        self.by[p] = s
        self.back[s] = p
        return s

    def fill(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, SStr):
            return ''.join(p if isinstance(p, str) else self.token(p) for p in v.parts)
        if isinstance(v, tuple):
            return tuple(self.fill(x) for x in v)
        return v

    def restore(self, r):
        if isinstance(r, str):
            if not self.back:
                return r
            out = []
            rx = '|'.join(re.escape(s) for s in sorted(self.back, key=len, reverse=True))
            pos = 0
            for m in re.finditer(rx, r):
                out.append(r[pos:m.start()])
                out.append(SStr([self.back[m.group(0)]]))
                pos = m.end()
            out.append(r[pos:])
            return sstr(*out)
        if isinstance(r, (list, tuple)):
            return type(r)(self.restore(x) for x in r)
        if isinstance(r, re.Match):
            return ('match', self.restore((r.group(0),) + r.groups()))
        if r is None or isinstance(r, (bool, int)):
            return r
        raise Bad()


def concrete(vals):
    return all(not isinstance(v, SStr) for v in vals)


def run(f, *args):
    """f applied to partially known strings; result with the unknown parts put back, or NOPE"""
    ks = (0,) if all(isinstance(a, str) or not isinstance(a, (SStr, tuple)) for a in args) else (0, 1, 2, 3)
    res, raw = [], []
    try:
        for k in ks:
            t = Tokens(k)
            r = f(*[t.fill(a) for a in args])
            raw.append(r)
            res.append(t.restore(r))
    except Bad:
        return NOPE
    except (ValueError, IndexError, TypeError, AttributeError, re.error):
        return NOPE
    if all(repr(r) == repr(res[0]) for r in res):
        return res[0]
    if all(known(a) for a in args if isinstance(a, SStr)):
        return combine(res, raw)
    return NOPE


def combine(res, raw):
    """one value for results that differ between the assignments of tokens"""
    if all(repr(r) == repr(res[0]) for r in res):
        return res[0]
    if all(isinstance(r, str) for r in raw):
        return SStr([('var',) + tuple(raw)])
    if all(isinstance(r, re.Match) for r in raw):
        raw = [(r.group(0),) + r.groups() for r in raw]
        m = combine([r[1] for r in res], raw)
        return NOPE if m is NOPE else ('match', m)
    if all(isinstance(r, (list, tuple)) and len(r) == len(raw[0]) for r in raw):
        out = [combine([r[j] for r in res], [r[j] for r in raw]) for j in range(len(raw[0]))]
        return NOPE if any(x is NOPE for x in out) else type(raw[0])(out)
    return NOPE


def generic(v):
    """made of constants and generic tokens only: relations that hold for no choice of the tokens are false"""
    return isinstance(v, str) or all(isinstance(p, str) or p[0] in ('tok', 'var') or p[0] in _APPLY and p[1] == 'tok' for p in v.parts)


def same(a, b):
    """equality of two partially known strings, None when undetermined"""
    if not (generic(a) and generic(b)):
        return None
    r = run(lambda x, y: x == y, a, b)
    return None if r is NOPE else r


def rejects(f, v):
    """does f raise ValueError for the string (True / False / None when it depends on the unknown parts)"""
    seen = set()
    try:
        for k in (0, 1, 2, 3):
            t = Tokens(k)
            x = t.fill(v)
            try:
                f(x)
                seen.add(False)
            except ValueError:
                seen.add(True)
    except Bad:
        return None
    return seen.pop() if len(seen) == 1 else None


def known(v):
    """consists of constant parts and parts of known form only"""
    return all(isinstance(p, str) or p[0] in ('num', 'tok', 'var', 'digits', 'real') or p[0] in _APPLY and p[1] == 'tok' for p in v.parts)


def number_of(v):
    """int() of a string: the number it was formatted from"""
    if isinstance(v, SStr) and len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] in ('num', 'digits'):
        p = v.parts[0]
        if p[0] == 'digits':
            return p[1]
        if re.match(r'^0?\d*d?$', p[2] or ''):
            return p[1]
    return None


METHODS = ('split', 'rsplit', 'partition', 'rpartition', 'replace', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'find', 'rfind', 'index', 'rindex', 'count',
           'isdigit', 'isnumeric', 'isdecimal', 'removesuffix', 'removeprefix', 'lower', 'upper')
