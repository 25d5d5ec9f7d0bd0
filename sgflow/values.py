"""Abstract values."""
from .terms import *
from .prove import *
from .arrays import *


class Unsupported(Exception):
    def __init__(self, why, node=None):
        super().__init__(why)
        self.why = why
        self.node = node


class DeadPath(Exception):
    pass


class Carried(Exception):
    def __init__(self, name, value=None):
        super().__init__(name)
        self.name = name
        self.value = value


class V:
    pass


class Undef(V):
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Unk(V):
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


class LC(V):
    """value carried from the previous iteration, not expressible"""

    def __init__(self, name, base):
        self.name, self.base = name, base


class Choice(V):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Choice(%s ? %r : %r)' % (self.c, self.a, self.b)


class SStr(V):
    """partially known string: parts are python str or ('sym',name) / ('num',term,spec) / ('fn',name,args)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def key(self):
        return self.parts

    def __eq__(self, o):
        return isinstance(o, SStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'S' + repr(self.parts)


def sstr(*parts):
    flat = []
    for p in parts:
        if isinstance(p, SStr):
            flat += p.parts
        else:
            flat.append(p)
    s = SStr(flat)
    if len(s.parts) == 0:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def is_str(v):
    return isinstance(v, (str, SStr))


class SliceV(V):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return 'slice(%s,%s,%s)' % (self.start, self.stop, self.step)


class Arr(V):
    """view on heap object `oid`: element idx -> base element maps[vars:=idx]"""

    def __init__(self, oid, shape, vars_=None, maps=None, dtype=None):
        self.oid = oid
        self.shape = tuple(shape)
        if vars_ is None:
            vars_ = tuple(var('x') for _ in self.shape)
            maps = tuple(atom(v) for v in vars_)
        self.vars = tuple(vars_)
        self.maps = tuple(maps)
        self.dtype = dtype or 'f8'

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        m = dict(zip(self.vars, idx))
        return tuple(subst(x, m) for x in self.maps)

    def ident(self):
        return len(self.vars) == len(self.maps) and all(a is atom(v) for a, v in zip(self.maps, self.vars))

    def __repr__(self):
        return 'Arr#%d%s' % (self.oid, list(self.shape))


class ListRef(V):
    def __init__(self, oid):
        self.oid = oid


class DictRef(V):
    def __init__(self, oid):
        self.oid = oid


class SeqSeg:
    """n consecutive list items value(v), 0<=v<n"""

    def __init__(self, v, n, val):
        self.v, self.n, self.val = v, n, val

    def __repr__(self):
        return 'Seg(%s<%s: %r)' % (self.v, self.n, self.val)


class NestSeq(SeqSeg):
    """the list items val(vs) of a loop nest, in loop order, where cond(vs) holds"""

    def __init__(self, vs, ns, cond, val):
        self.vs, self.ns, self.cond, self.val = tuple(vs), tuple(ns), cond, val
        self.v = self.n = None

    def __repr__(self):
        return 'Nest(%s<%s if %s: %r)' % (self.vs, self.ns, self.cond, self.val)


class Func(V):
    def __init__(self, node, mod, closure, name, defaults, kwdefaults):
        self.node, self.mod, self.closure, self.name = node, mod, closure, name
        self.defaults, self.kwdefaults = defaults, kwdefaults

    def __repr__(self):
        return 'Func(%s.%s)' % (self.mod.name if self.mod else '?', self.name)


class Builtin(V):
    def __init__(self, name, self_=None):
        self.name = name
        self.self_ = self_

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Partial(V):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class ExtMod(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ExtMod(%s)' % self.name


class UserMod(V):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.env = {}
        self.tree = None
        self.ready = False


class ExcT(V):
    def __init__(self, name, bases=()):
        self.name = name
        self.bases = bases


class Exc(V):
    def __init__(self, name, args=()):
        self.name = name
        self.args = args


class ObjV(V):
    """opaque or modelled object; immutable attributes here, mutable state in heap under oid"""

    def __init__(self, kind, attrs=None, oid=None):
        self.kind = kind
        self.attrs = attrs or {}
        self.oid = oid

    def __repr__(self):
        return 'Obj(%s)' % self.kind


class RangeV(V):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        c = constval(self.step)
        if c == 1:
            n = sub(self.stop, self.start)
        elif c is not None and c > 0:
            n = cdiv(sub(self.stop, self.start), self.step)
        elif c is not None and c < 0:
            n = cdiv(sub(self.start, self.stop), neg(self.step))
        else:
            n = cdiv(sub(self.stop, self.start), self.step)
        if nonneg(n):
            return n
        if nonneg(neg(n)):
            return ZERO
        return app('max', n, ZERO)


class IterV(V):
    """lazy iterable: enumerate / zip / product / map / reversed / generator"""

    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra


def const_int(v):
    if isinstance(v, Term) and v.kind == 'poly':
        c = constval(v)
        if c is not None and c.denominator == 1:
            return int(c)
    if isinstance(v, Term) and v.kind == 'B':
        return int(v.args[0])
    return None


def isnum(v):
    return isinstance(v, Term) and v.kind == 'poly'


def isterm(v):
    return isinstance(v, Term) and (v.kind == 'poly' or isbool(v))


def tobool01(t):
    return t if t.kind == 'poly' else ite_num(t)


def ite_num(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return atom(mk('ite', b, ONE, ZERO))


EXC_BASES = {
    'ValueError': ('Exception',), 'RuntimeError': ('Exception',), 'KeyError': ('LookupError', 'Exception'),
    'IndexError': ('LookupError', 'Exception'), 'TypeError': ('Exception',), 'IOError': ('OSError', 'EnvironmentError', 'Exception'),
    'OSError': ('IOError', 'EnvironmentError', 'Exception'), 'FileNotFoundError': ('OSError', 'IOError', 'Exception'),
    'NameError': ('Exception',), 'AttributeError': ('Exception',), 'StopIteration': ('Exception',),
    'AssertionError': ('Exception',), 'NotImplementedError': ('RuntimeError', 'Exception'),
    'ZeroDivisionError': ('ArithmeticError', 'Exception'), 'LookupError': ('Exception',), 'Exception': ('BaseException',),
    'PermissionError': ('OSError', 'IOError', 'Exception'), 'UnicodeDecodeError': ('ValueError', 'Exception'),
    'FileExistsError': ('OSError', 'IOError', 'Exception'), 'ImportError': ('Exception',), 'ModuleNotFoundError': ('ImportError', 'Exception'),
    'SystemExit': ('BaseException',), 'KeyboardInterrupt': ('BaseException',), 'BaseException': (), 'Warning': ('Exception',),
    'UserWarning': ('Warning', 'Exception'), 'RuntimeWarning': ('Warning', 'Exception'), 'ArithmeticError': ('Exception',),
    'EnvironmentError': ('OSError', 'IOError', 'Exception'), 'NotADirectoryError': ('OSError', 'IOError', 'Exception'),
    'IsADirectoryError': ('OSError', 'IOError', 'Exception'), 'TimeoutError': ('OSError', 'IOError', 'Exception'), 'MemoryError': ('Exception',),
    'UnicodeError': ('ValueError', 'Exception'), 'OverflowError': ('ArithmeticError', 'Exception'), 'EOFError': ('Exception',),
    'RecursionError': ('RuntimeError', 'Exception'), 'FloatingPointError': ('ArithmeticError', 'Exception'), 'DeprecationWarning': ('Warning', 'Exception'),
}
