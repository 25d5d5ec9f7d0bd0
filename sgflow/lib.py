"""Models of the Python, numpy, pyproj, xesmf and os operations the package uses.

Everything not modelled raises Unsupported, which the checks report as
"undecided", never as a violation.
"""
import ast
import errno as _errno
import itertools
import math
import posixpath
import string as _string
from .terms import *
from . import terms as T
from .prove import *
from . import prove as PR
from .arrays import *
from .values import *
from . import strsym

FN = {}
_oc = itertools.count()


def reg(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


def opaque(why):
    """a number about which nothing is known"""
    return sym('?%s#%d' % (why, next(_oc)))


INF = num(float('inf'))
PI = app('pi')
ELL = None


def ell():
    from . import interp
    return interp.ELLIPSIS


NTYPES = ('int', 'float', 'numpy.float64', 'numpy.int64', 'numpy.int32', 'numpy.float32', 'bool', 'numpy.bool_')


class NTuple(tuple):
    fields = ()


# ------------------------------------------------------------------ conversions
def scal(I, v):
    """scalar term of a value or None"""
    if isterm(v):
        return v
    if isinstance(v, Arr) and v.ndim == 0:
        return I.scalar(v)
    if isinstance(v, Unk):
        return opaque(v.why)
    return None


def nscal(I, v, node=None):
    t = scal(I, v)
    if t is None:
        if isinstance(v, Arr):
            s = I.scalar(v)
            if s is not None:
                return tobool01(s)
        raise Unsupported('number expected, got %r' % (v,), node)
    return tobool01(t)


def iscollection(v):
    return isinstance(v, (tuple, ListRef, RangeV, SliceV)) or isinstance(v, IterV)


def toarr(I, v, node=None):
    """numpy.asarray"""
    if isinstance(v, Choice):
        return I.distribute([v], lambda x: toarr(I, x, node))
    if isinstance(v, Arr):
        return v
    if isterm(v):
        return I.new_arr((), Const(v), 'bool' if isbool(v) else 'f8')
    if isinstance(v, RangeV):
        n = v.count()
        return I.lam_arr((n,), lambda ix: add(v.start, mul(v.step, ix[0])), 'int')
    if isinstance(v, tuple) or isinstance(v, (ListRef, IterV)):
        items = v if isinstance(v, tuple) else (I.list_items(v) if isinstance(v, ListRef) else tuple(seq_items(I, v)))
        if len(items) >= 2 and isinstance(items[0], str) and items[0] == '?list':
            raise Carried('list')
        return stack_items(I, items, node)
    if isinstance(v, Unk):
        return I.new_arr((), Const(opaque(v.why)))
    if v is None:
        raise Unsupported('array of None', node)
    raise Unsupported('array of %r' % (v,), node)


def stack_items(I, items, node=None):
    if not items:
        return I.new_arr((ZERO,), Const(ZERO))
    first = items[0].val if isinstance(items[0], SeqSeg) else items[0]
    if isterm(first) or isinstance(first, Arr) and first.ndim == 0:
        sub_shape = ()
    else:
        sub_shape = toarr(I, first, node).shape
    n = ZERO
    allbool = True
    snap = None
    pieces = []
    for it in items:
        if isinstance(it, SeqSeg):
            cnt, val, v = it.n, it.val, it.v
        else:
            cnt, val, v = ONE, it, None
        if v is not None:
            I.loopvars.append(v)
            c = cur().copy()
            c.bound(v, ZERO, sub(cnt, ONE))
            PR.CUR.append(c)
        try:
            a = toarr(I, val, node)
            bs = tuple(var('s') for _ in sub_shape)
            e = I.elem(a, tuple(atom(b) for b in bs)) if a.ndim else I.scalar(a)
        finally:
            if v is not None:
                PR.CUR.pop()
                I.loopvars.pop()
        if a.ndim != len(sub_shape):
            raise Unsupported('ragged array', node)
        for x, y in zip(a.shape, sub_shape):
            if x is not y and decide(eq(x, y)) is False:
                raise Unsupported('ragged array', node)
        if not isbool(e):
            allbool = False
        pieces.append((n, cnt, v, bs, e))
        n = add(n, cnt)
    shape = (n,) + tuple(sub_shape)
    if len(pieces) == 1 and pieces[0][2] is not None:
        _, cnt, v, bs, e = pieces[0]
        return I.lam_arr(shape, lambda ix: subst(e, dict(zip((v,) + bs, ix))), 'f8')
    snap = Const(FALSE if allbool else ZERO)
    for off, cnt, v, bs, e in pieces:
        if not allbool:
            e = tobool01(e)
        bv = ([(v, cnt)] if v is not None else []) + [(b, s) for b, s in zip(bs, sub_shape)]
        idx = (add(off, atom(v)) if v is not None else off,) + tuple(atom(b) for b in bs)
        snap = Upd(snap, bv, idx, TRUE, e, I.fvs())
    a = I.new_arr(shape, snap, 'bool' if allbool else 'f8')
    if all(is_int(p[4]) for p in pieces if not isbool(p[4])) and not allbool:
        a.dtype = 'int'
    return a


def shape_arg(I, v, node=None):
    if isinstance(v, Choice):
        v = I.distribute([v], lambda x: shape_arg(I, x, node))
    s = scal(I, v)
    if s is not None:
        return (tobool01(s),)
    if isinstance(v, Arr):
        return tuple(nscal(I, x) for x in seq_items(I, v))
    return tuple(nscal(I, x, node) for x in seq_items(I, v))


def dim_eq(x, y):
    if x is y:
        return True
    return decide(eq(x, y))


def broadcast(I, shapes, node=None):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = ONE
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if constval(x) == 1 or x is d:
                continue
            if constval(d) == 1:
                d = x
                continue
            e = dim_eq(d, x)
            if e is False:
                o1 = decide(eq(x, ONE))
                o2 = decide(eq(d, ONE))
                if o1 is True:
                    continue
                if o2 is True:
                    d = x
                    continue
                if o1 is False and o2 is False:
                    I.do_raise('ValueError', ('operands could not be broadcast together',), node, implicit=True)
                continue
            if e is None:
                I.notes.append(('assume-shape', str(d), str(x), I.site(node)))
        out.append(d)
    return tuple(out)


def bidx(a_shape, out_shape, ix):
    off = len(out_shape) - len(a_shape)
    r = []
    for k, n in enumerate(a_shape):
        if constval(n) == 1 and constval(out_shape[k + off]) != 1:
            r.append(ZERO)
        else:
            r.append(ix[k + off])
    return tuple(r)


def same_mask(I, a, b):
    x, y = (q if isinstance(q, Arr) else q.attrs['mask'] for q in (a, b))
    if x is y:
        return True
    if x.ndim != y.ndim or any(p is not q for p, q in zip(x.shape, y.shape)):
        return False
    bs = tuple(var('b') for _ in x.shape)
    ix = tuple(atom(v) for v in bs)
    c = cur().copy()
    for b, n in zip(bs, x.shape):
        c.bound(b, ZERO, sub(n, ONE))
    PR.CUR.append(c)
    try:
        return I.elem(x, ix) is I.elem(y, ix)
    except (Unsupported, Unresolvable):
        return False
    finally:
        PR.CUR.pop()


def elementwise(I, fn, args, node=None, dtype=None):
    """apply fn(terms) over broadcast arguments"""
    for k, a in enumerate(args):
        if isinstance(a, Choice):
            return I.distribute(list(args), lambda *xs: elementwise(I, fn, xs, node, dtype))
    ms = [a for a in args if isinstance(a, ObjV) and a.kind == 'masked']
    if ms:
        if any(not same_mask(I, a, ms[0]) for a in ms) or any(scal(I, a) is None for a in args if a not in ms):
            raise Unsupported('arithmetic on a masked selection', node)
        return ObjV('masked', {'arr': elementwise(I, fn, [a.attrs['arr'] if a in ms else a for a in args], node, dtype), 'mask': ms[0].attrs['mask']})
    vals = []
    for a in args:
        s = scal(I, a)
        vals.append(s if s is not None else toarr(I, a, node))
    arrs = [a for a in vals if isinstance(a, Arr)]
    if not arrs:
        return fn(*vals)
    shape = broadcast(I, [a.shape for a in arrs], node)
    snaps = {id(a): I.heap[a.oid] for a in arrs}

    def body(ix):
        xs = []
        for a in vals:
            if isinstance(a, Arr):
                xs.append(rd(snaps[id(a)], a.at(bidx(a.shape, shape, ix))))
            else:
                xs.append(a)
        return fn(*xs)
    if dtype is None:
        dtype = 'int' if all(a.dtype == 'int' for a in arrs) and all(isinstance(v, Arr) or is_int(tobool01(v)) for v in vals) else 'f8'
    r = I.lam_arr(shape, body, dtype)
    if all(I.whole(a) and I.layout.get(a.oid) == 'C' for a in arrs):
        I.layout[r.oid] = 'C'
    return r


# ------------------------------------------------------------------ operators
def _floordiv(a, b):
    return fdiv(tobool01(a), tobool01(b))


OPS = {
    'Add': lambda a, b: add(tobool01(a), tobool01(b)),
    'Sub': lambda a, b: sub(tobool01(a), tobool01(b)),
    'Mult': lambda a, b: mul(tobool01(a), tobool01(b)),
    'Div': lambda a, b: div(tobool01(a), tobool01(b)),
    'FloorDiv': _floordiv,
    'Mod': lambda a, b: sub(tobool01(a), mul(tobool01(b), _floordiv(a, b))),
    'Pow': lambda a, b: power(tobool01(a), tobool01(b)),
    'BitAnd': lambda a, b: land(a, b) if isbool(a) and isbool(b) else _bits(a, b, lambda x, y: x & y),
    'BitOr': lambda a, b: lor(a, b) if isbool(a) and isbool(b) else _bits(a, b, lambda x, y: x | y),
    'BitXor': lambda a, b: lor(land(a, lnot(b)), land(lnot(a), b)) if isbool(a) and isbool(b) else _bits(a, b),
    'LShift': lambda a, b: mul(a, num(2 ** const_int(b))) if const_int(b) is not None else _bits(a, b),
    'RShift': lambda a, b: fdiv(a, num(2 ** const_int(b))) if const_int(b) is not None else _bits(a, b),
}


def _bits(a, b, op=None):
    ca, cb = const_int(a), const_int(b)
    if op and ca is not None and cb is not None:
        return num(op(ca, cb))
    raise Unsupported('bit operation')


def binop(I, op, a, b, node=None):
    if isinstance(a, Choice) or isinstance(b, Choice):
        return I.distribute([a, b], lambda x, y: binop(I, op, x, y, node))
    if isinstance(a, LC):
        raise Carried(a.name)
    if isinstance(b, LC):
        raise Carried(b.name)
    if has_method(a, '__%s__' % DUNDER.get(op)):
        return inst_call(I, a, '__%s__' % DUNDER[op], [b], node)
    if has_method(b, '__r%s__' % DUNDER.get(op)):
        return inst_call(I, b, '__r%s__' % DUNDER[op], [a], node)
    if isterm(a) and isterm(b):
        if op in ('Div', 'FloorDiv', 'Mod') and constval(tobool01(b)) == 0:
            I.do_raise('ZeroDivisionError', (), node, implicit=True)
        if op == 'MatMult':
            raise Unsupported('matmul of scalars', node)
        return OPS[op](a, b)
    if is_str(a):
        if op == 'Add' and is_str(b):
            return sstr(a, b)
        if op == 'Mult' and const_int(b) is not None and isinstance(a, str):
            return a * const_int(b)
        if op == 'Mod':
            return percent(I, a, b, node)
        if op == 'Add':
            I.do_raise('TypeError', ('can only concatenate str',), node, implicit=True)
    if is_str(b) and op == 'Mult' and const_int(a) is not None and isinstance(b, str):
        return b * const_int(a)
    if any(isinstance(x, ObjV) and x.kind == 'masked' for x in (a, b)) and op in OPS:
        return elementwise(I, OPS[op], [a, b], node)
    if isinstance(a, tuple) or isinstance(a, ListRef):
        if op == 'Add' and type(b) is type(a) or op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            ia = a if isinstance(a, tuple) else I.list_items(a)
            ib = b if isinstance(b, tuple) else I.list_items(b)
            chk_list(ia)
            chk_list(ib)
            return tuple(ia) + tuple(ib) if isinstance(a, tuple) else I.mklist(tuple(ia) + tuple(ib))
        if op == 'Mult' and isterm(b):
            ia = a if isinstance(a, tuple) else I.list_items(a)
            k = const_int(b)
            if k is not None:
                r = tuple(ia) * max(k, 0)
                return r if isinstance(a, tuple) else I.mklist(r)
            if len(ia) == 1 and not isinstance(ia[0], SeqSeg):
                r = (SeqSeg(var('r'), b, ia[0]),)
                return r if isinstance(a, tuple) else I.mklist(r)
            raise Unsupported('symbolic repetition', node)
    if isinstance(b, (tuple, ListRef)) and op == 'Mult' and isterm(a):
        return binop(I, op, b, a, node)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op == 'MatMult':
            return np_dot(I, [a, b], {}, node)
        dt = None
        return elementwise(I, OPS[op], [a, b], node, dt)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk('op')
    if isinstance(a, ObjV) and a.kind == 'set' and isinstance(b, ObjV) and b.kind == 'set':
        return set_op(I, op, a, b, node)
    if isinstance(a, ObjV) and a.kind == 'path' and op == 'Div':
        return ObjV('path', {'s': path_join([a.attrs['s'], pathstr(b)])})
    if a is None or b is None:
        I.do_raise('TypeError', ('unsupported operand None',), node, implicit=True)
    if isinstance(a, ObjV) and a.kind == 'opaque' or isinstance(b, ObjV) and b.kind == 'opaque':
        return Unk('op')
    raise Unsupported('%s of %r and %r' % (op, a, b), node)


def unop(I, op, v, node=None):
    if isinstance(v, Choice):
        return I.distribute([v], lambda x: unop(I, op, x, node))
    if isinstance(v, Unk):
        return v
    f = {'USub': lambda a: neg(tobool01(a)), 'UAdd': lambda a: tobool01(a),
         'Invert': lambda a: lnot(a) if isbool(a) else sub(neg(a), ONE)}[op]
    return elementwise(I, f, [v], node)


CMP = {
    'Lt': lambda a, b: lt(tobool01(a), tobool01(b)), 'LtE': lambda a, b: le(tobool01(a), tobool01(b)),
    'Gt': lambda a, b: lt(tobool01(b), tobool01(a)), 'GtE': lambda a, b: le(tobool01(b), tobool01(a)),
    'Eq': lambda a, b: beq(a, b), 'NotEq': lambda a, b: lnot(beq(a, b)),
}


def isnan(a):
    if isbool(a) or a.kind in ('str', 'none', 'inf') or is_int(a) or constval(a) is not None:
        return FALSE
    x = single_atom(a) if ispoly(a) else a
    if x is not None and x.kind == 'app' and x.args[0] == 'nan':
        return TRUE
    if x is not None and x.kind == 'ite':
        return ite(x.args[0], isnan(x.args[1]), isnan(x.args[2]))
    if x is not None and x.kind == 'sym' and x.args[0] == 'f:R':
        return FALSE
    return bapp('isnan', x if x is not None else a)


def beq(a, b):
    if isbool(a) and isbool(b):
        return lor(land(a, b), land(lnot(a), lnot(b)))
    if a is b and isterm(a) and a.kind == 'poly':
        return lnot(isnan(a))
    if isterm(a) and isterm(b) and 'nan' in (single_atom_kind(a), single_atom_kind(b)):
        return FALSE
    return eq(tobool01(a), tobool01(b))


def tstr(s):
    """string value as a term argument"""
    if isinstance(s, str):
        return T.string(s)
    if isinstance(s, SStr):
        return mk('app', 'sstr', *[T.string(p) if isinstance(p, str) else
                                   mk('app', 'part', *[x if isinstance(x, Term) else T.string(str(x)) for x in p])
                                   for p in s.parts])
    if s is None:
        return T.string('None')
    raise Unsupported('string expected, got %r' % (s,))


def compare(I, op, a, b, node=None):
    if isinstance(a, Choice) or isinstance(b, Choice):
        return I.distribute([a, b], lambda x, y: compare(I, op, x, y, node))
    if isinstance(a, LC):
        raise Carried(a.name)
    if isinstance(b, LC):
        raise Carried(b.name)
    if op in ('Is', 'IsNot'):
        r = is_same(I, a, b)
        return r if op == 'Is' else lnot(r)
    if op in ('In', 'NotIn'):
        r = contains(I, a, b, node)
        return r if op == 'In' else lnot(r)
    if isterm(a) and isterm(b):
        return CMP[op](a, b)
    if op in ('Eq', 'NotEq'):
        if (isinstance(a, Arr) or isinstance(b, Arr)) and not (a is None or b is None or is_str(a) or is_str(b)):
            return elementwise(I, CMP[op], [a, b], node, 'bool')
        r = values_equal(I, a, b)
        return r if op == 'Eq' else lnot(r)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return elementwise(I, CMP[op], [a, b], node, 'bool')
    if isinstance(a, Unk) or isinstance(b, Unk):
        return bapp('unk', T.string('cmp%d' % next(_oc)))
    if isinstance(a, str) and isinstance(b, str):
        return B({'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op])
    if a is None or b is None:
        I.do_raise('TypeError', ('comparison with None',), node, implicit=True)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not a or not b:
            return B({'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op])
        strict = {'LtE': 'Lt', 'GtE': 'Gt'}.get(op, op)
        return lor(compare(I, strict, a[0], b[0], node),
                   land(values_equal(I, a[0], b[0]), compare(I, op, a[1:], b[1:], node)))
    raise Unsupported('comparison of %r and %r' % (a, b), node)


def is_same(I, a, b):
    if a is b:
        return TRUE
    if isinstance(a, Unk) or isinstance(b, Unk):
        return bapp('unk', T.string('is%d' % next(_oc)))
    if a is None or b is None:
        if isinstance(a, ObjV) and 'isnone' in a.attrs:
            return a.attrs['isnone']
        if isinstance(b, ObjV) and 'isnone' in b.attrs:
            return b.attrs['isnone']
        return FALSE
    if isterm(a) and isterm(b):
        if single_atom_kind(a) == 'nan' or single_atom_kind(b) == 'nan':
            return FALSE
        return beq(a, b)
    if isinstance(a, (ListRef, DictRef)) and type(a) is type(b):
        return B(a.oid == b.oid)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return B(a.oid == b.oid and I.same_view(a, b))
    if isinstance(a, Builtin) and isinstance(b, Builtin):
        return B(a.name == b.name)
    if isinstance(a, str) and isinstance(b, str):
        return B(a == b)
    return FALSE


def single_atom_kind(a):
    s = single_atom(a) if a.kind == 'poly' else None
    return s.args[0] if s is not None and s.kind == 'app' else None


def values_equal(I, a, b):
    if isinstance(a, Choice) or isinstance(b, Choice):
        return I.truth(I.distribute([a, b], lambda x, y: values_equal(I, x, y)))
    if isterm(a) and isterm(b):
        return beq(a, b)
    if isinstance(a, Arr) and a.ndim == 0 and isterm(b):
        return beq(I.scalar(a), b)
    if isinstance(b, Arr) and b.ndim == 0 and isterm(a):
        return beq(a, I.scalar(b))
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str):
            return B(a == b)
        if a == b:
            return TRUE
        r = strsym.same(a, b)
        if r is not None:
            return B(r)
        return bapp('streq', *sorted([tstr(a), tstr(b)]))
    if isinstance(a, SeqSeg) or isinstance(b, SeqSeg):
        raise Unsupported('comparison of symbolic sequences')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if any(isinstance(x, SeqSeg) for x in a + b):
            raise Unsupported('comparison of symbolic sequences')
        if len(a) != len(b):
            return FALSE
        return land(*[values_equal(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, ListRef) and isinstance(b, ListRef):
        return values_equal(I, tuple(I.list_items(a)), tuple(I.list_items(b)))
    if isinstance(a, Builtin) and isinstance(b, Builtin):
        return B(a.name == b.name and a.self_ is b.self_)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return bapp('unk', T.string('eq%d' % next(_oc)))
    if isinstance(a, ObjV) and a.kind in ('opaque', 'meta') or isinstance(b, ObjV) and b.kind in ('opaque', 'meta'):
        return bapp('unk', T.string('eq%d' % next(_oc)))
    if isinstance(a, DictRef) and isinstance(b, DictRef):
        da, db = I.dict_items(a), I.dict_items(b)
        if set(da) != set(db):
            return FALSE
        return land(*[values_equal(I, da[k], db[k]) for k in da])
    if a is b:
        return TRUE
    return FALSE


def contains(I, a, b, node):
    if isinstance(b, Choice):
        return I.truth(I.distribute([b], lambda y: contains(I, a, y, node)))
    if isinstance(b, DictRef):
        k = I.hkey(a)
        d = I.dict_items(b)
        if k in d:
            return TRUE if d[k] is not UNDEF else FALSE
        if isinstance(k, SStr) and all(is_str(x) and strsym.same(k, x) is False for x in d):
            return FALSE
        if isinstance(k, (SStr, Term)):
            return bapp('unk', T.string('in%d' % next(_oc)))
        return FALSE
    if is_str(b) and is_str(a):
        r = str_try(I, lambda x, y: x in y, [a, b])
        if r is not strsym.NOPE and (r is TRUE or isinstance(b, str) or strsym.known(b)):
            return r
    if is_str(b):
        if isinstance(a, str) and isinstance(b, str):
            return B(a in b)
        if isinstance(a, str) and any(isinstance(p, str) and a in p for p in b.parts):
            return TRUE
        return bapp('strin', tstr(a), tstr(b))
    if isinstance(b, RangeV):
        x = nscal(I, a)
        c = constval(b.step)
        if c == 1:
            return land(le(b.start, x), lt(x, b.stop))
    if isinstance(b, ObjV) and b.kind in ('opaque', 'meta', 'args'):
        return bapp('unk', T.string('in%d' % next(_oc)))
    return lor(*[values_equal(I, a, x) for x in seq_items(I, b)])


# ------------------------------------------------------------------ sequences
def chk_list(items):
    if len(items) >= 2 and isinstance(items[0], str) and items[0] == '?list':
        if isinstance(items[1], LC):
            raise Carried('list')
        raise Unsupported('merged list')


def seq_items(I, v, node=None):
    """finite python list of items; may contain SeqSeg only for ListRef/tuple contents"""
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, ListRef):
        it = I.list_items(v)
        chk_list(it)
        return list(it)
    it = iterate(I, v, node)
    if it[0] == 'items':
        return list(it[1])
    if it[0] == 'sym' and len(it[1]) == 1:
        w = var('q')
        n = it[1][0]
        I.loopvars.append(w)
        c = cur().copy()
        c.bound(w, ZERO, sub(n, ONE))
        PR.CUR.append(c)
        try:
            val = it[2]((atom(w),))
        finally:
            PR.CUR.pop()
            I.loopvars.pop()
        return [SeqSeg(w, n, val)]
    raise Unsupported('symbolic sequence', node)


def unpack(I, v, n, node):
    if isinstance(v, NTuple) or isinstance(v, tuple):
        if any(isinstance(x, SeqSeg) for x in v):
            raise Unsupported('unpack symbolic', node)
        if len(v) != n:
            I.do_raise('ValueError', ('unpack length',), node, implicit=True)
        return list(v)
    if isinstance(v, Unk):
        return [Unk(v.why)] * n
    if isinstance(v, ListRef):
        it = I.list_items(v)
        chk_list(it)
        if any(isinstance(x, SeqSeg) for x in it):
            if len(it) == 1:
                seg = it[0]
                d = decide(eq(seg.n, num(n)))
                if d is False:
                    I.do_raise('ValueError', ('unpack length',), node, implicit=True)
                return [I.close_value(seg.val, {seg.v: num(k)}, {}) for k in range(n)]
            raise Unsupported('unpack symbolic', node)
        if len(it) != n:
            I.do_raise('ValueError', ('unpack length',), node, implicit=True)
        return list(it)
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.do_raise('TypeError', ('iteration over 0-d',), node, implicit=True)
        d = decide(eq(v.shape[0], num(n)))
        if d is False:
            I.do_raise('ValueError', ('unpack length',), node, implicit=True)
        return [getitem(I, v, num(k), node) for k in range(n)]
    if isinstance(v, ObjV) and v.kind == 'metaval':
        return [ObjV('metaitem', {'of': v, 'k': k}) if n > 1 else v.attrs.get('single', Unk('meta')) for k in range(n)]
    items = seq_items(I, v, node)
    if any(isinstance(x, SeqSeg) for x in items):
        raise Unsupported('unpack symbolic', node)
    if len(items) != n:
        I.do_raise('ValueError', ('unpack length',), node, implicit=True)
    return items


UNROLL = 40


def iterate(I, v, node=None, force=False):
    if isinstance(v, LC):
        raise Carried(v.name)
    if isinstance(v, tuple):
        return seq_iter(I, v, node)
    if isinstance(v, ListRef):
        raw = I.heap[v.oid]
        if len(raw) == 1 and isinstance(raw[0], NestSeq):
            s = raw[0]
            val = lambda x: I.close_value(s.val, dict(zip(s.vs, x)), {})
            if s.cond is TRUE:
                return ('sym', list(s.ns), val)
            return ('symif', list(s.ns), val, lambda x: subst(s.cond, dict(zip(s.vs, x))))
        items = I.list_items(v)
        chk_list(items)
        return seq_iter(I, items, node)
    if isinstance(v, str):
        return ('items', list(v))
    if isinstance(v, DictRef):
        return ('items', [I.unhkey(k) for k, x in I.dict_items(v).items() if x is not UNDEF])
    if isinstance(v, RangeV):
        n = v.count()
        c = const_int(n)
        if c is not None and c <= UNROLL and not force:
            return ('items', [add(v.start, mul(v.step, num(k))) for k in range(c)])
        return ('sym', [n], lambda x: add(v.start, mul(v.step, x[0])))
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.do_raise('TypeError', ('iteration over a 0-d array',), node, implicit=True)
        c = const_int(v.shape[0])
        if c is not None and c <= UNROLL and not force:
            return ('items', [getitem(I, v, num(k), node) for k in range(c)])
        return ('sym', [v.shape[0]], lambda x: view_at(I, v, x))
    if has_method(v, '__iter__'):
        return iterate(I, inst_call(I, v, '__iter__', [], node), node, force)
    if isinstance(v, ObjV):
        if v.kind == 'set':
            return seq_iter(I, v.attrs['items'], node)
        if v.kind == 'nditer':
            def valf(x):
                v.attrs['cur'] = tuple(x)
                v.attrs['adv'] = False
                r = tuple(view_at(I, a, x, keep=True) for a in v.attrs['arrs'])
                return r[0] if len(r) == 1 else r
            return ('sym', list(v.attrs['shape']), valf)
        if v.kind == 'globlist':
            n = v.attrs['n']
            return ('sym', [n], lambda x: SStr([('globitem', v.attrs['key'], x[0])]))
        if is_stream(v):
            return ('items', stream_take(I, v, node))
        if v.kind == 'file':
            raise Unsupported('iteration over a file', node)
    if isinstance(v, IterV):
        return iter_v(I, v, node, force)
    if isinstance(v, Unk):
        raise Unsupported('iteration over unknown (%s)' % v.why, node)
    if v is None or isterm(v):
        I.do_raise('TypeError', ('not iterable',), node, implicit=True)
    raise Unsupported('iteration over %r' % (v,), node)


def seq_iter(I, items, node):
    if not any(isinstance(x, SeqSeg) for x in items):
        return ('items', list(items))
    if len(items) == 1:
        s = items[0]
        return ('sym', [s.n], lambda x: I.close_value(s.val, {s.v: x[0]}, {}))
    raise Unsupported('iteration over mixed symbolic sequence', node)


def view_at(I, a, x, keep=False):
    v = basic_view(I, a, tuple(x), None)
    if v.ndim == 0 and not keep:
        return I.scalar(v)
    return v


def iter_v(I, v, node, force):
    k = v.kind
    if k == 'enumerate':
        it = iterate(I, v.parts[0], node)
        st = v.extra if v.extra is not None else ZERO
        if it[0] == 'items':
            return ('items', [(add(st, num(j)), x) for j, x in enumerate(it[1])])
        if len(it[1]) != 1:
            raise Unsupported('enumerate of nested', node)
        return ('sym', it[1], lambda x: (add(st, x[0]), it[2](x)))
    if k == 'zip':
        its = [iterate(I, p, node) for p in v.parts]
        if not its:
            return ('items', [])
        if all(i[0] == 'items' for i in its):
            return ('items', list(zip(*[i[1] for i in its])))
        if any(i[0] == 'items' for i in its):
            ln = min(len(i[1]) for i in its if i[0] == 'items')
            for i in its:
                if i[0] == 'sym':
                    if decide(le(num(ln), i[1][0])) is not True:
                        raise Unsupported('zip of symbolic and finite', node)
            return ('items', [tuple(i[1][j] if i[0] == 'items' else i[2]((num(j),)) for i in its) for j in range(ln)])
        if any(len(i[1]) != 1 for i in its):
            raise Unsupported('zip of nested', node)
        n = its[0][1][0]
        for i in its[1:]:
            m = i[1][0]
            if m is n:
                continue
            if nonneg(sub(m, n)):
                continue
            if nonneg(sub(n, m)):
                n = m
                continue
            n = app('min', n, m)
        return ('sym', [n], lambda x: tuple(i[2](x) for i in its))
    if k == 'product':
        its = [iterate(I, p, node) for p in v.parts]
        if all(i[0] == 'items' for i in its):
            return ('items', list(itertools.product(*[i[1] for i in its])))
        its = [iterate(I, p, node, True) for p in v.parts]
        if any(i[0] == 'items' for i in its):
            raise Unsupported('product of symbolic and finite', node)
        dims = []
        for i in its:
            dims += i[1]

        def valf(x):
            out, p = [], 0
            for i in its:
                m = len(i[1])
                out.append(i[2](x[p:p + m]))
                p += m
            return tuple(out)
        return ('sym', dims, valf)
    if k == 'reversed':
        it = iterate(I, v.parts[0], node)
        if it[0] == 'items':
            return ('items', list(reversed(it[1])))
        n = it[1][0]
        if len(it[1]) != 1:
            raise Unsupported('reversed nested', node)
        return ('sym', it[1], lambda x: it[2]((sub(sub(n, ONE), x[0]),)))
    if k == 'map':
        its = iter_v(I, IterV('zip', v.parts), node, force)
        f = v.extra
        if its[0] == 'items':
            return ('items', [I.call(f, list(x), {}, node) for x in its[1]])
        return ('sym', its[1], lambda x: I.call(f, list(its[2](x)), {}, node))
    if k == 'ndindex':
        dims = list(v.parts)
        if all(const_int(d) is not None and const_int(d) <= 6 for d in dims) and not force:
            return ('items', [tuple(num(q) for q in p) for p in itertools.product(*[range(const_int(d)) for d in dims])])
        return ('sym', dims, lambda x: tuple(x))
    if k == 'ndenumerate':
        a = v.parts[0]
        return ('sym', list(a.shape), lambda x: (tuple(x), view_at(I, a, x)))
    if k == 'items':
        return ('items', list(v.parts))
    if k == 'chain':
        out = []
        for p in v.parts:
            it = iterate(I, p, node)
            if it[0] != 'items':
                raise Unsupported('chain of symbolic', node)
            out += it[1]
        return ('items', out)
    raise Unsupported('iterator ' + k, node)


# ------------------------------------------------------------------ indexing
def norm_index(I, i, n, node=None, raise_=True):
    """normalise a (possibly negative) integer index"""
    c = constval(i)
    cn = constval(n)
    if c is not None and c.denominator != 1:
        I.do_raise('IndexError', ('non-integer index',), node, implicit=True)
    if c is not None and cn is not None:
        if not -cn <= c < cn:
            I.do_raise('IndexError', ('index out of bounds',), node, implicit=True)
        return num(c + cn) if c < 0 else i
    if nonneg(i):
        return i
    if nonneg(sub(neg(i), ONE)):
        return add(i, n)
    if c is not None:
        return i
    if is_int(i) and any(st.kind == 'ite' or st.kind == 'app' and st.args[0] not in ('fdiv', 'size') or st.kind == 'sym' and st.args[0].startswith('?')
                         for a in atoms_of(i) for st in (a,)):
        return ite(lt0(i), add(i, n), i)
    return i


def norm_slice(I, s, n, node=None):
    """(start, step, count)"""
    step = ONE if s.step is None else nscal(I, s.step)
    cs = constval(step)

    def bnd(x, default, lo, hi):
        if x is None:
            return default
        x = nscal(I, x)
        c = constval(x)
        if c is not None and c < 0 or (c is None and not nonneg(x) and nonneg(sub(neg(x), ONE))):
            x = add(x, n)
            if not nonneg(x):
                cc = constval(x)
                if cc is not None:
                    x = ZERO
                elif decide(le0(neg(x))) is False:
                    x = ZERO
                elif constval(n) is None and n_small(n):
                    x = app('max', x, ZERO)
            return x
        if c is None and not nonneg(x):
            # undecided sign: assume it is a plain position
            if any(a.kind == 'ite' for a in atoms_of(x)):
                x = ite(lt0(x), add(x, n), x)
        d = sub(n, x)
        if nonneg(d):
            return x
        cd = constval(d)
        if cd is not None and cd < 0 or nonneg(neg(d)):
            return n
        return app('min', x, n)
    if cs is not None and cs < 0:
        if s.start is None and s.stop is None and cs == -1:
            return sub(n, ONE), step, n
        st = sub(n, ONE) if s.start is None else nscal(I, s.start)
        if constval(st) is not None and constval(st) < 0:
            st = add(st, n)
        if s.stop is None:
            en = num(-1)
        else:
            en = nscal(I, s.stop)
            if constval(en) is not None and constval(en) < 0:
                en = add(en, n)
        cnt = cdiv(sub(st, en), neg(step))
        return st, step, cnt
    start = bnd(s.start, ZERO, ZERO, n)
    stop = bnd(s.stop, n, ZERO, n)
    if cs is None or cs == 1:
        cnt = sub(stop, start) if cs == 1 else cdiv(sub(stop, start), step)
    else:
        cnt = cdiv(sub(stop, start), step)
    if not nonneg(cnt):
        if nonneg(neg(cnt)):
            cnt = ZERO
        elif cs is None and nonneg(sub(stop, start)):
            pass
        else:
            cnt = app('max', cnt, ZERO)
    return start, step, cnt


def n_small(n):
    return False


def split_keys(I, a, key, node):
    keys = list(key) if isinstance(key, tuple) else [key]
    out = []
    for k in keys:
        if isinstance(k, (ListRef,)):
            k = toarr(I, k, node)
        elif isinstance(k, tuple) and not isinstance(k, Arr):
            k = toarr(I, k, node)
        elif isinstance(k, RangeV):
            k = toarr(I, k, node)
        if isinstance(k, Arr) and k.ndim == 0:
            k = I.scalar(k)
        if isinstance(k, Term) and isbool(k):
            k = tobool01(k)
        out.append(k)
    keys = out
    E = ell()
    used = sum(1 for k in keys if k is not None and k is not E)
    used += sum(k.ndim - 1 for k in keys if isinstance(k, Arr) and k.dtype == 'bool')
    if used > a.ndim:
        I.do_raise('IndexError', ('too many indices for array',), node, implicit=True)
    if E in [k for k in keys if k is E]:
        p = [j for j, k in enumerate(keys) if k is E][0]
        keys = keys[:p] + [SliceV(None, None, None)] * (a.ndim - used) + keys[p + 1:]
    else:
        keys = keys + [SliceV(None, None, None)] * (a.ndim - used)
    return keys


def basic_view(I, a, key, node):
    keys = split_keys(I, a, key, node)
    shape, vs, idx = [], [], []
    d = 0
    for k in keys:
        if k is None:
            shape.append(ONE)
            vs.append(var('x'))
            continue
        n = a.shape[d]
        d += 1
        if isinstance(k, SliceV):
            start, step, cnt = norm_slice(I, k, n, node)
            v = var('x')
            vs.append(v)
            shape.append(cnt)
            idx.append(add(start, mul(step, atom(v))))
        elif isterm(k):
            idx.append(norm_index(I, k, n, node))
        elif isinstance(k, Unk):
            idx.append(opaque('index'))
        else:
            raise Unsupported('index %r' % (k,), node)
    m = dict(zip(a.vars, idx))
    c = cur().copy()
    for v, n in zip(vs, shape):
        c.bound(v, ZERO, sub(n, ONE))
    PR.CUR.append(c)
    try:
        maps = tuple(subst(x, m) for x in a.maps)
    finally:
        PR.CUR.pop()
    return Arr(a.oid, shape, vs, maps, a.dtype)


def is_fancy(k):
    return isinstance(k, Arr) and k.ndim > 0


def has_method(o, name):
    return isinstance(o, ObjV) and o.kind == 'inst' and name in o.attrs['cls'].attrs['dict']


def inst_call(I, o, name, args, node):
    return I.call(o.attrs['cls'].attrs['dict'][name], [o] + list(args), {}, node)


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or'}


def getitem(I, o, k, node=None):
    if has_method(o, '__getitem__'):
        return inst_call(I, o, '__getitem__', [k], node)
    if isinstance(o, Choice):
        return I.distribute([o], lambda x: getitem(I, x, k, node))
    if isinstance(o, LC):
        raise Carried(o.name)
    if isinstance(k, Choice):
        return I.distribute([k], lambda x: getitem(I, o, x, node))
    if isinstance(k, tuple) and any(isinstance(x, Choice) for x in k):
        return I.distribute(list(k), lambda *x: getitem(I, o, tuple(x), node))
    if isinstance(o, Arr):
        return arr_getitem(I, o, k, node)
    if isinstance(o, DictRef):
        d = I.dict_items(o)
        kk = I.hkey(k)
        if kk not in d or d[kk] is UNDEF:
            if isinstance(kk, SStr) and all(is_str(x) and strsym.same(kk, x) is False for x in d):
                I.do_raise('KeyError', (k,), node, implicit=True)
            if isinstance(kk, (SStr, Term)):
                raise Unsupported('symbolic dict key', node)
            if o.oid in I.factories:
                v = I.call(I.factories[o.oid], [], {}, node)
                I.on_write(o.oid, node)
                I.heap[o.oid] = {**I.dict_items(o), kk: v}
                return v
            I.do_raise('KeyError', (k,), node, implicit=True)
        v = d[kk]
        if o.oid in I.factories and isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
            raise Unsupported('defaultdict entry set on some paths', node)
        if isinstance(v, LC):
            raise Carried(v.name)
        if isinstance(v, Choice) and v.a is UNDEF:
            return v.b
        if isinstance(v, Choice) and v.b is UNDEF:
            return v.a
        return v
    if isinstance(o, (tuple, ListRef)):
        items = o if isinstance(o, tuple) else I.list_items(o)
        chk_list(items)
        if isinstance(k, SliceV):
            if any(isinstance(x, SeqSeg) for x in items):
                raise Unsupported('slice of symbolic sequence', node)
            def f(x):
                if x is None:
                    return None
                c = const_int(x)
                if c is None:
                    raise Unsupported('slice with a symbolic bound', node)
                return c
            r = items[slice(f(k.start), f(k.stop), f(k.step))]
            return tuple(r) if isinstance(o, tuple) else I.mklist(r)
        i = scal(I, k)
        if i is None:
            I.do_raise('TypeError', ('sequence index',), node, implicit=True)
        i = tobool01(i)
        if any(isinstance(x, SeqSeg) for x in items):
            if len(items) == 1:
                s = items[0]
                return I.close_value(s.val, {s.v: norm_index(I, i, s.n)}, {})
            off = ZERO
            for x in items:
                if not isinstance(x, SeqSeg):
                    if decide(eq(i, off)):
                        return x
                    off = add(off, ONE)
                else:
                    if decide(land(le(off, i), lt(i, add(off, x.n)))):
                        return I.close_value(x.val, {x.v: sub(i, off)}, {})
                    off = add(off, x.n)
            raise Unsupported('index into mixed sequence', node)
        c = const_int(i)
        if c is None:
            for j, x in enumerate(items):
                if I.decide(eq(i, num(j))) is True:
                    return x
            if items and all(isterm(x) for x in items):
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = I.merge(eq(i, num(j)), items[j], r)
                return r
            raise Unsupported('symbolic index into sequence', node)
        if not -len(items) <= c < len(items):
            I.do_raise('IndexError', ('index out of range',), node, implicit=True)
        return items[c]
    if is_str(o):
        if isinstance(o, str):
            if isinstance(k, SliceV):
                ks = [None if x is None else (const_int(x), ) for x in (k.start, k.stop, k.step)]
                if all(x is None or x[0] is not None for x in ks):
                    return o[slice(*[x and x[0] for x in ks])]
            c = None if isinstance(k, SliceV) else const_int(k)
            if c is not None:
                if not -len(o) <= c < len(o):
                    I.do_raise('IndexError', (), node, implicit=True)
                return o[c]
        if isinstance(o, SStr):
            f = lambda x: None if x is None else const_int(x)
            ks = [k.start, k.stop, k.step] if isinstance(k, SliceV) else [k]
            if all(x is None or isterm(x) and const_int(x) is not None for x in ks):
                kk = slice(*[f(x) for x in ks]) if isinstance(k, SliceV) else f(k)
                r = strsym.run(lambda x: x[kk], o)
                if r is not strsym.NOPE:
                    return r
        if isinstance(k, SliceV) and isinstance(o, SStr):
            # trailing constant removal  s[:-n]
            if k.start is None and k.step is None and k.stop is not None and const_int(k.stop) is not None and const_int(k.stop) < 0:
                last = o.parts[-1]
                n = -const_int(k.stop)
                if isinstance(last, str) and len(last) >= n:
                    return sstr(*(o.parts[:-1] + (last[:-n],)))
            return SStr([('slice', tstr(o), str(k.start), str(k.stop))])
        return SStr([('char', tstr(o), k if isinstance(k, Term) else str(k))])
    if isinstance(o, RangeV):
        if isinstance(k, SliceV):
            raise Unsupported('slice of range', node)
        return add(o.start, mul(o.step, norm_index(I, nscal(I, k), o.count())))
    if isinstance(o, ObjV):
        if o.kind == 's_':
            return k
        if o.kind == 'match':
            return m_match(I, o, 'group', [k], {}, node)
        if o.kind == 'nditer':
            j = const_int(k)
            if o.attrs['adv'] or o.attrs['cur'] is None:
                raise Unsupported('nditer used after advancing', node)
            return view_at(I, o.attrs['arrs'][j], o.attrs['cur'], keep=True)
        if o.kind == 'opaque_list':
            return SStr([('item', o.attrs['key'], k if isinstance(k, Term) else str(k))])
        if o.kind == 'masked':
            raise Unsupported('index of a masked selection', node)
        if o.kind == 'grid_':
            return FN['grid_'](I, o, k, node)
        if o.kind == 'nonzero':
            return ObjV('nonzero_part', {'of': o, 'k': k})
        if o.kind == 'shape_of':
            return o.attrs['f'](k)
        if o.kind == 'environ':
            return Unk('environ')
        if o.kind == 'concatidx':
            parts = list(k) if isinstance(k, tuple) else [k]
            return np_concat(I, [tuple(p if isinstance(p, Arr) else toarr(I, (p,)) for p in parts)], {}, node)
        if 'getitem' in o.attrs:
            return o.attrs['getitem'](I, k, node)
    if isinstance(o, IterV):
        return getitem(I, I.mklist(seq_items(I, o)), k, node)
    if isinstance(o, Unk):
        return Unk(o.why)
    if o is None or isterm(o):
        I.do_raise('TypeError', ('not subscriptable',), node, implicit=True)
    raise Unsupported('subscript of %r' % (o,), node)


def arr_getitem(I, a, k, node):
    if isinstance(k, ObjV) and k.kind == 'nonzero':
        return ObjV('masked', {'arr': arr_copy(I, a), 'mask': k.attrs['mask']})
    if isinstance(k, str):
        I.do_raise('IndexError', ('only integers, slices...',), node, implicit=True)
    keys = split_keys(I, a, k, node)
    if any(isinstance(x, Arr) and x.dtype == 'bool' for x in keys):
        w, m, off = mask_view(I, a, keys, node)
        if m.ndim == w.ndim:
            return ObjV('masked', {'arr': arr_copy(I, w), 'mask': arr_copy(I, m)})
        raise Unsupported('partial boolean index', node)
    if not any(is_fancy(x) for x in keys):
        v = basic_view(I, a, tuple(keys), node)
        if v.ndim == 0:
            e = I.elem(v, ())
            return e
        return v
    return fancy_get(I, a, keys, node)


def mask_view(I, a, keys, node):
    """the part of a that a key with one boolean array selects from, the
    boolean array, and the first axis of that part that it selects on"""
    ms = [x for x in keys if isinstance(x, Arr) and x.dtype == 'bool']
    if len(ms) != 1 or any(is_fancy(x) and x is not ms[0] for x in keys):
        raise Unsupported('boolean index with another index array', node)
    at = [j for j, x in enumerate(keys) if x is ms[0]][0]
    plain, off = [], 0
    for j, x in enumerate(keys):
        if x is ms[0]:
            plain += [SliceV(None, None, None)] * x.ndim
            continue
        plain.append(x)
        if x is None or isinstance(x, SliceV):
            off += j < at
    if off and any(isinstance(x, Term) for x in keys[at:]):
        raise Unsupported('boolean index and a scalar index apart', node)
    return basic_view(I, a, tuple(plain), node), ms[0], off


def fancy_plan(I, a, keys, node):
    """returns (shape, fn(ix)-> base index tuple)"""
    adv = [j for j, x in enumerate(keys) if is_fancy(x) or isterm(x)]
    advarr = [keys[j] for j in adv]
    bsh = broadcast(I, [x.shape for x in advarr if isinstance(x, Arr)], node)
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    shape = []
    plan = []
    pos_b = None
    d = 0
    snaps = {}
    for j, k in enumerate(keys):
        if k is None:
            if False:
                pass
            plan.append(('new', None))
            continue
        n = a.shape[d]
        d += 1
        if isinstance(k, SliceV):
            plan.append(('slice', norm_slice(I, k, n, node)))
        elif isinstance(k, Arr):
            snaps[j] = I.heap[k.oid]
            plan.append(('arr', (k, snaps[j], n)))
        else:
            plan.append(('int', norm_index(I, k, n, node)))
    first = adv[0]
    out = []
    if not contiguous:
        out += [('b', q) for q in range(len(bsh))]
        shape += list(bsh)
    for j, (kind, x) in enumerate(plan):
        if j == first and contiguous:
            out += [('b', q) for q in range(len(bsh))]
            shape += list(bsh)
        if kind == 'slice':
            out.append(('s', j))
            shape.append(x[2])
        elif kind == 'new':
            out.append(('n', j))
            shape.append(ONE)

    def fn(ix):
        b = [None] * len(bsh)
        s = {}
        for (kind, q), i in zip(out, ix):
            if kind == 'b':
                b[q] = i
            elif kind == 's':
                s[q] = i
        idx = []
        for j, (kind, x) in enumerate(plan):
            if kind == 'slice':
                idx.append(add(x[0], mul(x[1], s[j])))
            elif kind == 'int':
                idx.append(x)
            elif kind == 'arr':
                arr, sn, n = x
                e = tobool01(rd(sn, arr.at(bidx(arr.shape, bsh, b))))
                if not nonneg(e):
                    e = fancy_norm(e, n)
                idx.append(e)
        return tuple(idx)
    return tuple(shape), fn


def fancy_norm(e, n):
    if nonneg(sub(neg(e), ONE)):
        return add(e, n)
    if constval(e) is not None:
        return e
    return ite(lt0(e), add(e, n), e)


def fancy_get(I, a, keys, node):
    shape, fn = fancy_plan(I, a, keys, node)
    snap = I.heap[a.oid]
    return I.lam_arr(shape, lambda ix: rd(snap, a.at(fn(ix))), a.dtype)


def setitem(I, o, k, v, node=None):
    if has_method(o, '__setitem__'):
        inst_call(I, o, '__setitem__', [k, v], node)
        return
    if isinstance(o, Choice):
        I.distribute([o], lambda x: setitem(I, x, k, v, node))
        return
    if isinstance(k, Choice):
        I.distribute([k], lambda x: setitem(I, o, x, v, node))
        return
    if isinstance(k, tuple) and any(isinstance(x, Choice) for x in k):
        I.distribute(list(k), lambda *x: setitem(I, o, tuple(x), v, node))
        return
    if isinstance(o, LC):
        raise Carried(o.name)
    if isinstance(o, DictRef):
        I.on_write(o.oid, node)
        d = dict(I.heap[o.oid])
        d[I.hkey(k)] = v
        I.heap[o.oid] = d
        return
    if isinstance(o, ListRef):
        items = list(I.list_items(o))
        chk_list(items)
        I.on_write(o.oid, node)
        if isinstance(k, SliceV):
            b = [x if x is None else const_int(x) for x in (k.start, k.stop, k.step)]
            if any(x is None and y is not None for x, y in zip(b, (k.start, k.stop, k.step))) or any(isinstance(x, SeqSeg) for x in items):
                raise Unsupported('symbolic list slice store', node)
            new = list(seq_items(I, v))
            if any(isinstance(x, SeqSeg) for x in new):
                raise Unsupported('symbolic list slice store', node)
            if k.step is not None and len(items[slice(*b)]) != len(new):
                I.do_raise('ValueError', ('extended slice size',), node, implicit=True)
            items[slice(*b)] = new
            I.heap[o.oid] = tuple(items)
            return
        i = scal(I, k)
        c = const_int(i) if i is not None else None
        if c is None or any(isinstance(x, SeqSeg) for x in items):
            if c is not None and len(items) == 1 and isinstance(items[0], SeqSeg):
                pass
            raise Unsupported('symbolic list store', node)
        if not -len(items) <= c < len(items):
            I.do_raise('IndexError', ('list assignment',), node, implicit=True)
        items[c] = v
        I.heap[o.oid] = tuple(items)
        return
    if isinstance(o, Arr):
        return arr_setitem(I, o, k, v, node)
    if isinstance(o, ObjV) and o.kind == 'nditer':
        j = const_int(k)
        if o.attrs['adv'] or o.attrs['cur'] is None:
            raise Unsupported('nditer used after advancing', node)
        return arr_setitem(I, view_at(I, o.attrs['arrs'][j], o.attrs['cur'], keep=True), ell(), v, node)
    if isinstance(o, ObjV) and o.kind == 'environ':
        I.event('global_state', 'os.environ', node)
        return
    if isinstance(o, tuple) or is_str(o):
        I.do_raise('TypeError', ('item assignment',), node, implicit=True)
    if isinstance(o, ObjV) and o.kind == 'opaque':
        return
    raise Unsupported('store into %r' % (o,), node)


def value_reader(I, v, shape, node, dtype='f8'):
    """fn(ix) -> term for broadcasting value v to shape"""
    if isinstance(v, Choice):
        a = value_reader(I, v.a, shape, node)
        b = value_reader(I, v.b, shape, node)
        return lambda ix: ite(v.c, tobool01(a(ix)), tobool01(b(ix)))
    s = scal(I, v)
    if s is not None:
        return lambda ix: s
    if v is None:
        if dtype in ('int', 'bool') or str(dtype).startswith(('i', 'u')):
            I.do_raise('TypeError', ('None stored in an integer array',), node, implicit=True)
        nan = app('nan')
        return lambda ix: nan
    if is_str(v):
        t = opaque('str')
        return lambda ix: t
    if isinstance(v, ObjV) and v.kind == 'array0_none':
        return value_reader(I, None, shape, node, dtype)
    if isinstance(v, ObjV):
        raise Unsupported('store of %r' % (v,), node)
    a = toarr(I, v, node)
    # drop leading ones of the value
    sh = list(a.shape)
    drop = 0
    while len(sh) > len(shape):
        if constval(sh[0]) == 1:
            sh.pop(0)
            drop += 1
        else:
            I.do_raise('ValueError', ('could not broadcast',), node, implicit=True)
    off = len(shape) - len(sh)
    for q, n in enumerate(sh):
        m = shape[q + off]
        if constval(n) == 1 or n is m:
            continue
        e = dim_eq(n, m)
        if e is False and decide(eq(n, ONE)) is not True:
            if decide(eq(n, ONE)) is False:
                I.do_raise('ValueError', ('could not broadcast input array',), node, implicit=True)
        if e is None:
            I.notes.append(('assume-shape', str(n), str(m), I.site(node)))
    snap = I.heap[a.oid]
    sh = tuple(sh)

    def f(ix):
        j = []
        for q, n in enumerate(sh):
            j.append(ZERO if constval(n) == 1 and constval(shape[q + off]) != 1 else ix[q + off])
        return rd(snap, a.at((ZERO,) * drop + tuple(j)))
    return f


def arr_setitem(I, a, k, v, node):
    I.on_write(a.oid, node)
    snap = I.heap[a.oid]
    if isinstance(k, ObjV) and k.kind == 'nonzero':
        k = k.attrs['mask']
    keys = split_keys(I, a, k, node) if a.ndim else []
    if any(isinstance(x, Arr) and x.dtype == 'bool' for x in keys):
        a, k, off = mask_view(I, a, keys, node)
        m_snap = I.heap[k.oid]
        bs = tuple(var('b') for _ in a.shape)
        ix = tuple(atom(b) for b in bs)
        if isinstance(v, ObjV) and v.kind == 'masked':
            if k.ndim != a.ndim or not same_mask(I, v, k):
                raise Unsupported('store of one masked selection into another', node)
            v = v.attrs['arr']
            val = value_reader(I, v, a.shape, node)(ix)
        else:
            s = scal(I, v)
            if s is None:
                raise Unsupported('masked store of array', node)
            val = s
        g = rd(m_snap, k.at(ix[off:off + k.ndim]))
        store(I, a.oid, snap, list(zip(bs, a.shape)), a.at(ix), g, val, node)
        return
    keys = split_keys(I, a, k, node)
    if any(is_fancy(x) for x in keys):
        shape, fn = fancy_plan(I, a, keys, node)
        rdv = value_reader(I, v, shape, node, a.dtype)
        ns = [constval(n) for n in shape]
        if all(n is not None for n in ns) and math.prod(ns) <= 16:
            # a few elements: one store each, in order
            for j in itertools.product(*[range(int(n)) for n in ns]):
                ix = tuple(num(q) for q in j)
                store(I, a.oid, I.heap[a.oid], [], a.at(fn(ix)), TRUE, rdv(ix), node)
            return
        bs = tuple(var('b') for _ in shape)
        ix = tuple(atom(b) for b in bs)
        store(I, a.oid, snap, list(zip(bs, shape)), a.at(fn(ix)), TRUE, rdv(ix), node)
        return
    w = basic_view(I, a, tuple(keys), node)
    rdv = value_reader(I, v, w.shape, node, a.dtype)
    bs = tuple(var('b') for _ in w.shape)
    c = cur().copy()
    for b, n in zip(bs, w.shape):
        c.bound(b, ZERO, sub(n, ONE))
    PR.CUR.append(c)
    try:
        ix = tuple(atom(b) for b in bs)
        idx = w.at(ix)
        val = rdv(ix)
    finally:
        PR.CUR.pop()
    if any(constval(n) == 0 for n in w.shape):
        return
    store(I, a.oid, snap, list(zip(bs, w.shape)), idx, TRUE, val, node, a.dtype)


def store(I, oid, snap, bvars, idx, guard, val, node, dtype=None):
    if snap.boolean and not isbool(val):
        val = lnot(eq0(val))
    elif not snap.boolean and isbool(val):
        val = tobool01(val)
    if oid in I.maybe_view:
        raise Unsupported('write to a reshaped array that may share memory with another', node)
    I.heap[oid] = Upd(snap, bvars, idx, guard, val, I.fvs(), I.site(node))
    sync(I, oid, {oid})


def sync(I, oid, done):
    """arrays sharing memory with the one just written see the write"""
    for other, fn, fwd in I.links.get(oid, ()):
        if other in done or other not in I.heap:
            continue
        done.add(other)
        I.heap[other] = fn(I.heap[oid])
        o = I.owner.get(other)
        if o and not I.owner.get(oid):
            I.event('mutate', o, None)
        sync(I, other, done)


def link_views(I, a, r, flatten):
    """r is a view of the whole of a; flatten maps r's index to a's, and the other way round"""
    to, back = flatten

    def lam(shape, snap, f):
        x = I.lam_arr(shape, lambda ix: rd(snap, f(ix)))
        return I.heap.pop(x.oid)
    I.links.setdefault(r.oid, []).append((a.oid, lambda s: lam(a.shape, s, back), False))
    I.links.setdefault(a.oid, []).append((r.oid, lambda s: lam(r.shape, s, to), True))


# ------------------------------------------------------------------ attributes
EXT_SUB = {'numpy.linalg', 'os.path', 'numpy.random', 'xml.etree', 'numpy.lib', 'numpy.lib.stride_tricks', 'numpy.ma'}
EXT_CONST = {
    'numpy.PZERO': ZERO, 'numpy.NZERO': ZERO, 'numpy.inf': INF, 'numpy.Inf': INF, 'numpy.Infinity': INF, 'numpy.PINF': INF,
    'numpy.NINF': neg(INF), 'numpy.pi': PI, 'math.pi': PI, 'math.inf': INF, 'numpy.nan': app('nan'), 'math.nan': app('nan'),
    're.DOTALL': num(16), 're.S': num(16), 're.MULTILINE': num(8), 're.M': num(8), 're.IGNORECASE': TWO, 're.I': TWO, 're.VERBOSE': num(64), 're.X': num(64),
    're.ASCII': num(256), 're.A': num(256),
    'os.sep': '/', 'os.path.sep': '/', 'os.linesep': '\n', 'numpy.newaxis': None, 'os.extsep': '.', 'sys.byteorder': 'little',
    'sys.maxsize': num(2 ** 63 - 1), 'os.SEEK_SET': ZERO, 'os.SEEK_END': TWO, 'os.SEEK_CUR': ONE,
}


def getattr_ext(I, m, name):
    full = m.name + '.' + name
    if full in EXT_CONST:
        return EXT_CONST[full]
    if full in EXT_SUB:
        return ExtMod(full)
    if full in ('numpy.s_', 'numpy.index_exp'):
        return ObjV('s_')
    if full == 'numpy.r_':
        return ObjV('concatidx')
    if full == 'numpy.c_':
        return ObjV('grid_', {'f': 'c_'})
    if full in ('numpy.mgrid', 'numpy.ogrid'):
        return ObjV('grid_', {'f': full[6:]})
    if full in ('sys.stdout', 'sys.stderr', 'sys.stdin'):
        return ObjV('stream', {'name': full})
    if full == 'sys.argv':
        return Unk('argv')
    if full == 'os.environ':
        return ObjV('environ')
    if full == 'sys.path' or full == 'sys.modules':
        return ObjV('sysglobal', {'name': full})
    if full.endswith('Error') or full.endswith('Warning'):
        return ExcT(name)
    if full.startswith('errno.') and isinstance(getattr(_errno, name, None), int):
        return num(getattr(_errno, name))
    return Builtin(full)


BUILTIN_FUNCS = {'len', 'range', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'zip', 'enumerate', 'min', 'max', 'abs', 'sum',
                 'any', 'all', 'sorted', 'reversed', 'print', 'isinstance', 'hasattr', 'getattr', 'setattr', 'map', 'filter', 'open',
                 'round', 'bool', 'iter', 'next', 'type', 'repr', 'slice', 'divmod', 'pow', 'callable', 'id', 'object', 'super',
                 'property', 'staticmethod', 'classmethod', 'bytes', 'globals', 'locals', 'vars', 'issubclass', 'hash', 'ord', 'chr',
                 'complex', '__import__', 'exit', 'quit', 'delattr', 'format', 'bytearray', 'memoryview', 'dir', 'input', 'eval', 'exec'}


def builtin_name(name):
    if name in EXC_BASES:
        return ExcT(name)
    if name in BUILTIN_FUNCS:
        return Builtin(name)
    if name == 'Ellipsis':
        return ell()
    if name == 'NotImplemented':
        return Unk('NotImplemented')
    if name == '__debug__':
        return TRUE
    return None


def getattr_(I, o, name, node=None):
    if isinstance(o, Choice):
        return I.distribute([o], lambda x: getattr_(I, x, name, node))
    if isinstance(o, LC):
        raise Carried(o.name)
    if isinstance(o, UserMod):
        if name in o.env:
            return o.env[name]
        m = I.module(o.name + '.' + name)
        if m is not None:
            return m
        I.do_raise('AttributeError', ('module %s has no %s' % (o.name, name),), node, implicit=True)
    if isinstance(o, ExtMod):
        return getattr_ext(I, o, name)
    if isinstance(o, Arr):
        return arr_attr(I, o, name, node)
    if isinstance(o, Term):
        if name in ('real',):
            return o
        if name == 'shape':
            return ()
        if name == 'ndim':
            return ZERO
        if name == 'T':
            return o
        if name == 'size':
            return ONE
        if name == 'dtype':
            return Builtin('dtype:f8')
        return Builtin('scalar.' + name, o)
    if is_str(o):
        return Builtin('str.' + name, o)
    if isinstance(o, NTuple) and name in o.fields:
        return o[o.fields.index(name)]
    if isinstance(o, tuple):
        if name in ('count', 'index', '_replace', '_asdict'):
            return Builtin('tuple.' + name, o)
    if isinstance(o, ListRef):
        return Builtin('list.' + name, o)
    if isinstance(o, DictRef):
        return Builtin('dict.' + name, o)
    if isinstance(o, Unk):
        return Unk(o.why)
    if isinstance(o, SliceV):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
    if isinstance(o, RangeV):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
    if isinstance(o, Func):
        if name == '__name__':
            return o.name
        if name == '__doc__':
            return Unk('doc')
        return Unk('function attribute')
    if isinstance(o, Builtin):
        if name == '__name__':
            return o.name.split('.')[-1]
        if o.name.startswith('dtype:'):
            dt = o.name[6:]
            if name == 'itemsize':
                return num(4 if '4' in dt else 8)
            if name in ('kind',):
                return dt.lstrip('<>=|')[:1]
            if name in ('str', 'name'):
                return dt
            if name == 'byteorder':
                return dt[:1] if dt[:1] in '<>' else '='
            if name in ('newbyteorder',):
                return Builtin('dtype.newbyteorder', o)
        return Builtin(o.name + '.' + name, o.self_)
    if isinstance(o, ObjV):
        return obj_attr(I, o, name, node)
    if isinstance(o, Exc):
        if name == 'args':
            return tuple(o.args)
        if name in ('errno', 'strerror', 'filename') and (o.name == 'OSError' or 'OSError' in EXC_BASES.get(o.name, ())):
            k = ('errno', 'strerror', 'filename').index(name)
            return o.args[k] if len(o.args) > max(k, 1) else None
        return Unk('exc')
    if isinstance(o, IterV):
        return Builtin('iterv.' + name, o)
    if o is None or isinstance(o, (tuple,)):
        I.do_raise('AttributeError', (name,), node, implicit=True)
    raise Unsupported('attribute %s of %r' % (name, o), node)


ARR_METHODS = {'copy', 'astype', 'tofile', 'nonzero', 'mean', 'min', 'max', 'sum', 'any', 'all', 'reshape', 'ravel', 'flatten',
               'tolist', 'transpose', 'fill', 'item', 'squeeze', 'dot', 'argmin', 'argmax', 'tobytes', 'byteswap', 'view', 'prod',
               'swapaxes', 'repeat', 'clip', 'take', 'std', 'round', 'cumsum', 'newbyteorder', 'setflags', 'sort', 'conj', 'diagonal',
               '__len__', '__getitem__', '__setitem__', 'compress', 'ptp', 'trace', 'var'}


def arr_attr(I, a, name, node):
    if name == 'shape':
        return tuple(a.shape)
    if name == 'ndim':
        return num(a.ndim)
    if name == 'size':
        return mul(*a.shape) if a.shape else ONE
    if name == 'T':
        return Arr(a.oid, a.shape[::-1], a.vars[::-1], a.maps, a.dtype)
    if name == 'dtype':
        return Builtin('dtype:' + a.dtype)
    if name == 'itemsize':
        return num(4 if a.dtype.endswith('4') else 8)
    if name == 'nbytes':
        return mul(num(4 if a.dtype.endswith('4') else 8), *a.shape)
    if name == 'flat':
        return reshape(I, a, (prod(a.shape),), 'C', node, flat=True)
    if name == 'real':
        return a
    if name == 'flags':
        lay = I.layout.get(a.oid) if I.whole(a) else None
        n2 = [n for n in a.shape if constval(n) != 1]
        thin = all(constval(n) is not None for n in a.shape) and len(n2) < 2

        def contig(o):
            if thin and I.whole(a):
                return TRUE
            if lay == o:
                return TRUE
            if lay is not None and all(constval(n) is not None for n in n2):
                return FALSE
            return bapp('contiguous', T.string('%s%d' % (o, a.oid)))
        d = {'c_contiguous': contig('C'), 'f_contiguous': contig('F'), 'contiguous': contig('C'), 'fortran': contig('F'), 'writeable': TRUE, 'aligned': TRUE}
        return ObjV('flags', {'getattr': lambda n: d.get(n, Unk('flags')), 'getitem': lambda I, k, node: d.get({'C': 'c_contiguous', 'F': 'f_contiguous'}.get(k, k.lower() if isinstance(k, str) else k), Unk('flags'))})
    if name == 'base':
        return Unk('base')
    if name in ARR_METHODS:
        return Builtin('arr.' + name, a)
    I.do_raise('AttributeError', ('ndarray.' + name,), node, implicit=True)


def obj_attr(I, o, name, node):
    k = o.kind
    if k == 'flags':
        return o.attrs['getattr'](name)
    if k == 'finfo':
        if name in o.attrs:
            return o.attrs[name]
        raise Unsupported('finfo.' + name, node)
    if k == 'nditer':
        if name == 'multi_index':
            if not o.attrs['multi']:
                I.do_raise('ValueError', ('multi_index not tracked',), node, implicit=True)
            if o.attrs['adv'] or o.attrs['cur'] is None:
                raise Unsupported('nditer used after advancing', node)
            return tuple(o.attrs['cur'])
        if name == 'finished':
            return TRUE if o.attrs.get('done') else bapp('nditer_finished', T.string(str(id(o))))
        if name == 'shape':
            return tuple(o.attrs['shape'])
        if name == 'itersize':
            return mul(*o.attrs['shape'])
        if name == 'value':
            return getitem(I, o, ZERO, node)
        if name == 'operands':
            return tuple(o.attrs['arrs'])
        return Builtin('nditer.' + name, o)
    if k == 'args':
        if name == '__dict__':
            return o.attrs['ns']
        ns = I.dict_items(o.attrs['ns'])
        if name in ns:
            return ns[name]
        I.do_raise('AttributeError', ('args.' + name,), node, implicit=True)
    if k == 'geod':
        if name == 'a':
            return o.attrs['a']
        if name in ('b',):
            return o.attrs['a']
        if name in ('f', 'es'):
            return ZERO
        return Builtin('geod.' + name, o)
    if k == 'inst':
        d = I.heap[o.oid]
        if name in d:
            v = d[name]
            if isinstance(v, LC):
                raise Carried(v.name)
            return v
        cls = o.attrs['cls'].attrs['dict']
        if name in cls:
            return class_attr(I, cls[name], o, o.attrs['cls'], node)
        if name == '__class__':
            return o.attrs['cls']
        if name == '__dict__':
            raise Unsupported('__dict__', node)
        if '__getattr__' in cls:
            return I.call(cls['__getattr__'], [o, name], {}, node)
        I.do_raise('AttributeError', (name,), node, implicit=True)
    if k == 'super':
        for b in o.attrs['cls'].attrs['bases']:
            if name in b.attrs['dict']:
                x = o.attrs['obj']
                return class_attr(I, b.attrs['dict'][name], x, x.attrs['cls'] if x.kind == 'inst' else x, node)
        if name in ('__init__', '__post_init__', '__init_subclass__'):
            return Builtin('noop')
        raise Unsupported('super().%s' % name, node)
    if k == 'property':
        if name == 'setter':
            return Builtin('property.setter', o)
    if k == 'class':
        if name == '__name__':
            return o.attrs['name']
        if name in o.attrs['dict']:
            return class_attr(I, o.attrs['dict'][name], None, o, node)
        if name == '_make':
            return Builtin('class._make', o)
    if k == 'file':
        if name == 'name':
            return o.attrs['name']
        if name == 'closed':
            return I.heap[o.oid]['closed']
        return Builtin('file.' + name, o)
    if k == 'stream':
        return Builtin('stream.' + name, o)
    if k in ('match', 'parser', 'group', 'regridder', 'sysglobal', 'environ', 'set', 're', 'path', 'masked', 'opaque', 'opaque_list', 'globlist', 'errstate', 'catch_warnings'):
        if name in o.attrs.get('props', {}):
            return o.attrs['props'][name]
        if k == 'path':
            if name in ('name', 'suffix', 'stem', 'parent'):
                return path_prop(I, o, name)
        if k == 'masked':
            if name == 'size':
                return np_reduce_count(I, o)
        if k == 'opaque' and not callable(o.attrs.get('methods')):
            return Unk('attr ' + name)
        return Builtin(k + '.' + name, o)
    if k == 'array0_none':
        if name == 'ndim':
            return ZERO
        if name == 'shape':
            return ()
        if name == 'size':
            return ONE
        return Builtin('array0.' + name, o)
    if name in o.attrs:
        return o.attrs[name]
    raise Unsupported('attribute %s of %s' % (name, k), node)


def class_attr(I, m, inst, cls, node):
    if isinstance(m, ObjV) and m.kind == 'static':
        return m.attrs['fn']
    if isinstance(m, ObjV) and m.kind == 'classm':
        return Partial(m.attrs['fn'], [cls], {})
    if inst is None:
        return m
    if isinstance(m, Func):
        return Partial(m, [inst], {})
    if isinstance(m, ObjV) and m.kind == 'property':
        return I.call(m.attrs['fn'], [inst], {}, node)
    if isinstance(m, ObjV) and m.kind in ('memofn', 'ctxmgrfn'):
        return Partial(m, [inst], {})
    return m


def class_mro(c):
    r = [c]
    for b in c.attrs.get('bases', ()):
        r += class_mro(b)
    return r


def setattr_(I, o, name, v, node=None):
    if isinstance(o, ObjV) and o.kind == 'inst':
        m = o.attrs['cls'].attrs['dict'].get(name)
        if isinstance(m, ObjV) and m.kind == 'property':
            if m.attrs['set'] is None:
                I.do_raise('AttributeError', (name,), node, implicit=True)
            I.call(m.attrs['set'], [o, v], {}, node)
            return
        I.on_write(o.oid, node)
        d = dict(I.heap[o.oid])
        d[name] = v
        I.heap[o.oid] = d
        return
    if isinstance(o, UserMod):
        I.event('global_state', '%s.%s' % (o.name, name), node)
        o.env[name] = v
        return
    if isinstance(o, ExtMod) or isinstance(o, Builtin):
        I.event('global_state', '%s.%s' % (o.name, name), node)
        return
    if isinstance(o, ObjV) and o.kind == 'class':
        I.event('global_state', 'class %s.%s' % (o.attrs['name'], name), node)
        return
    if isinstance(o, ObjV) and o.kind == 'args':
        setitem(I, o.attrs['ns'], name, v, node)
        return
    if isinstance(o, Arr) and name == 'shape':
        raise Unsupported('in-place reshape', node)
    if isinstance(o, Func):
        return
    raise Unsupported('attribute store on %r' % (o,), node)


# ------------------------------------------------------------------ with
def enter(I, v, node):
    if isinstance(v, Choice):
        raise Unsupported('with on merged value', node)
    if isinstance(v, ObjV):
        if v.kind == 'catch_warnings':
            I.catchdepth = getattr(I, 'catchdepth', 0) + 1
            return Unk('caught')
        if v.kind == 'errstate':
            return v
        if v.kind == 'inst':
            m = getattr_(I, v, '__enter__', node)
            return I.call(m, [], {}, node)
        if v.kind in ('closing', 'nullcontext'):
            return v.attrs['obj']
        return v
    return v


def exit_(I, v, node):
    if isinstance(v, ObjV):
        if v.kind == 'catch_warnings':
            I.catchdepth -= 1
        elif v.kind == 'file':
            file_close(I, v, node)
        elif v.kind == 'closing':
            c = getattr_(I, v.attrs['obj'], 'close', node)
            I.call(c, [], {}, node)
        elif v.kind == 'inst':
            I.call(getattr_(I, v, '__exit__', node), [None, None, None], {}, node)


# ------------------------------------------------------------------ while
def _nditer_test(I, st, fr):
    t = st.test
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Attribute) and t.operand.attr == 'finished':
        v = I.eval(t.operand.value, fr)
        if isinstance(v, ObjV) and v.kind == 'nditer':
            return v
    return None


def exec_while(I, st, fr):
    from . import interp as IP
    it = _nditer_test(I, st, fr)
    body = lambda: I.exec_block(st.body, fr)
    names = IP._assigned_block(st.body)
    if it is not None:
        if it.attrs.get('done'):
            return

        def bind(ix):
            it.attrs['cur'] = tuple(ix)
            it.attrs['adv'] = False

        def loop(stmts):
            def body2():
                I.exec_block(stmts, fr)
                if not it.attrs['adv']:
                    raise Unsupported('nditer loop without iternext', st)
            I.sym_loops(list(it.attrs['shape']), bind, body2, IP._assigned_block(stmts), fr, st)
        I.early(st, fr, loop)
        it.attrs['cur'] = None
        it.attrs['done'] = True
        return
    breaks = []
    for k in range(70):
        c = I.truth(I.eval(st.test, fr))
        d = I.decide(c)
        if d is False:
            if st.orelse:
                I.exec_block(st.orelse, fr)
            break
        if (k == 0 or d is None) and counter_while(I, st, fr, names, body):
            break
        if d is None:
            h = getattr(I, 'while_hook', None)
            if h is not None and h(I, st, fr, c, k):
                break
            raise Unsupported('while condition not decided', st)
        if not I.run_body(body, fr, False, breaks):
            break
        if fr.dead:
            break
    else:
        raise Unsupported('while loop not bounded', st)
    if breaks:
        live = [] if fr.dead else [(TRUE, I.save(fr))]
        live += breaks
        fr.dead = False
        s = live[0][1]
        for c, s1 in live[1:]:
            env = I.merge_states(c, s1, s)
            s = (env, dict(I.heap))
        I.restore(fr, s)


_while_memo = {}


def own_jump(s, kind):
    """does s contain a jump of the loop it is in (not of an inner one)?"""
    if isinstance(s, kind):
        return True
    if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
        return any(own_jump(x, kind) for x in s.orelse)
    if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return False
    return any(own_jump(x, kind) for x in ast.iter_child_nodes(s))


def counter_while(I, st, fr, names, body):
    from . import early as EL
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return False
    op = type(t.ops[0]).__name__
    for side in (0, 1):
        lhs, rhs = (t.left, t.comparators[0]) if side == 0 else (t.comparators[0], t.left)
        o = op if side == 0 else {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE', 'NotEq': 'NotEq'}.get(op)
        if o not in ('Lt', 'LtE', 'Gt', 'GtE', 'NotEq') or not isinstance(lhs, ast.Name) or lhs.id not in names:
            continue
        if {n.id for n in ast.walk(rhs) if isinstance(n, ast.Name)} & names:
            continue
        inc = None
        cnt = 0
        for s in st.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == lhs.id:
                    cnt += 1
        for s in st.body:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == lhs.id and isinstance(s.op, (ast.Add, ast.Sub)):
                if {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)} & names:
                    continue
                v = I.eval(s.value, fr)
                if not isnum(v):
                    continue
                inc = v if isinstance(s.op, ast.Add) else neg(v)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == lhs.id:
                e = s.value
                if isinstance(e, ast.Name) and e.id in names:
                    # the next value, computed under another name
                    d = [x for x in st.body if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id]
                    k = sum(1 for x in st.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == e.id)
                    if len(d) != 1 or k != 1 or st.body.index(d[0]) > st.body.index(s):
                        continue
                    e = d[0].value
                if isinstance(e, ast.BinOp) and isinstance(e.left, ast.Name) and e.left.id == lhs.id and isinstance(e.op, (ast.Add, ast.Sub)):
                    if {n.id for n in ast.walk(e.right) if isinstance(n, ast.Name)} & names:
                        continue
                    v = I.eval(e.right, fr)
                    if not isnum(v):
                        continue
                    inc = v if isinstance(e.op, ast.Add) else neg(v)
        if inc is None or cnt != 1 or not isnum(inc):
            continue
        if any(own_jump(s, ast.Continue) for s in st.body):
            continue
        leaves = any(EL.exits(s) for s in st.body)
        last = st.body[-1]
        if leaves and not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == lhs.id or
                           isinstance(last, ast.Assign) and isinstance(last.targets[0], ast.Name) and last.targets[0].id == lhs.id):
            continue
        i0 = I.lookup(fr, lhs.id)
        b = I.eval(rhs, fr)
        if not (isnum(i0) and isnum(b)):
            continue
        up = pos(inc)
        down = pos(neg(inc))
        if o == 'Lt' and up:
            n = cdiv(sub(b, i0), inc)
        elif o == 'LtE' and up:
            n = cdiv(sub(add(b, ONE), i0), inc)
        elif o == 'Gt' and down:
            n = cdiv(sub(i0, b), neg(inc))
        elif o == 'GtE' and down:
            n = cdiv(sub(add(i0, ONE), b), neg(inc))
        elif o == 'NotEq' and constval(inc) == 1:
            n = sub(b, i0)
        else:
            continue
        if constval(n) is not None:
            continue
        if not nonneg(n):
            n = app('max', n, ZERO)
        if leaves:
            f = _while_memo.get(st)
            if f is None:
                at = lambda x: ast.copy_location(x, st)
                end = at(ast.Assign([at(ast.Name(lhs.id, ast.Store()))], at(ast.Name('<while end>', ast.Load()))))
                f = at(ast.For(at(ast.Name(lhs.id, ast.Store())), at(ast.Name('<while range>', ast.Load())), st.body[:-1] or [at(ast.Pass())], [end] + st.orelse))
                f = _while_memo[st] = f
            fr.env['<while range>'] = RangeV(i0, add(i0, mul(n, inc)), inc)
            fr.env['<while end>'] = add(i0, mul(n, inc))
            I.exec_block([f], fr)
            return True
        I.sym_loop(n, lambda x: I.run_body(body, fr, True), names, fr, st)
        if st.orelse and not fr.dead:
            I.exec_block(st.orelse, fr)
        return True
    return False


# ------------------------------------------------------------------ strings
def fmt1(I, x, spec='', conv=-1, node=None):
    if isinstance(spec, SStr):
        spec = '?'
    if isinstance(x, Choice):
        return SStr([('choice',)])
    if isinstance(x, Arr) and x.ndim == 0:
        x = I.scalar(x)
    if is_str(x):
        if spec and spec[-1] in 'dfeEgGn':
            I.do_raise('ValueError', ('format code for str',), node, implicit=True)
        if spec.strip('s') == '':
            return x
        if isinstance(x, str):
            return format(x, spec)
        return SStr([('pad', tstr(x), spec)])
    if isterm(x):
        x = tobool01(x)
        if spec and spec[-1] == 's' and conv == -1:
            I.do_raise('ValueError', ('format code s for number',), node, implicit=True)
        c = constval(x)
        if spec and spec[-1] == 'd' and not is_int(x):
            if c is not None or any(a.kind == 'sym' and a.args[0].startswith('f:') for a in atoms_of(x)):
                I.do_raise('ValueError', ('format code d for float',), node, implicit=True)
        if c is not None and c.denominator == 1 and (not spec or spec[-1] == 'd'):
            try:
                return format(int(c), spec)
            except ValueError:
                return SStr([('num', x, spec)])
        return SStr([('num', x, spec)])
    if x is None:
        if spec:
            I.do_raise('TypeError', ('format of None',), node, implicit=True)
        return 'None'
    return SStr([('obj', str(next(_oc)))])


def str_format(I, f, args, kw, node):
    if not isinstance(f, str):
        return SStr([('fmt', tstr(f))])
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        name = field
        import re
        m = re.match(r'^(\w*)(.*)$', field)
        name, rest = m.group(1), m.group(2)
        if name == '':
            if auto >= len(args):
                I.do_raise('IndexError', ('format index',), node, implicit=True)
            x = args[auto]
            auto += 1
        elif name.isdigit():
            if int(name) >= len(args):
                I.do_raise('IndexError', ('format index',), node, implicit=True)
            x = args[int(name)]
        else:
            if name not in kw:
                I.do_raise('KeyError', (name,), node, implicit=True)
            x = kw[name]
        while rest:
            m = re.match(r'^\.(\w+)(.*)$', rest) or re.match(r'^\[([^\]]*)\](.*)$', rest)
            if rest[0] == '.':
                x = getattr_(I, x, m.group(1), node)
            else:
                x = getitem(I, x, num(int(m.group(1))) if m.group(1).isdigit() else m.group(1), node)
            rest = m.group(2)
        out.append(fmt1(I, x, spec or '', ord(conv) if conv else -1, node))
    return sstr(*out)


def percent(I, f, b, node):
    import re
    if not isinstance(f, str):
        return SStr([('fmt', tstr(f))])
    args = list(b) if isinstance(b, tuple) else [b]
    out = []
    p = 0
    for m in re.finditer(r'%(\([^)]*\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', f):
        out.append(f[p:m.start()])
        p = m.end()
        if m.group(3) == '%':
            out.append('%')
            continue
        if m.group(1):
            x = getitem(I, b, m.group(1)[1:-1], node)
        else:
            if not args:
                I.do_raise('TypeError', ('not enough arguments for format',), node, implicit=True)
            x = args.pop(0)
        c = m.group(3)
        if c in 'sr':
            r = fmt1(I, x, '')
            out.append(r)
        else:
            if is_str(x) or x is None:
                I.do_raise('TypeError', ('number required',), node, implicit=True)
            if c in 'di':
                spec = m.group(2)
                cc = constval(x) if isnum(x) else None
                if cc is not None and cc.denominator == 1:
                    out.append(('%' + spec + 'd') % int(cc))
                else:
                    out.append(SStr([('num', tobool01(scal(I, x)) if scal(I, x) is not None else T.string('?'), spec + 'd')]))
            else:
                s = scal(I, x)
                out.append(SStr([('num', tobool01(s) if s is not None else T.string('?'), m.group(2) + c)]))
    out.append(f[p:])
    return sstr(*out)


def path_join(parts):
    out = ''
    for p in parts:
        if out == '':
            out = p
            continue
        if isinstance(p, str) and p.startswith('/'):
            out = p
            continue
        tail = out if isinstance(out, str) else out.parts[-1]
        if isinstance(tail, str) and tail.endswith('/'):
            out = sstr(out, p)
        else:
            out = sstr(out, '/', p)
    return out


def pathstr(v):
    if isinstance(v, ObjV) and v.kind == 'path':
        return v.attrs['s']
    return v


def path_prop(I, o, name):
    s = o.attrs['s']
    if name == 'suffix':
        return FN['os.path.splitext'](I, [s], {}, None)[1]
    if name == 'name':
        return FN['os.path.basename'](I, [s], {}, None)
    if name == 'parent':
        return ObjV('path', {'s': FN['os.path.dirname'](I, [s], {}, None)})
    return FN['os.path.splitext'](I, [FN['os.path.basename'](I, [s], {}, None)], {}, None)[0]


def str_method(I, s, name, args, kw, node):
    if name == 'format':
        return str_format(I, s, args, kw, node)
    if name == 'format_map':
        return str_format(I, s, [], dict(I.dict_items(args[0])), node)
    if isinstance(s, str):
        ok = all(isinstance(a, str) or const_int(a) is not None or a is None or isinstance(a, tuple) and all(isinstance(x, str) for x in a) for a in args)
        if name == 'join':
            items = seq_items(I, args[0], node)
            if any(isinstance(x, SeqSeg) for x in items):
                return SStr([('join', T.string(s), str(next(_oc)))])
            out = []
            for j, x in enumerate(items):
                if not is_str(x):
                    if isinstance(x, Unk):
                        x = SStr([('unk', str(next(_oc)))])
                    else:
                        I.do_raise('TypeError', ('join expects str',), node, implicit=True)
                if j:
                    out.append(s)
                out.append(x)
            return sstr(*out)
        if ok and name in ('rstrip', 'lstrip', 'strip', 'lower', 'upper', 'split', 'startswith', 'endswith', 'replace', 'title', 'capitalize',
                           'rjust', 'ljust', 'zfill', 'find', 'rfind', 'index', 'count', 'splitlines', 'rsplit', 'isdigit', 'isspace', 'partition',
                           'rpartition', 'isalpha', 'encode', 'center', 'casefold', 'expandtabs', 'isalnum'):
            if name == 'encode':
                return s
            a2 = [const_int(a) if isinstance(a, Term) else a for a in args]
            r = getattr(s, name)(*a2)
            if isinstance(r, bool):
                return B(r)
            if isinstance(r, int):
                return num(r)
            if isinstance(r, list):
                return I.mklist(r)
            return r
    if name in strsym.METHODS and (isinstance(s, SStr) or any(isinstance(a, SStr) for a in args)):
        r = str_try(I, lambda x, *a: getattr(x, name)(*a), [s] + list(args), kw)
        if r is not strsym.NOPE:
            return r
        if name in ('find', 'rfind') and str_try(I, lambda x, *a: getattr(x, name)(*a) >= 0, [s] + list(args), kw) is TRUE:
            # a position that depends on the unknown parts
            x = app('str' + name, tstr(s), *[tstr(a) for a in args if is_str(a)])
            for c in PR.CUR:
                c.fact(x)
            return x
    if isinstance(s, SStr):
        if name == 'endswith' and isinstance(args[0], str):
            last = s.parts[-1]
            if isinstance(last, str):
                if len(last) >= len(args[0]):
                    return B(last.endswith(args[0]))
                if not args[0].endswith(last):
                    return FALSE
        if name == 'startswith' and isinstance(args[0], str):
            first = s.parts[0]
            if isinstance(first, str) and len(first) >= len(args[0]):
                return B(first.startswith(args[0]))
        if name == 'lower' or name == 'upper':
            return SStr([getattr(p, name)() if isinstance(p, str) else (name,) + p for p in s.parts])
        if name in ('zfill', 'rjust', 'ljust') and len(s.parts) == 1 and s.parts[0][0] == 'num' and s.parts[0][2] in ('', 'd', None) and args and isterm(args[0]):
            fill = args[1] if len(args) > 1 else '0' if name == 'zfill' else ' '
            w, _u = resolve(args[0], I.base_ctx)
            w = const_int(w) if constval(w) is not None else None
            x = s.parts[0][1]
            if w is not None and w > 0 and (name == 'zfill' or fill == ' ' or fill == '0' and name == 'rjust' and decide(lt0(x), I.base_ctx) is False):
                return SStr([('num', x, ('0%dd' if fill == '0' else '%dd' if name == 'rjust' else '<%dd') % w)])
        if name in ('rstrip', 'lstrip', 'strip', 'replace', 'title', 'ljust', 'rjust', 'zfill', 'encode', 'expandtabs'):
            if name == 'rstrip' and args and isinstance(args[0], str):
                last = s.parts[-1]
                if isinstance(last, str):
                    q = last.rstrip(args[0])
                    if q:
                        return sstr(*(s.parts[:-1] + (q,)))
            return SStr([(name, tstr(s)) + tuple(tstr(a) if is_str(a) else (a if isinstance(a, Term) else T.string(str(a))) for a in args)])
        if name in ('startswith', 'endswith', 'isdigit', 'isspace'):
            return bapp('str.' + name, tstr(s), *[tstr(a) for a in args if is_str(a)])
        if name == 'join':
            return SStr([('join', tstr(s))])
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            return ObjV('opaque_list', {'key': mk('app', name, tstr(s), *[tstr(a) for a in args if is_str(a)])})
        if name in ('find', 'count', 'index', 'rfind'):
            return app('str' + name, tstr(s), *[tstr(a) for a in args if is_str(a)])
    raise Unsupported('str.%s' % name, node)


# ------------------------------------------------------------------ list / dict / tuple methods
def list_method(I, o, name, args, kw, node):
    if isinstance(o, tuple):
        items = list(o)
    else:
        items = list(I.list_items(o))
        carried = len(items) >= 2 and isinstance(items[0], str) and items[0] == '?list'
        if name == 'append':
            I.on_write(o.oid, node)
            I.heap[o.oid] = tuple(items) + (args[0],)
            return None
        if carried:
            chk_list(items)
        if name == 'extend':
            I.on_write(o.oid, node)
            I.heap[o.oid] = tuple(items) + tuple(seq_items(I, args[0], node))
            return None
        if name == 'copy':
            return I.mklist(items)
        if name == 'insert':
            I.on_write(o.oid, node)
            items.insert(const_int(args[0]), args[1])
            I.heap[o.oid] = tuple(items)
            return None
        if name == 'pop':
            I.on_write(o.oid, node)
            k = const_int(args[0]) if args else -1
            if not items:
                I.do_raise('IndexError', ('pop from empty list',), node, implicit=True)
            if any(isinstance(x, SeqSeg) for x in items):
                raise Unsupported('pop of symbolic list', node)
            r = items.pop(k)
            I.heap[o.oid] = tuple(items)
            return r
        if name == 'clear':
            I.on_write(o.oid, node)
            I.heap[o.oid] = ()
            return None
        if name in ('sort', 'reverse'):
            I.on_write(o.oid, node)
            if name == 'reverse' and not any(isinstance(x, SeqSeg) for x in items):
                I.heap[o.oid] = tuple(reversed(items))
                return None
            r = b_sorted(I, [o], kw, node)
            I.heap[o.oid] = tuple(I.list_items(r))
            return None
        if name == 'remove':
            I.on_write(o.oid, node)
            for j, x in enumerate(items):
                if I.decide(I.truth(values_equal(I, x, args[0]))):
                    del items[j]
                    I.heap[o.oid] = tuple(items)
                    return None
            raise Unsupported('list.remove', node)
    if name == 'index':
        if len(items) == 1 and type(items[0]) is SeqSeg and len(args) == 1 and isterm(args[0]) and isterm(items[0].val):
            q = items[0]
            D = tobool01(q.val)
            x = single_atom(args[0]) if isnum(args[0]) else None
            for kind in ('min', 'max'):
                if x is not None and x.kind == 'app' and x.args[0] == 'r' + kind and x.args[3] is q.n and subst(x.args[4], {x.args[2]: atom(q.v)}) is D:
                    # the position of the least (largest) item
                    return atom(mk('app', 'rarg' + kind, ZERO, INF if kind == 'min' else neg(INF), q.v, q.n, D, atom(q.v)))
        for j, x in enumerate(items):
            d = I.decide(values_equal(I, x, args[0]))
            if d is None:
                raise Unsupported('index of symbolic', node)
            if d:
                return num(j)
        I.do_raise('ValueError', ('not in list',), node, implicit=True)
    if name == 'count':
        return num(sum(1 for x in items if I.decide(values_equal(I, x, args[0]))))
    if name == '_asdict':
        return DictRef(I.new(dict(zip(o.fields, o))))
    if name == '_replace':
        d = dict(zip(o.fields, o))
        d.update(kw)
        r = NTuple(d[f] for f in o.fields)
        r.fields = o.fields
        return r
    raise Unsupported('list.%s' % name, node)


def dict_method(I, o, name, args, kw, node):
    d = I.dict_items(o)
    if name == 'get':
        k = I.hkey(args[0])
        if k in d and d[k] is not UNDEF:
            return getitem(I, o, args[0], node)
        return args[1] if len(args) > 1 else kw.get('default')
    if name == 'items':
        return IterV('items', [(I.unhkey(k), getitem(I, o, I.unhkey(k), node)) for k in d])
    if name == 'keys':
        return IterV('items', [I.unhkey(k) for k in d])
    if name == 'values':
        return IterV('items', [getitem(I, o, I.unhkey(k), node) for k in d])
    if name == 'copy':
        return DictRef(I.new(dict(d)))
    if name == 'update':
        I.on_write(o.oid, node)
        n = dict(d)
        for a in args:
            if isinstance(a, DictRef):
                n.update(I.dict_items(a))
            else:
                for x in seq_items(I, a, node):
                    kk, vv = unpack(I, x, 2, node)
                    n[I.hkey(kk)] = vv
        for k, v in kw.items():
            n[k] = v
        I.heap[o.oid] = n
        return None
    if name == 'pop':
        k = I.hkey(args[0])
        if k in d:
            r = getitem(I, o, args[0], node)
            I.on_write(o.oid, node)
            n = dict(d)
            del n[k]
            I.heap[o.oid] = n
            return r
        if len(args) > 1:
            return args[1]
        I.do_raise('KeyError', (args[0],), node, implicit=True)
    if name == 'setdefault':
        k = I.hkey(args[0])
        if k in d:
            return getitem(I, o, args[0], node)
        setitem(I, o, args[0], args[1] if len(args) > 1 else None, node)
        return args[1] if len(args) > 1 else None
    if name == 'clear':
        I.on_write(o.oid, node)
        I.heap[o.oid] = {}
        return None
    raise Unsupported('dict.%s' % name, node)


# ------------------------------------------------------------------ calls
def call_builtin(I, f, args, kw, node):
    name = f.name
    if f.self_ is not None:
        s = f.self_
        pre, _, meth = name.partition('.')
        if name == 'dtype.newbyteorder':
            return dtype_newbyteorder(I, [s] + list(args), kw, node)
        if pre == 'str':
            return ch(I, args, lambda *a: str_method(I, s, meth, list(a), kw, node))
        if pre == 'list' or pre == 'tuple':
            return list_method(I, s, meth, args, kw, node)
        if pre == 'dict':
            return dict_method(I, s, meth, args, kw, node)
        if pre == 'arr':
            return arr_method(I, s, meth, args, kw, node)
        if pre == 'scalar':
            return scalar_method(I, s, meth, args, kw, node)
        if pre == 'iterv':
            raise Unsupported('iterator method ' + meth, node)
        m = OBJM.get(pre)
        if m is not None:
            return m(I, s, meth, args, kw, node)
        if pre == 'dtype':
            return s
        raise Unsupported('method ' + name, node)
    fn = FN.get(name)
    if fn is not None:
        return fn(I, list(args), dict(kw), node)
    if name.startswith('numpy.'):
        u = UFUNC.get(name[6:])
        if u is not None:
            return ufunc(I, name[6:], u, args, kw, node)
    if name.startswith('math.'):
        u = UFUNC.get({'acos': 'arccos', 'asin': 'arcsin', 'atan2': 'arctan2', 'atan': 'arctan', 'pow': 'power', 'fabs': 'abs'}.get(name[5:], name[5:]))
        if u is not None:
            xs = [nscal(I, a, node) for a in args]
            return elementwise(I, u[1], xs, node)
    if name.startswith(('logging.', 'time.', 'datetime.', 'gc.', 'traceback.')):
        return Unk(name)
    raise Unsupported('call of ' + name, node)


def ch(I, args, fn):
    if any(isinstance(a, Choice) for a in args):
        return I.distribute(list(args), fn)
    return fn(*args)


def arg(args, kw, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kw.get(name, default)


def U1(name):
    return (1, lambda a: app(name, tobool01(a)))


UFUNC = {k: U1(k) for k in ('sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'sqrt', 'exp', 'log', 'log10', 'floor', 'ceil', 'rint', 'sinh', 'cosh', 'tanh', 'trunc')}
UFUNC['acos'] = UFUNC['arccos']
UFUNC['asin'] = UFUNC['arcsin']
UFUNC['atan'] = UFUNC['arctan']
UFUNC.update({
    'radians': (1, lambda a: app('radians', tobool01(a))), 'deg2rad': (1, lambda a: app('radians', tobool01(a))),
    'degrees': (1, lambda a: app('degrees', tobool01(a))), 'rad2deg': (1, lambda a: app('degrees', tobool01(a))),
    'abs': (1, lambda a: app('abs', tobool01(a))), 'absolute': (1, lambda a: app('abs', tobool01(a))), 'fabs': (1, lambda a: app('abs', tobool01(a))),
    'square': (1, lambda a: mul(tobool01(a), tobool01(a))), 'negative': (1, lambda a: neg(tobool01(a))),
    'reciprocal': (1, lambda a: div(ONE, tobool01(a))), 'isnan': (1, lambda a: isnan(a)), 'isfinite': (1, lambda a: lnot(isnan(a))), 'isinf': (1, lambda a: FALSE),
    'logical_not': (1, lambda a: lnot(tb(a))), 'invert': (1, lambda a: lnot(tb(a))), 'positive': (1, lambda a: a),
    'sign': (1, lambda a: ite(lt0(tobool01(a)), num(-1), ite(eq0(tobool01(a)), ZERO, ONE))),
    'add': (2, OPS['Add']), 'subtract': (2, OPS['Sub']), 'multiply': (2, OPS['Mult']), 'divide': (2, OPS['Div']), 'true_divide': (2, OPS['Div']),
    'floor_divide': (2, OPS['FloorDiv']), 'mod': (2, OPS['Mod']), 'remainder': (2, OPS['Mod']), 'power': (2, OPS['Pow']), 'float_power': (2, OPS['Pow']),
    'minimum': (2, lambda a, b: app('min', tobool01(a), tobool01(b))), 'maximum': (2, lambda a, b: app('max', tobool01(a), tobool01(b))),
    'fmin': (2, lambda a, b: app('min', tobool01(a), tobool01(b))), 'fmax': (2, lambda a, b: app('max', tobool01(a), tobool01(b))),
    'less': (2, CMP['Lt']), 'less_equal': (2, CMP['LtE']), 'greater': (2, CMP['Gt']), 'greater_equal': (2, CMP['GtE']),
    'equal': (2, CMP['Eq']), 'not_equal': (2, CMP['NotEq']),
    'logical_and': (2, lambda a, b: land(tb(a), tb(b))), 'logical_or': (2, lambda a, b: lor(tb(a), tb(b))),
    'logical_xor': (2, lambda a, b: lor(land(tb(a), lnot(tb(b))), land(lnot(tb(a)), tb(b)))),
    'bitwise_and': (2, lambda a, b: land(tb(a), tb(b))), 'bitwise_or': (2, lambda a, b: lor(tb(a), tb(b))),
    'arctan2': (2, lambda a, b: app('arctan2', tobool01(a), tobool01(b))), 'atan2': (2, lambda a, b: app('arctan2', tobool01(a), tobool01(b))),
    'hypot': (2, lambda a, b: app('sqrt', add(mul(a, a), mul(b, b)))), 'fmod': (2, lambda a, b: app('fmod', a, b)),
    'copysign': (2, lambda a, b: app('copysign', a, b)),
})


def tb(a):
    return a if isbool(a) else lnot(eq0(a))


def ufunc(I, name, u, args, kw, node):
    n, fn = u
    out = kw.get('out')
    if len(args) > n:
        out = args[n]
        args = args[:n]
    if 'where' in kw:
        raise Unsupported('ufunc where=', node)
    r = elementwise(I, fn, list(args), node)
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        if out is None:
            return r
        setitem(I, out, ell(), r, node)
        return out
    return r


def scalar_method(I, s, meth, args, kw, node):
    if meth in ('item', 'copy', 'squeeze', 'conjugate'):
        return s
    if meth == 'astype':
        return s
    if meth in ('any', 'all'):
        return tb(s)
    if meth in ('min', 'max', 'sum', 'mean'):
        return s
    if meth == 'is_integer':
        return B(is_int(s))
    raise Unsupported('scalar method ' + meth, node)


def dtype_name(I, d, default='f8'):
    if d is None:
        return default
    if isinstance(d, str):
        return norm_dtype(d)
    if isinstance(d, Builtin):
        n = d.name
        if n.startswith('dtype:'):
            return n[6:]
        if n in ('float', 'numpy.float64', 'numpy.double', 'numpy.float_', 'numpy.longdouble'):
            return 'f8'
        if n in ('int', 'numpy.int64', 'numpy.int_', 'numpy.intp', 'numpy.int32', 'numpy.uint', 'numpy.uint8', 'numpy.int8', 'numpy.int16'):
            return 'int'
        if n in ('bool', 'numpy.bool_', 'numpy.bool'):
            return 'bool'
        if n == 'numpy.float32' or n == 'numpy.single':
            return 'f4'
        if n == 'object':
            return 'object'
    if isinstance(d, SStr):
        return repr(d)
    return '?'


def norm_dtype(s):
    m = {'float64': 'f8', 'float': 'f8', 'd': 'f8', '<f8': 'f8', '=f8': 'f8', '|f8': 'f8', 'double': 'f8', 'float32': 'f4', '<f4': 'f4', '=f4': 'f4',
         'single': 'f4', 'f': 'f4', 'int': 'int', 'i8': 'int', 'i4': 'int', 'int64': 'int', 'int32': 'int', 'i': 'int', 'bool': 'bool', '?': 'bool', '>d': '>f8', '<d': 'f8', '>f': '>f4'}
    return m.get(s, s)


def cast(I, a, dt, copy=True):
    """array converted to dtype dt"""
    if dt == a.dtype and not copy:
        return a
    snap = I.heap[a.oid]
    if dt == 'bool':
        f = lambda ix: tb(rd(snap, a.at(ix)))
    elif dt == 'int' and a.dtype != 'int':
        def f(ix):
            e = tobool01(rd(snap, a.at(ix)))
            return e if is_int(e) else app('int', e)
    elif dt in ('f4', '>f4') and a.dtype in ('f8', '>f8'):
        f = lambda ix: app('f4', tobool01(rd(snap, a.at(ix))))
    else:
        f = lambda ix: tobool01(rd(snap, a.at(ix)))
    r = I.lam_arr(a.shape, f, dt)
    r.dtype = dt
    return r


# ---- creation
def _create(val, I, args, kw, node):
    sh = shape_arg(I, arg(args, kw, 0, 'shape'), node)
    dt = dtype_name(I, arg(args, kw, 1, 'dtype'))
    for n in sh:
        if decide(le0(neg(n))) is False:
            I.do_raise('ValueError', ('negative dimensions',), node, implicit=True)
    v = val
    if dt == 'bool':
        v = B(bool(constval(val)))
    r = I.new_arr(sh, Const(v), dt)
    o = order_of(arg(args, kw, 2, 'order'))
    if isinstance(o, str):
        I.layout[r.oid] = o
    return r


reg('numpy.zeros')(lambda I, a, k, n: _create(ZERO, I, a, k, n))
reg('numpy.ones')(lambda I, a, k, n: _create(ONE, I, a, k, n))


@reg('numpy.empty', 'numpy.ndarray')
def np_empty(I, args, kw, node):
    sh = shape_arg(I, arg(args, kw, 0, 'shape'), node)
    r = I.new_arr(sh, Inp('!uninit%d' % next(_oc)), dtype_name(I, arg(args, kw, 1, 'dtype')))
    o = order_of(kw.get('order'))
    if isinstance(o, str):
        I.layout[r.oid] = o
    return r


@reg('numpy.full')
def np_full(I, args, kw, node):
    sh = shape_arg(I, arg(args, kw, 0, 'shape'), node)
    v = arg(args, kw, 1, 'fill_value')
    s = scal(I, v)
    if s is None:
        r = I.new_arr(sh, Const(ZERO))
        setitem(I, r, ell(), v, node)
        return r
    r = I.new_arr(sh, Const(s), dtype_name(I, arg(args, kw, 2, 'dtype'), 'bool' if isbool(s) else 'f8'))
    o = order_of(kw.get('order'))
    if isinstance(o, str):
        I.layout[r.oid] = o
    return r


def _like(val):
    def f(I, args, kw, node):
        a = toarr(I, args[0])
        dt = dtype_name(I, kw.get('dtype'), a.dtype)
        v = val if val is not None else nscal(I, arg(args, kw, 1, 'fill_value'))
        return I.new_arr(a.shape, Const(v), dt)
    return f


reg('numpy.zeros_like')(_like(ZERO))
reg('numpy.ones_like')(_like(ONE))
reg('numpy.full_like')(_like(None))


@reg('numpy.empty_like')
def np_empty_like(I, args, kw, node):
    a = toarr(I, args[0])
    return I.new_arr(a.shape, Inp('!uninit%d' % next(_oc)), a.dtype)


@reg('numpy.copy')
def np_copy(I, args, kw, node):
    if isinstance(args[0], Choice):
        return I.distribute([args[0]], lambda x: np_copy(I, [x], kw, node))
    a = toarr(I, args[0], node)
    return arr_copy(I, a)


def arr_copy(I, a):
    snap = I.heap[a.oid]
    if I.whole(a) and a.ndim:
        r = I.new_arr(a.shape, snap, a.dtype)
        return r
    r = I.lam_arr(a.shape, lambda ix: rd(snap, a.at(ix)), a.dtype)
    r.dtype = a.dtype
    return r


@reg('numpy.array')
def np_array(I, args, kw, node):
    v = args[0]
    if isinstance(v, Choice):
        return I.distribute([v], lambda x: np_array(I, [x] + args[1:], kw, node))
    if v is None:
        return ObjV('array0_none', {'isarray': True})
    if isinstance(v, ObjV) and v.kind == 'userlist':
        return v.attrs['array'](I)
    if is_str(v):
        return ObjV('opaque', {})
    a = toarr(I, v, node)
    dt = dtype_name(I, arg(args, kw, 1, 'dtype'), None)
    if dt and dt != a.dtype:
        r = cast(I, a, dt)
    else:
        r = arr_copy(I, a)
    nd = kw.get('ndmin')
    if nd is not None and const_int(nd) is not None:
        while r.ndim < const_int(nd):
            r = basic_view(I, r, (None,), node)
    return r


@reg('numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.require')
def np_asarray(I, args, kw, node):
    v = args[0]
    if isinstance(v, Choice):
        return I.distribute([v], lambda x: np_asarray(I, [x] + args[1:], kw, node))
    if v is None:
        return ObjV('array0_none', {'isarray': True})
    if isinstance(v, ObjV) and v.kind == 'userlist':
        return v.attrs['array'](I)
    a = toarr(I, v, node)
    dt = dtype_name(I, arg(args, kw, 1, 'dtype'), None)
    if dt and dt != a.dtype:
        return cast(I, a, dt)
    return a


reg('numpy.atleast_2d')(lambda I, a, k, n: (lambda x: x if x.ndim >= 2 else basic_view(I, x, (None,) * (2 - x.ndim), n))(toarr(I, a[0])))


@reg('numpy.arange')
def np_arange(I, args, kw, node):
    xs = [nscal(I, a, node) for a in args]
    if len(xs) == 1:
        xs = [ZERO, xs[0]]
    step = xs[2] if len(xs) > 2 else nscal(I, kw.get('step', ONE))
    return toarr(I, RangeV(xs[0], xs[1], step))


@reg('numpy.linspace')
def np_linspace(I, args, kw, node):
    a, b = nscal(I, args[0]), nscal(I, args[1])
    n = nscal(I, arg(args, kw, 2, 'num', num(50)))
    ep = arg(args, kw, 3, 'endpoint', TRUE)
    d = sub(n, ONE) if I.decide(I.truth(ep)) else n
    return I.lam_arr((n,), lambda ix: add(a, div(mul(sub(b, a), ix[0]), d)))


@reg('numpy.ix_')
def np_ix(I, args, kw, node):
    arrs = [toarr(I, a) for a in args]
    out = []
    for k, a in enumerate(arrs):
        key = tuple(SliceV(None, None, None) if j == k else None for j in range(len(arrs)))
        out.append(basic_view(I, a, key, node))
    return tuple(out)


reg('numpy.ndindex')(lambda I, a, k, n: IterV('ndindex', shape_arg(I, a[0], n) if len(a) == 1 else tuple(nscal(I, x) for x in a)))
reg('numpy.ndenumerate')(lambda I, a, k, n: IterV('ndenumerate', (toarr(I, a[0]),)))


@reg('numpy.nditer')
def np_nditer(I, args, kw, node):
    op = args[0]
    ops = list(op) if isinstance(op, tuple) else (seq_items(I, op) if isinstance(op, ListRef) else [op])
    arrs = []
    for x in ops:
        if x is None:
            raise Unsupported('nditer allocation', node)
        arrs.append(I.distribute([x], lambda y: toarr(I, y)) if isinstance(x, Choice) else toarr(I, x, node))
    fl = arg(args, kw, 1, 'flags', ())
    flags = set(x for x in seq_items(I, fl) if isinstance(x, str)) if fl != () else set()
    if flags - {'multi_index', 'refs_ok', 'zerosize_ok', 'buffered'} and 'external_loop' in flags:
        raise Unsupported('nditer external_loop', node)
    shape = broadcast(I, [a.shape for a in arrs], node)
    aa = []
    for a in arrs:
        if a.ndim != len(shape) or any(constval(x) == 1 and constval(y) != 1 for x, y in zip(a.shape, shape)):
            raise Unsupported('nditer broadcast', node)
        aa.append(a)
    return ObjV('nditer', {'arrs': tuple(aa), 'shape': shape, 'multi': 'multi_index' in flags, 'cur': None, 'adv': False})


def m_nditer(I, o, meth, args, kw, node):
    if meth == 'iternext':
        o.attrs['adv'] = True
        return TRUE
    if meth in ('close', 'reset', '__exit__'):
        return None
    raise Unsupported('nditer.' + meth, node)


# ---- shape manipulation
def axis_of(I, ax, nd):
    c = const_int(ax)
    if c is None:
        raise Unsupported('symbolic axis')
    return c + nd if c < 0 else c


def join_items(I, v, prep, ax, node):
    """the arrays of a sequence to be joined; a symbolic run of them becomes one array, already joined along ax"""
    out = []
    for x in (list(v) if isinstance(v, tuple) else seq_items(I, v)):
        if not isinstance(x, SeqSeg):
            out.append(prep(toarr(I, x, node)))
            continue
        probe = stack_items(I, (x,), node)
        n, nd = probe.shape[0], probe.ndim - 1
        # the axes `prep` adds to an item
        full = prep(I.lam_arr(probe.shape[1:], lambda ix: ZERO, 'f8') if nd else toarr(I, ZERO, node))
        a = axis_of(I, ax(full), full.ndim)
        where = 'same' if full.ndim == nd else 'col' if full.ndim == 2 and nd == 1 and a == 1 else 'row' if full.ndim == nd + 1 and a == 0 else None if nd else 'one'
        if where is None:
            raise Unsupported('joining a run of arrays', node)

        def body(ix, a=a, probe=probe, where=where, p=full.shape[a]):
            if where == 'one':
                return I.elem(probe, (ix[a],))
            if where == 'row':
                return I.elem(probe, tuple(ix))
            if where == 'col':
                return I.elem(probe, (ix[1], ix[0]))
            if p is ONE:
                k, r = ix[a], ZERO
            else:
                k = fdiv(ix[a], p)
                r = sub(ix[a], mul(k, p))
            return I.elem(probe, (k,) + tuple(r if d == a else i for d, i in enumerate(ix)))
        sh = tuple(mul(n, s) if d == a else s for d, s in enumerate(full.shape))
        out.append(I.lam_arr(sh, body, probe.dtype))
    return out


@reg('numpy.concatenate')
def np_concat(I, args, kw, node):
    ax = arg(args, kw, 1, 'axis', ZERO)
    items = join_items(I, args[0], lambda x: x, lambda x: ax, node)
    return concat(I, items, axis_of(I, ax, items[0].ndim), node)


def concat(I, items, ax, node=None):
    nd = items[0].ndim
    if any(a.ndim != nd for a in items) or ax >= nd:
        I.do_raise('ValueError', ('concatenate dims',), node, implicit=True)
    for a in items[1:]:
        for d in range(nd):
            if d != ax:
                e = dim_eq(a.shape[d], items[0].shape[d])
                if e is False:
                    I.do_raise('ValueError', ('all the input array dimensions except for the concatenation axis must match exactly',), node, implicit=True)
                if e is None:
                    I.notes.append(('assume-shape', str(a.shape[d]), str(items[0].shape[d]), I.site(node)))
    offs = [ZERO]
    for a in items:
        offs.append(add(offs[-1], a.shape[ax]))
    shape = tuple(offs[-1] if d == ax else items[0].shape[d] for d in range(nd))
    snaps = [I.heap[a.oid] for a in items]

    def body(ix):
        def part(k):
            a = items[k]
            j = tuple(sub(x, offs[k]) if d == ax else x for d, x in enumerate(ix))
            e = rd(snaps[k], a.at(j))
            if k == len(items) - 1:
                return e
            return ite(lt(ix[ax], offs[k + 1]), e, part(k + 1))
        return part(0)
    return I.lam_arr(shape, body, items[0].dtype)


@reg('numpy.vstack', 'numpy.row_stack')
def np_vstack(I, args, kw, node):
    items = join_items(I, args[0], lambda x: x if x.ndim > 1 else basic_view(I, x if x.ndim else basic_view(I, x, (None,), node), (None,), node), lambda x: ZERO, node)
    return concat(I, items, 0, node)


@reg('numpy.hstack')
def np_hstack(I, args, kw, node):
    items = join_items(I, args[0], lambda x: x if x.ndim else basic_view(I, x, (None,), node), lambda x: ZERO if x.ndim == 1 else ONE, node)
    return concat(I, items, 0 if items[0].ndim == 1 else 1, node)


@reg('numpy.column_stack')
def np_colstack(I, args, kw, node):
    items = join_items(I, args[0], lambda x: x if x.ndim > 1 else basic_view(I, x, (SliceV(None, None, None), None), node), lambda x: ONE, node)
    return concat(I, items, 1, node)


@reg('numpy.append')
def np_append(I, args, kw, node):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    ax = arg(args, kw, 2, 'axis')
    if ax is None:
        a, b = np_ravel(I, [a], {}, node), np_ravel(I, [b], {}, node)
        return concat(I, [a, b], 0, node)
    return concat(I, [a, b], axis_of(I, ax, a.ndim), node)


@reg('numpy.stack')
def np_stack(I, args, kw, node):
    items = [toarr(I, x) for x in seq_items(I, args[0])]
    nd = items[0].ndim
    ax = axis_of(I, arg(args, kw, 1, 'axis', ZERO), nd + 1)
    key = tuple([SliceV(None, None, None)] * ax + [None])
    return concat(I, [basic_view(I, a, key, node) for a in items], ax, node)


def order_of(o):
    if o is None:
        return 'C'
    if isinstance(o, str):
        return {'c': 'C', 'f': 'F'}.get(o.lower(), o)
    if isinstance(o, Choice):
        return o
    raise Unsupported('symbolic order')


@reg('numpy.reshape')
def np_reshape(I, args, kw, node):
    a = toarr(I, args[0])
    return reshape(I, a, arg(args, kw, 1, 'newshape', kw.get('shape')), order_of(arg(args, kw, 2, 'order')), node)


def prod(ts):
    return mul(*ts) if ts else ONE


def flat_index(ix, shape, order):
    r = ZERO
    if order == 'F':
        m = ONE
        for i, n in zip(ix, shape):
            r = add(r, mul(m, i))
            m = mul(m, n)
    else:
        for i, n in zip(ix, shape):
            r = add(mul(r, n), i)
    return r


def unflat_index(k, shape, order):
    out = []
    dims = list(shape) if order == 'F' else list(shape)[::-1]
    for j, n in enumerate(dims):
        if j == len(dims) - 1:
            out.append(k)
        elif constval(n) in (0, 1):
            out.append(ZERO)
        else:
            q = fdiv(k, n)
            out.append(sub(k, mul(n, q)))
            k = q
    return tuple(out) if order == 'F' else tuple(out[::-1])


def split_axis(old, new):
    """(axis, number of parts) when `new` is `old` with that one axis split"""
    m = len(new) - len(old) + 1
    if m < 2:
        return None
    for p in range(len(old)):
        if all(x is y for x, y in zip(old[:p], new[:p])) and all(x is y for x, y in zip(old[p + 1:], new[p + m:])):
            return p, m
    return None


def reshape(I, a, shp, order, node, flat=False):
    if isinstance(order, Choice):
        return I.distribute([order], lambda o: reshape(I, a, shp, o, node))
    sh = list(shape_arg(I, shp, node))
    tot = prod(a.shape)
    if order == 'A' or order == 'K':
        order = 'C'
    neg1 = [k for k, n in enumerate(sh) if constval(n) == -1]
    if neg1:
        others = prod([n for n in sh if constval(n) != -1])
        sh[neg1[0]] = fdiv(tot, others)
    e = dim_eq(prod(sh), tot)
    if e is False:
        I.do_raise('ValueError', ('cannot reshape',), node, implicit=True)
    if e is None:
        I.notes.append(('assume-shape', str(prod(sh)), str(tot), I.site(node)))
    sh = tuple(sh)
    if len(sh) == a.ndim and all(x is y for x, y in zip(sh, a.shape)):
        return a
    if a.ndim == 1 or [n for n in a.shape if constval(n) != 1] == [n for n in sh if constval(n) != 1]:
        vs = tuple(var('x') for _ in sh)
        ix = tuple(atom(v) for v in vs)
        c = cur().copy()
        for v, n in zip(vs, sh):
            c.bound(v, ZERO, sub(n, ONE))
        PR.CUR.append(c)
        try:
            if a.ndim == 1:
                src = (flat_index(ix, sh, order),)
            else:
                it = iter([i for i, n in zip(ix, sh) if constval(n) != 1])
                src = tuple(ZERO if constval(n) == 1 else next(it) for n in a.shape)
            maps = tuple(a.at(src))
        finally:
            PR.CUR.pop()
        return Arr(a.oid, sh, vs, maps, a.dtype)
    sp = split_axis(a.shape, sh) if order == 'C' and not I.whole(a) else None
    if sp is not None:
        # one axis split into several: always a view
        p, m = sp
        vs = tuple(var('x') for _ in sh)
        ix = tuple(atom(v) for v in vs)
        c = cur().copy()
        for v, n in zip(vs, sh):
            c.bound(v, ZERO, sub(n, ONE))
        PR.CUR.append(c)
        try:
            maps = tuple(a.at(ix[:p] + (flat_index(ix[p:p + m], sh[p:p + m], order),) + ix[p + m:]))
        finally:
            PR.CUR.pop()
        return Arr(a.oid, sh, vs, maps, a.dtype)
    snap = I.heap[a.oid]
    r = I.lam_arr(sh, lambda ix: rd(snap, a.at(unflat_index(flat_index(ix, sh, order), a.shape, order))), a.dtype)
    r.dtype = a.dtype
    lay = I.layout.get(a.oid)
    n2 = [n for n in a.shape if constval(n) != 1]
    maps = (lambda ix: unflat_index(flat_index(ix, sh, order), a.shape, order), lambda ix: unflat_index(flat_index(ix, a.shape, order), sh, order))
    if flat and I.whole(a) or I.whole(a) and lay is not None and lay == order:
        link_views(I, a, r, maps)
        I.layout[r.oid] = order
    elif I.whole(a) and lay is not None and len(n2) > 1 and all(constval(n) is not None for n in n2):
        I.layout[r.oid] = order         # numpy has to copy
    elif lay is None or not I.whole(a):
        I.maybe_view.add(r.oid)
    if a.oid in I.owner:
        # when numpy can keep the result a view (contiguous input), writes to it reach the caller's array
        I.owner[r.oid] = I.owner[a.oid]
    return r


@reg('numpy.ravel')
def np_ravel(I, args, kw, node):
    a = toarr(I, args[0])
    return reshape(I, a, (prod(a.shape),), order_of(arg(args, kw, 1, 'order')), node)


@reg('numpy.transpose')
def np_transpose(I, args, kw, node):
    if args[0] is None or isinstance(args[0], ObjV) and args[0].kind == 'array0_none':
        return ObjV('array0_none', {'isarray': True})
    a = toarr(I, args[0])
    axes = arg(args, kw, 1, 'axes')
    if axes is None:
        return arr_attr(I, a, 'T', node)
    p = [axis_of(I, x, a.ndim) for x in seq_items(I, axes)]
    return Arr(a.oid, [a.shape[q] for q in p], [a.vars[q] for q in p], a.maps, a.dtype)


@reg('numpy.swapaxes')
def np_swapaxes(I, args, kw, node):
    a = toarr(I, args[0])
    p = list(range(a.ndim))
    x, y = axis_of(I, args[1], a.ndim), axis_of(I, args[2], a.ndim)
    p[x], p[y] = p[y], p[x]
    return Arr(a.oid, [a.shape[q] for q in p], [a.vars[q] for q in p], a.maps, a.dtype)


@reg('numpy.moveaxis')
def np_moveaxis(I, args, kw, node):
    a = toarr(I, args[0])
    s, d = axis_of(I, args[1], a.ndim), axis_of(I, args[2], a.ndim)
    p = [q for q in range(a.ndim) if q != s]
    p.insert(d, s)
    return Arr(a.oid, [a.shape[q] for q in p], [a.vars[q] for q in p], a.maps, a.dtype)


def flip(I, a, axes):
    key = tuple(SliceV(None, None, num(-1)) if d in axes else SliceV(None, None, None) for d in range(a.ndim))
    return basic_view(I, a, key, None)


@reg('numpy.flip')
def np_flip(I, args, kw, node):
    a = toarr(I, args[0])
    ax = arg(args, kw, 1, 'axis')
    axes = range(a.ndim) if ax is None else ([axis_of(I, x, a.ndim) for x in seq_items(I, ax)] if isinstance(ax, tuple) else [axis_of(I, ax, a.ndim)])
    return flip(I, a, set(axes))


reg('numpy.flipud')(lambda I, a, k, n: flip(I, toarr(I, a[0]), {0}))
reg('numpy.fliplr')(lambda I, a, k, n: flip(I, toarr(I, a[0]), {1}))


@reg('numpy.rot90')
def np_rot90(I, args, kw, node):
    if isinstance(args[0], Choice):
        return I.distribute([args[0]], lambda x: np_rot90(I, [x] + args[1:], kw, node))
    a = toarr(I, args[0])
    k = const_int(arg(args, kw, 1, 'k', ONE))
    axes = arg(args, kw, 2, 'axes')
    if k is None:
        raise Unsupported('symbolic rot90', node)
    if axes is not None:
        p = [axis_of(I, x, a.ndim) for x in seq_items(I, axes)]
        if p == [1, 0]:
            k = -k
        elif p != [0, 1]:
            raise Unsupported('rot90 axes', node)
    k %= 4
    if k == 0:
        return a
    if k == 2:
        return flip(I, a, {0, 1})
    t = arr_attr(I, a, 'T', node)
    if k == 1:
        return flip(I, t, {0})
    return flip(I, t, {1})


@reg('numpy.squeeze')
def np_squeeze(I, args, kw, node):
    a = toarr(I, args[0])
    key = tuple(ZERO if constval(n) == 1 else SliceV(None, None, None) for n in a.shape)
    return basic_view(I, a, key, node)


@reg('numpy.expand_dims')
def np_expand(I, args, kw, node):
    a = toarr(I, args[0])
    ax = axis_of(I, arg(args, kw, 1, 'axis'), a.ndim + 1)
    return basic_view(I, a, tuple([SliceV(None, None, None)] * ax + [None]), node)


@reg('numpy.broadcast_to')
def np_broadcast_to(I, args, kw, node):
    a = toarr(I, args[0])
    sh = shape_arg(I, args[1])
    snap = I.heap[a.oid]
    return I.lam_arr(sh, lambda ix: rd(snap, a.at(bidx(a.shape, sh, ix))), a.dtype)


@reg('numpy.meshgrid')
def np_meshgrid(I, args, kw, node):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    ij = kw.get('indexing', 'xy') == 'ij'
    sh = (a.shape[0], b.shape[0]) if ij else (b.shape[0], a.shape[0])
    sa, sb = I.heap[a.oid], I.heap[b.oid]
    x = I.lam_arr(sh, lambda ix: rd(sa, a.at((ix[0 if ij else 1],))), a.dtype)
    y = I.lam_arr(sh, lambda ix: rd(sb, b.at((ix[1 if ij else 0],))), b.dtype)
    return I.mklist((x, y))


@reg('numpy.tile')
def np_tile(I, args, kw, node):
    a = toarr(I, args[0])
    reps = shape_arg(I, args[1])
    if a.ndim == 1 and len(reps) == 2:
        snap = I.heap[a.oid]
        n = a.shape[0]
        if constval(reps[1]) == 1:
            return I.lam_arr((reps[0], n), lambda ix: rd(snap, a.at((ix[1],))), a.dtype)
    if len(reps) == 1 and a.ndim == 0:
        s = I.scalar(a)
        return I.new_arr(reps, Const(s), a.dtype)
    raise Unsupported('tile', node)


@reg('numpy.repeat')
def np_repeat(I, args, kw, node):
    s = scal(I, args[0])
    n = nscal(I, args[1])
    if s is not None:
        return I.new_arr((n,), Const(s), 'f8')
    raise Unsupported('repeat', node)


@reg('numpy.pad')
def np_pad(I, args, kw, node):
    a = toarr(I, args[0])
    mode = arg(args, kw, 2, 'mode', 'constant')
    if mode != 'constant' or kw.get('constant_values') is not None and constval(nscal(I, kw['constant_values'])) != 0:
        raise Unsupported('pad mode', node)
    pw = args[1]
    s = scal(I, pw)
    if s is not None:
        pads = [(s, s)] * a.ndim
    else:
        its = [x for x in seq_items(I, pw)]
        if its and isterm(its[0]):
            pads = [(nscal(I, its[0]), nscal(I, its[1]))] * a.ndim
        else:
            pads = [tuple(nscal(I, y) for y in seq_items(I, x)) for x in its]
            if len(pads) == 1:
                pads = pads * a.ndim
    sh = tuple(add(n, p[0], p[1]) for n, p in zip(a.shape, pads))
    r = I.new_arr(sh, Const(ZERO), a.dtype)
    setitem(I, r, tuple(SliceV(p[0], add(p[0], n), None) for n, p in zip(a.shape, pads)), a, node)
    return r


reg('numpy.size')(lambda I, a, k, n: (lambda x, ax: prod(x.shape) if ax is None else x.shape[axis_of(I, ax, x.ndim)])(toarr(I, a[0]), arg(a, k, 1, 'axis')))
reg('numpy.shape')(lambda I, a, k, n: tuple(toarr(I, a[0]).shape))
reg('numpy.ndim')(lambda I, a, k, n: num(toarr(I, a[0]).ndim))


@reg('numpy.iterable')
def np_iterable(I, args, kw, node):
    v = args[0]
    return B(isinstance(v, (tuple, ListRef, DictRef, str, SStr, RangeV, IterV)) or isinstance(v, Arr) and v.ndim > 0 or isinstance(v, ObjV) and v.kind in ('set', 'opaque_list'))


# ---- reductions
def reduce_dims(I, a, axes, kind):
    """fold elements over axes; returns Arr or term"""
    snap = I.heap[a.oid]
    keep = [d for d in range(a.ndim) if d not in axes]

    def at(ix_keep):
        full = [None] * a.ndim
        for d, i in zip(keep, ix_keep):
            full[d] = i
        return fold(I, [(d, a.shape[d]) for d in axes], full, lambda f: rd(snap, a.at(tuple(f))), kind)
    if not keep:
        return at(())
    return I.lam_arr(tuple(a.shape[d] for d in keep), at, 'bool' if kind in ('any', 'all') else 'f8')


def fold(I, dims, full, read, kind):
    if not dims:
        e = read(full)
        if kind in ('any', 'all'):
            return tb(e)
        return tobool01(e)
    (d, n), rest = dims[0], dims[1:]
    cn = const_int(n)
    if cn is not None and cn <= 12:
        out = []
        for k in range(cn):
            f = list(full)
            f[d] = num(k)
            out.append(fold(I, rest, f, read, kind))
        if kind == 'any':
            return lor(*out)
        if kind == 'all':
            return land(*out)
        if kind == 'sum':
            return add(*out) if out else ZERO
        if kind == 'prod':
            return mul(*out) if out else ONE
        return app(kind, *out)
    v = var('r')
    c = cur().copy()
    c.bound(v, ZERO, sub(n, ONE))
    PR.CUR.append(c)
    I.loopvars.append(v)
    try:
        f = list(full)
        f[d] = atom(v)
        body = fold(I, rest, f, read, kind)
    finally:
        I.loopvars.pop()
        PR.CUR.pop()
    if kind == 'any':
        return exists(v, n, body)
    if kind == 'all':
        return lnot(exists(v, n, lnot(body)))
    if kind == 'sum':
        return ZERO if not body.args else atom(mk('app', 'sum', v, n, body))
    if kind == 'prod':
        return atom(mk('app', 'prod', v, n, body))
    return atom(mk('app', 'r' + kind, INF if kind == 'min' else neg(INF), v, n, body))


def np_reduce(kind):
    def f(I, args, kw, node):
        v = args[0]
        if isinstance(v, Choice):
            return I.distribute([v], lambda x: f(I, [x] + args[1:], kw, node))
        ax = arg(args, kw, 1, 'axis')
        if isinstance(v, ObjV) and v.kind == 'masked':
            return masked_reduce(I, v, kind, node)
        s = scal(I, v)
        if s is not None:
            return tb(s) if kind in ('any', 'all') else tobool01(s)
        a = toarr(I, v, node)
        axes = list(range(a.ndim)) if ax is None else ([axis_of(I, x, a.ndim) for x in seq_items(I, ax)] if isinstance(ax, tuple) else [axis_of(I, ax, a.ndim)])
        if kind == 'mean':
            r = reduce_dims(I, a, axes, 'sum')
            return binop(I, 'Div', r, prod([a.shape[d] for d in axes]), node)
        r = reduce_dims(I, a, axes, kind)
        if kw.get('keepdims') is TRUE:
            if isterm(r):
                return I.new_arr((ONE,) * a.ndim, Const(r))
            key = tuple(None if d in axes else SliceV(None, None, None) for d in range(a.ndim))
            return basic_view(I, r, key, node)
        return r
    return f


def masked_reduce(I, v, kind, node):
    a, m = v.attrs['arr'], v.attrs['mask']
    sa, sm = I.heap[a.oid], I.heap[m.oid]
    dims = [(d, a.shape[d]) for d in range(a.ndim)]

    def go(k, rdr):
        return fold(I, dims, [None] * a.ndim, rdr, k)
    mask = lambda f: tb(rd(sm, m.at(tuple(f))))
    el = lambda f: rd(sa, a.at(tuple(f)))
    if kind == 'sum':
        return go('sum', lambda f: ite(mask(f), tobool01(el(f)), ZERO))
    if kind == 'mean':
        s = go('sum', lambda f: ite(mask(f), tobool01(el(f)), ZERO))
        c = go('sum', lambda f: tobool01(mask(f)))
        return div(s, c)
    if kind == 'count':
        return go('sum', lambda f: tobool01(mask(f)))
    if kind == 'any':
        return go('any', lambda f: land(mask(f), tb(el(f))))
    if kind == 'all':
        return go('all', lambda f: lor(lnot(mask(f)), tb(el(f))))
    if kind == 'min':
        return go('min', lambda f: ite(mask(f), tobool01(el(f)), INF))
    if kind == 'max':
        return go('max', lambda f: ite(mask(f), tobool01(el(f)), neg(INF)))
    raise Unsupported('masked reduction ' + kind, node)


def np_reduce_count(I, o):
    return masked_reduce(I, o, 'count', None)


reg('numpy.any', 'numpy.sometrue')(np_reduce('any'))
reg('numpy.all', 'numpy.alltrue')(np_reduce('all'))
reg('numpy.sum', 'math.fsum')(np_reduce('sum'))


@reg('numpy.nansum')
def np_nansum(I, args, kw, node):
    return FN['numpy.sum'](I, [elementwise(I, lambda x: ite(isnan(x), ZERO, tobool01(x)), args[:1], node)] + list(args[1:]), kw, node)


reg('numpy.mean', 'numpy.average', 'numpy.nanmean')(np_reduce('mean'))
reg('numpy.amin', 'numpy.min', 'numpy.nanmin')(np_reduce('min'))
reg('numpy.amax', 'numpy.max', 'numpy.nanmax')(np_reduce('max'))
reg('numpy.prod', 'math.prod', 'numpy.product')(np_reduce('prod'))


@reg('numpy.count_nonzero')
def np_count_nonzero(I, args, kw, node):
    a = toarr(I, args[0])
    b = elementwise(I, lambda x: tobool01(tb(x)), [a], node)
    return np_reduce('sum')(I, [b] + args[1:], kw, node)


@reg('numpy.argmin', 'numpy.nanargmin')
def np_argmin(I, args, kw, node):
    return argred(I, toarr(I, args[0]), 'min', node, arg(args, kw, 1, 'axis'))


@reg('numpy.argmax')
def np_argmax(I, args, kw, node):
    return argred(I, toarr(I, args[0]), 'max', node, arg(args, kw, 1, 'axis'))


def argred(I, a, kind, node, axis=None):
    if axis is not None and a.ndim != 1:
        ax = axis_of(I, axis, a.ndim)
        full = lambda ix, k: tuple(ix[:ax]) + (k,) + tuple(ix[ax:])
        sn = I.heap[a.oid]

        def one(ix):
            w = var('m')
            I.loopvars.append(w)
            c = cur().copy()
            c.bound(w, ZERO, sub(a.shape[ax], ONE))
            PR.CUR.append(c)
            try:
                D = tobool01(rd(sn, a.at(full(ix, atom(w)))))
            finally:
                PR.CUR.pop()
                I.loopvars.pop()
            return atom(mk('app', 'rarg' + kind, ZERO, INF if kind == 'min' else neg(INF), w, a.shape[ax], D, atom(w)))
        return I.lam_arr(tuple(n for d, n in enumerate(a.shape) if d != ax), one, 'int')
    snap = I.heap[a.oid]
    inf = INF if kind == 'min' else neg(INF)
    vs = [var('m') for _ in a.shape]
    I.loopvars.extend(vs)
    c = cur().copy()
    for v, n in zip(vs, a.shape):
        c.bound(v, ZERO, sub(n, ONE))
    PR.CUR.append(c)
    try:
        D = tobool01(rd(snap, a.at(tuple(atom(v) for v in vs))))
    finally:
        PR.CUR.pop()
        del I.loopvars[-len(vs):]
    key, X = D, flat_index(tuple(atom(v) for v in vs), a.shape, 'C')
    for v, n in reversed(list(zip(vs, a.shape))):
        X = atom(mk('app', 'rarg' + kind, ZERO, inf, v, n, key, X))
        key = atom(mk('app', 'r' + kind, inf, v, n, key))
    return X


@reg('numpy.unravel_index')
def np_unravel(I, args, kw, node):
    k = nscal(I, args[0], node)
    sh = shape_arg(I, args[1])
    out = []
    for n in sh[::-1][:-1]:
        q = atom(mk('app', 'fdiv', k, n)) if constval(k) is None else fdiv(k, n)
        out.append(sub(k, mul(n, q)))
        k = q
    out.append(k)
    return tuple(out[::-1])


@reg('numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere')
def np_nonzero(I, args, kw, node):
    a = args[0]
    a = toarr(I, a)
    return ObjV('nonzero', {'arr': a, 'mask': elementwise(I, lambda x: tb(x), [a], node, 'bool') if a.ndim else a})


@reg('numpy.where')
def np_where(I, args, kw, node):
    if len(args) == 1:
        return np_nonzero(I, args, kw, node)
    return elementwise(I, lambda c, a, b: ite(tb(c), tobool01(a), tobool01(b)), list(args), node)


@reg('numpy.clip')
def np_clip(I, args, kw, node):
    return elementwise(I, lambda x, a, b: app('min', app('max', x, a), b), args[:3], node)


@reg('numpy.isclose')
def np_isclose(I, args, kw, node):
    rt = nscal(I, arg(args, kw, 2, 'rtol', num(1e-5)))
    at = nscal(I, arg(args, kw, 3, 'atol', num(1e-8)))
    return elementwise(I, lambda a, b: le(app('abs', sub(a, b)), add(at, mul(rt, app('abs', b)))), args[:2], node, 'bool')


@reg('numpy.allclose')
def np_allclose(I, args, kw, node):
    return np_reduce('all')(I, [np_isclose(I, args, kw, node)], {}, node)


@reg('numpy.array_equal')
def np_array_equal(I, args, kw, node):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    if a.ndim != b.ndim:
        return FALSE
    c = land(*[eq(x, y) for x, y in zip(a.shape, b.shape)])
    if decide(c) is False:
        return FALSE
    return land(c, np_reduce('all')(I, [elementwise(I, CMP['Eq'], [a, b], node, 'bool')], {}, node))


# ---- linear algebra on short vectors
@reg('numpy.dot', 'numpy.inner', 'numpy.vdot', 'numpy.matmul')
def np_dot(I, args, kw, node):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    if a.ndim == 1 and b.ndim == 1:
        return np_reduce('sum')(I, [elementwise(I, OPS['Mult'], [a, b], node)], {}, node)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(I, OPS['Mult'], [a, b], node)
    return matmul(I, a, b, node)


@reg('numpy.cross')
def np_cross(I, args, kw, node):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    sh = broadcast(I, [a.shape, b.shape], node)
    if const_int(a.shape[-1]) != 3 or const_int(b.shape[-1]) != 3:
        raise Unsupported('cross of non 3-vectors', node)
    sa, sb = I.heap[a.oid], I.heap[b.oid]

    def comp(ix, arr, s, k):
        return tobool01(rd(s, arr.at(bidx(arr.shape, sh, tuple(ix) + (num(k),)))))
    parts = []
    for k in range(3):
        p, q = (k + 1) % 3, (k + 2) % 3
        f = lambda ix, p=p, q=q: sub(mul(comp(ix, a, sa, p), comp(ix, b, sb, q)), mul(comp(ix, a, sa, q), comp(ix, b, sb, p)))
        if len(sh) == 1:
            parts.append(f(()))
        else:
            parts.append(I.lam_arr(sh[:-1], f))
    if len(sh) == 1:
        return stack_items(I, tuple(parts), node)
    key = tuple([SliceV(None, None, None)] * (len(sh) - 1) + [None])
    return concat(I, [basic_view(I, p, key, node) for p in parts], len(sh) - 1, node)


@reg('numpy.linalg.norm')
def np_norm(I, args, kw, node):
    a = toarr(I, args[0])
    if arg(args, kw, 1, 'ord') is not None:
        raise Unsupported('norm ord', node)
    sq = elementwise(I, lambda x: mul(x, x), [a], node)
    k2 = {'axis': arg(args, kw, 2, 'axis')} if arg(args, kw, 2, 'axis') is not None else {}
    r = np_reduce('sum')(I, [sq], k2, node)
    return elementwise(I, lambda x: app('sqrt', x), [r], node)


@reg('numpy.einsum')
def np_einsum(I, args, kw, node):
    spec = args[0]
    if not isinstance(spec, str) or '->' not in spec:
        raise Unsupported('einsum', node)
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    arrs = [toarr(I, a) for a in args[1:]]
    if '...' in spec:
        nd = max(a.ndim - (len(s) - 3) for s, a in zip(ins, arrs))
        letters = 'ABCDEFG'[:nd]
        ins = [s.replace('...', letters[nd - (a.ndim - (len(s) - 3)):]) for s, a in zip(ins, arrs)]
        out = out.replace('...', letters)
    size = {}
    for s, a in zip(ins, arrs):
        for ch_, n in zip(s, a.shape):
            size[ch_] = n
    contracted = [c for c in size if c not in out]
    snaps = [I.heap[a.oid] for a in arrs]

    def body(ix):
        env = dict(zip(out, ix))

        def read(full):
            e2 = dict(env)
            e2.update(zip(contracted, full))
            return mul(*[tobool01(rd(sn, a.at(tuple(e2[c] for c in s)))) for s, a, sn in zip(ins, arrs, snaps)])
        return fold(I, [(k, size[c]) for k, c in enumerate(contracted)], [None] * len(contracted), read, 'sum')
    if not out:
        return body(())
    return I.lam_arr(tuple(size[c] for c in out), body)


@reg('numpy.diff')
def np_diff(I, args, kw, node):
    a = toarr(I, args[0])
    ax = axis_of(I, arg(args, kw, 2, 'axis', num(-1)), a.ndim)
    lo = tuple(SliceV(None, num(-1), None) if d == ax else SliceV(None, None, None) for d in range(a.ndim))
    hi = tuple(SliceV(ONE, None, None) if d == ax else SliceV(None, None, None) for d in range(a.ndim))
    return binop(I, 'Sub', basic_view(I, a, hi, node), basic_view(I, a, lo, node), node)


@reg('numpy.vectorize', 'numpy.frompyfunc')
def np_vectorize(I, args, kw, node):
    return ObjV('vectorized', {'fn': args[0]})


@reg('numpy.apply_along_axis')
def np_aaa(I, args, kw, node):
    raise Unsupported('apply_along_axis', node)


@reg('numpy.float64', 'numpy.int64', 'numpy.float32', 'numpy.int32', 'numpy.double', 'numpy.intp', 'numpy.float_', 'numpy.int_')
def np_scalar(I, args, kw, node):
    s = scal(I, args[0]) if args else ZERO
    if s is not None:
        return tobool01(s)
    return toarr(I, args[0])


@reg('numpy.dtype')
def np_dtype(I, args, kw, node):
    return Builtin('dtype:' + dtype_name(I, args[0]))


def dtype_newbyteorder(I, args, kw, node):
    dt = args[0].name[6:]
    o = str(arg(args, kw, 1, 'new_order', 'S'))[:1]
    if dt not in ('f8', '>f8', 'f4', '>f4'):
        raise Unsupported('newbyteorder of %s' % dt, node)
    base = dt.lstrip('>')
    if o in 'Ss':
        o = '<' if dt.startswith('>') else '>'
    return Builtin('dtype:' + ('>' + base if o in '>Bb' else dt if o in '|Ii' else base))


@reg('collections.defaultdict')
def c_defaultdict(I, args, kw, node):
    d = FN['dict'](I, list(args[1:]), kw, node)
    if args and args[0] is not None:
        I.factories[d.oid] = args[0]
    return d


@reg('numpy.putmask', 'numpy.place')
def np_putmask(I, args, kw, node):
    a, m, v = args
    if isinstance(a, Arr) and isinstance(m, Arr) and a.ndim == m.ndim and (isterm(v) or isinstance(v, Arr) and v.ndim == 0 or
            isinstance(v, Arr) and node_is(node, 'putmask') and v.ndim == a.ndim and all(dim_eq(x, y) is True for x, y in zip(v.shape, a.shape))):
        w = elementwise(I, lambda c, x, y: ite(tb(c), x, y), [m, v, a], node)
        setitem(I, a, ell(), w, node)
        return None
    return np_inplace(I, args, kw, node)


def node_is(node, name):
    f = getattr(node, 'func', None)
    return getattr(f, 'attr', getattr(f, 'id', None)) == name


@reg('numpy.fill_diagonal')
def np_fill_diagonal(I, args, kw, node):
    a, v = args[0], args[1]
    if isinstance(a, Arr) and a.ndim == 2 and (isterm(v) or isinstance(v, Arr) and v.ndim == 0) and len(args) == 2 and not kw:
        setitem(I, a, ell(), I.lam_arr(a.shape, lambda ix: ite(eq(ix[0], ix[1]), nscal(I, v), I.elem(a, ix)), a.dtype), node)
        return None
    return np_inplace(I, args, kw, node)


@reg('numpy.put')
def np_inplace(I, args, kw, node):
    if isinstance(args[0], Arr):
        I.on_write(args[0].oid, node)
    raise Unsupported('numpy in-place function', node)


@reg('numpy.copyto')
def np_copyto(I, args, kw, node):
    if 'where' in kw or len(args) > 3:
        w = kw.get('where', args[3] if len(args) > 3 else None)
        old = args[0]
        v = elementwise(I, lambda c, a, b: ite(tb(c), tobool01(a), tobool01(b)), [w, args[1], args[0]], node)
        setitem(I, args[0], ell(), v, node)
        return None
    setitem(I, args[0], ell(), args[1], node)


@reg('numpy.seterr', 'numpy.random.seed', 'numpy.set_printoptions', 'numpy.seterrcall', 'os.chdir', 'os.umask', 'os.putenv', 'locale.setlocale',
     'sys.setrecursionlimit', 'numpy.setbufsize', 'random.seed', 'signal.signal', 'os.unsetenv', 'sys.path.append', 'sys.path.insert',
     'socket.setdefaulttimeout', 'logging.basicConfig', 'logging.disable', 'gc.disable', 'np.seterr', 'sys.setswitchinterval', 'tempfile.tempdir',
     'pyproj.network.set_network_enabled', 'pyproj.datadir.set_data_dir', 'pyproj.datadir.append_data_dir', 'pyproj.set_use_global_context',
     'resource.setrlimit', 'faulthandler.enable', 'tracemalloc.start', 'time.tzset', 'gc.enable', 'gc.set_threshold', 'sys.setprofile', 'sys.settrace',
     'numpy.seterrobj', 'numpy.set_string_function', 'decimal.setcontext', 'threading.stack_size', 'os.nice', 'os.fchdir', 'os.setuid', 'os.setgid',
     'locale.resetlocale', 'numpy.random.set_state', 'random.setstate', 'logging.captureWarnings', 'sys.path.insert', 'numpy.geterrobj')
def global_state(I, args, kw, node):
    I.event('global_state', 'process-wide setting', node)
    return Unk('state')


@reg('warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings')
def warn_state(I, args, kw, node):
    if not getattr(I, 'catchdepth', 0):
        I.event('global_state', 'warnings filter', node)
    return None


reg('warnings.warn')(lambda I, a, k, n: I.event('stderr', 'warning', n) and None)
reg('warnings.catch_warnings')(lambda I, a, k, n: ObjV('catch_warnings'))
reg('numpy.errstate', 'numpy.printoptions')(lambda I, a, k, n: ObjV('errstate'))
reg('contextlib.suppress')(lambda I, a, k, n: ObjV('suppress', {'types': tuple(a)}))
reg('contextlib.nullcontext')(lambda I, a, k, n: ObjV('nullcontext', {'obj': a[0] if a else k.get('enter_result')}))
reg('contextlib.closing')(lambda I, a, k, n: ObjV('closing', {'obj': a[0]}))


# ---- array methods
def arr_method(I, a, m, args, kw, node):
    if m == 'copy':
        r = arr_copy(I, a)
        o = order_of(arg(args, kw, 0, 'order'))
        if isinstance(o, str):
            I.layout[r.oid] = o
        return r
    if m == 'astype':
        return cast(I, a, dtype_name(I, arg(args, kw, 0, 'dtype')))
    if m in ('min', 'max', 'sum', 'any', 'all', 'mean', 'prod'):
        return np_reduce(m)(I, [a] + args, kw, node)
    if m in ('argmin', 'argmax'):
        return argred(I, a, m[3:], node, arg(args, kw, 0, 'axis'))
    if m == 'nonzero':
        return np_nonzero(I, [a], {}, node)
    if m == 'reshape':
        if len(args) == 1:
            sh = args[0]
        else:
            sh = tuple(args)
        if 'shape' in kw:
            sh = kw['shape']
        if sh is None:
            raise Unsupported('reshape(None)', node)
        return reshape(I, a, sh, order_of(kw.get('order')), node)
    if m == 'ravel' or m == 'flatten':
        r = reshape(I, a, (prod(a.shape),), order_of(arg(args, kw, 0, 'order')), node)
        return arr_copy(I, r) if m == 'flatten' else r
    if m == 'transpose':
        if not args:
            return arr_attr(I, a, 'T', node)
        return np_transpose(I, [a, args[0] if isinstance(args[0], tuple) else tuple(args)], {}, node)
    if m == 'swapaxes':
        return np_swapaxes(I, [a] + args, kw, node)
    if m == 'squeeze':
        return np_squeeze(I, [a], {}, node)
    if m == 'fill':
        setitem(I, a, ell(), args[0], node)
        return None
    if m == 'item':
        s = I.scalar(a) if not args else None
        if s is None:
            if args:
                if len(args) == 1 and a.ndim > 1 and isterm(args[0]):
                    return arr_getitem(I, reshape(I, a, (prod(a.shape),), 'C', node), args[0], node)
                return arr_getitem(I, a, tuple(args) if len(args) > 1 else args[0], node)
            raise Unsupported('item', node)
        return s
    if m == 'dot':
        return np_dot(I, [a] + args, kw, node)
    if m == 'tolist':
        return I.mklist(seq_items(I, a))
    if m == 'clip':
        return np_clip(I, [a] + args, kw, node)
    if m == 'tofile':
        return arr_tofile(I, a, args, kw, node)
    if m == 'tobytes':
        o = order_of(arg(args, kw, 0, 'order'))
        return ObjV('bytes', {'arr': arr_copy(I, a), 'order': o, 'dtype': a.dtype})
    if m == 'view':
        if not args:
            return a
        dt = dtype_name(I, args[0])
        if dt == a.dtype:
            return a
        if {dt, a.dtype} == {'swapped-f8', 'f8'} or {dt, a.dtype} == {'swapped->f8', '>f8'}:
            raise Unsupported('view dtype', node)
        if {dt, a.dtype} == {'f8', '>f8'}:
            snap = I.heap[a.oid]
            r = I.lam_arr(a.shape, lambda ix: app('swapbytes', tobool01(rd(snap, a.at(ix)))), dt)
            r.dtype = dt
            return r
        raise Unsupported('view dtype', node)
    if m == 'byteswap':
        dt = a.dtype[1:] if a.dtype.startswith('>') else a.dtype
        r = cast(I, a, a.dtype)
        r.dtype = {'f8': 'swapped-f8', '>f8': 'swapped->f8'}.get(a.dtype, 'swapped')
        return r
    if m == 'sort' and a.ndim == 1 and not args and not kw:
        setitem(I, a, ell(), toarr(I, FN['sorted'](I, [a], {}, node)), node)
        return None
    if m in ('setflags', 'sort'):
        I.on_write(a.oid, node)
        raise Unsupported('arr.' + m, node)
    if 'numpy.' + m in ARRM:
        return FN['numpy.' + m](I, [a] + list(args), kw, node)
    raise Unsupported('arr.' + m, node)


# ------------------------------------------------------------------ files
def _name(v):
    return pathstr(v)


@reg('open', 'io.open', 'codecs.open')
def b_open(I, args, kw, node):
    fn = _name(arg(args, kw, 0, 'file'))
    mode = arg(args, kw, 1, 'mode', 'r')
    if isterm(fn) or fn is None or isinstance(fn, (ListRef, tuple, Arr)):
        I.do_raise('TypeError', ('expected str path',), node, implicit=True)
    cell = {'closed': FALSE}
    lines = getattr(I, 'textlines', {}).get(tstr(fn)) if is_str(fn) else None
    if lines is not None:
        cell['pos'] = 0
    oid = I.new(cell)
    o = ObjV('file', {'name': fn, 'mode': mode if isinstance(mode, str) else '?'}, oid)
    if lines is not None and 'b' not in o.attrs['mode'] and 'w' not in o.attrs['mode']:
        o.attrs['items'] = tuple(lines)
    I.event('open', (fn, o.attrs['mode'], o), node)
    return o


def stream_take(I, o, node, n=None):
    """the next items (n: at most that many) of an iterator or of a text file with known lines"""
    c = I.heap[o.oid]
    if not isinstance(c.get('pos'), int) or I.loopvars and c.get('born') != tuple(I.loopvars):
        raise Unsupported('iterator position', node)
    items = o.attrs['items'][c['pos']:]
    if n is not None:
        items = items[:n]
    I.heap[o.oid] = dict(c, pos=c['pos'] + len(items))
    return list(items)


def is_stream(v):
    return isinstance(v, ObjV) and v.kind in ('iterator', 'file') and 'items' in v.attrs


def file_close(I, o, node):
    d = dict(I.heap[o.oid])
    d['closed'] = TRUE
    I.heap[o.oid] = d
    I.event('close', o, node)


def m_file(I, o, meth, args, kw, node):
    if meth == 'close':
        return file_close(I, o, node)
    if meth == 'write':
        v = args[0]
        if isinstance(v, ObjV) and v.kind == 'bytes':
            a = v.attrs['arr']
            I.event('tofile', {'target': o, 'snap': I.heap[a.oid], 'arr': a, 'dtype': v.attrs['dtype'], 'order': v.attrs['order']}, node)
        else:
            I.event('fwrite', (o, v), node)
        return opaque('nwritten')
    if meth == 'writelines':
        I.event('fwrite', (o, args[0]), node)
        return None
    if meth in ('flush', '__enter__', 'fileno', 'isatty'):
        return o if meth == '__enter__' else opaque('file')
    if meth == 'seek':
        I.event('fseek', (o, args[0] if args else None), node)
        wh = args[1] if len(args) > 1 else kw.get('whence', ZERO)
        x = nscal(I, args[0])
        w = const_int(wh)
        cell = I.heap[o.oid]
        if w == 0:
            pos = x
        elif w == 1:
            pos = add(cell.get('pos', ZERO), x)
        else:
            raise Unsupported('seek from end', node)
        I.heap[o.oid] = dict(cell, pos=pos)
        return pos
    if meth == 'tell':
        return I.heap[o.oid].get('pos', ZERO)
    if meth == 'read' and 'b' in o.attrs['mode']:
        I.event('fread', o, node)
        cell = I.heap[o.oid]
        pos = cell.get('pos', ZERO)
        n = nscal(I, args[0]) if args else None
        if n is not None:
            I.heap[o.oid] = dict(cell, pos=add(pos, n))
        return ObjV('filebytes', {'name': o.attrs['name'], 'pos': pos, 'n': n})
    if meth in ('read', 'readline', 'readlines'):
        I.event('fread', o, node)
        if is_stream(o) and not args:
            if meth == 'readline':
                return (stream_take(I, o, node, 1) or [''])[0]
            ls = stream_take(I, o, node)
            return sstr(*ls) if meth == 'read' else I.mklist(ls)
        return Unk('file content')
    if meth == 'truncate':
        I.event('fwrite', (o, 'truncate'), node)
        return None
    raise Unsupported('file.' + meth, node)


def arr_tofile(I, a, args, kw, node):
    t = arg(args, kw, 0, 'fid')
    if arg(args, kw, 1, 'sep', '') not in ('',):
        raise Unsupported('text tofile', node)
    c = arr_copy(I, a)
    I.event('tofile', {'target': t if isinstance(t, ObjV) and t.kind == 'file' else _name(t), 'snap': I.heap[c.oid], 'arr': c, 'dtype': a.dtype, 'order': 'C'}, node)
    return None


ITEMSIZE = {'f8': 8, 'f4': 4, 'i8': 8, 'i4': 4, 'i2': 2, 'u1': 1, 'i1': 1, 'bool': 1}


def itemsize(dt):
    return ITEMSIZE.get(dt.lstrip('<>=|') if isinstance(dt, str) else None)


def file_len(I, fn, dt):
    """number of elements of the file named fn read as dt"""
    n = getattr(I, 'filesizes', {}).get(tstr(fn))
    if n is None:
        return isym('n:filesize:%s' % (fn if isinstance(fn, str) else '/'.join(str(p) for p in fn.parts)), 0)
    return n


def epoch_key(fn):
    k = tstr(fn)
    return mk('app', 'earlier', k) if EPOCH[0] else k


def file_block(I, fn, dt, bytepos, cnt):
    """(array of elements read, elements count) from byte position bytepos"""
    sz = itemsize(dt)
    if sz is None:
        raise Unsupported('file of dtype %s' % dt)
    n = file_len(I, fn, dt)
    k0 = mul(bytepos, num(F(1, sz)))
    if not is_int(k0):
        try:
            k0 = mul(resolve(bytepos, cur())[0], num(F(1, sz)))
        except (Unresolvable, RecursionError):
            pass
    if not is_int(k0):
        raise Unsupported('unaligned file read')
    n = sub(n, k0)
    if cnt is not None and constval(cnt) != -1:
        n = cnt if nonneg(sub(n, cnt)) else app('min', cnt, n)
    v = var('p')
    return I.new_arr((n,), Lam((v,), atom(mk('app', 'file', epoch_key(fn), T.string(dt), add(k0, atom(v)))), ()), dt), n, sz


@reg('numpy.fromfile')
def np_fromfile(I, args, kw, node):
    fo = fn = _name(arg(args, kw, 0, 'file'))
    dt = dtype_name(I, arg(args, kw, 1, 'dtype'))
    cnt = arg(args, kw, 2, 'count')
    off = arg(args, kw, 4, 'offset')
    off = ZERO if off is None else nscal(I, off)
    cnt = None if cnt is None else nscal(I, cnt)
    I.event('fromfile', (fn, dt, cnt), node)
    if isinstance(fn, ObjV):
        fn = fn.attrs['name']
        pos = add(I.heap[fo.oid].get('pos', ZERO), off)
        a, n, sz = file_block(I, fn, dt, pos, cnt)
        I.heap[fo.oid] = dict(I.heap[fo.oid], pos=add(pos, mul(num(sz), n)))
        return a
    return file_block(I, fn, dt, off, cnt)[0]


@reg('numpy.frombuffer')
def np_frombuffer(I, args, kw, node):
    b = arg(args, kw, 0, 'buffer')
    dt = dtype_name(I, arg(args, kw, 1, 'dtype'))
    cnt = arg(args, kw, 2, 'count')
    off = arg(args, kw, 3, 'offset')
    if not (isinstance(b, ObjV) and b.kind == 'filebytes'):
        raise Unsupported('frombuffer', node)
    off = ZERO if off is None else nscal(I, off)
    sz = itemsize(dt)
    lim = b.attrs['n']
    cnt = None if cnt is None else nscal(I, cnt)
    if cnt is None or constval(cnt) == -1:
        cnt = None if lim is None else mul(sub(lim, off), num(F(1, sz)))
    return file_block(I, b.attrs['name'], dt, add(b.attrs['pos'], off), cnt)[0]


@reg('numpy.loadtxt', 'numpy.genfromtxt')
def np_loadtxt(I, args, kw, node):
    fn = _name(args[0])
    I.event('loadtxt', (fn, kw.get('delimiter')), node)
    key = tstr(fn)
    sh = getattr(I, 'textshapes', {}).get(key)
    if sh is None:
        nm = fn if isinstance(fn, str) else '/'.join(str(p) for p in fn.parts)
        sh = (isym('n:rows:%s' % nm, 1), isym('n:cols:%s' % nm, 1))
    v, w = var('p'), var('q')
    delim = kw.get('delimiter', args[2] if len(args) > 2 else None)
    extra = tuple(sorted(k for k in kw if k not in ('delimiter', 'dtype', 'ndmin')))
    nm = 'text:' + str(delim) + ''.join(extra)
    if extra:
        raise Unsupported('loadtxt options', node)
    return I.new_arr(sh, Lam((v, w), atom(mk('app', nm, epoch_key(fn), atom(v), atom(w))), ()))


@reg('numpy.memmap')
def np_memmap(I, args, kw, node):
    fn = _name(args[0])
    mode = kw.get('mode', args[2] if len(args) > 2 else 'r+')
    I.event('memmap', (fn, mode), node)
    dt = dtype_name(I, arg(args, kw, 1, 'dtype', 'uint8'))
    off = arg(args, kw, 3, 'offset')
    sh = arg(args, kw, 4, 'shape')
    order = arg(args, kw, 5, 'order', 'C')
    if itemsize(dt) is None or isinstance(fn, ObjV):
        return Unk('memmap')
    a = file_block(I, fn, dt, ZERO if off is None else nscal(I, off), None)[0]
    if sh is None:
        return a
    try:
        return FN['numpy.reshape'](I, [a, sh], {'order': order}, node)
    except Unsupported:
        return Unk('memmap')


@reg('numpy.save', 'numpy.savetxt', 'numpy.savez', 'numpy.savez_compressed')
def np_save(I, args, kw, node):
    I.event('open', (_name(args[0]), 'wb', None), node)
    return None


@reg('os.remove', 'os.unlink', 'os.rmdir', 'os.rename', 'os.replace', 'shutil.rmtree', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'os.truncate',
     'os.link', 'os.symlink', 'os.chmod', 'os.removedirs', 'os.renames', 'os.utime', 'os.mkfifo', 'os.system', 'subprocess.run', 'subprocess.call', 'subprocess.check_call',
     'tempfile.mkstemp', 'tempfile.NamedTemporaryFile', 'tempfile.mkdtemp', 'tempfile.TemporaryFile', 'os.mknod', 'os.write', 'os.open')
def fs_effect(I, args, kw, node):
    I.event('fs', tuple(_name(a) if is_str(_name(a)) else '?' for a in args), node)
    return Unk('fs')


@reg('os.mkdir', 'os.makedirs')
def os_mkdir(I, args, kw, node):
    I.event('mkdir', _name(args[0]), node)
    return None


def const_path(fname, f):
    def g(I, args, kw, node):
        vals = [pathstr(a) for a in args]
        if all(isinstance(a, str) for a in vals):
            return f(*vals)
        r = strsym.run(f, *vals)
        if r is not strsym.NOPE:
            return r
        return SStr([(fname,) + tuple(tstr(a) for a in vals)])
    return g


@reg('os.path.join')
def os_join(I, args, kw, node):
    if any(isinstance(a, Choice) for a in args):
        return I.distribute(args, lambda *a: os_join(I, list(a), kw, node))
    vals = [pathstr(a) for a in args]
    if any(a is None or isterm(a) for a in vals):
        I.do_raise('TypeError', ('expected str, bytes or os.PathLike object',), node, implicit=True)
    if any(isinstance(a, Unk) for a in vals):
        return Unk('path')
    return path_join(vals)


@reg('os.path.splitext')
def os_splitext(I, args, kw, node):
    s = pathstr(args[0])
    if isinstance(s, Choice):
        return I.distribute([s], lambda x: os_splitext(I, [x], kw, node))
    if isinstance(s, str):
        return posixpath.splitext(s)
    if isinstance(s, SStr):
        last = s.parts[-1]
        if isinstance(last, str) and '.' in last and '/' not in last[last.rindex('.'):]:
            k = last.rindex('.')
            return (sstr(*(s.parts[:-1] + (last[:k],))), last[k:])
        return (SStr([('root', tstr(s))]), SStr([('ext', tstr(s))]))
    if s is None or isterm(s):
        I.do_raise('TypeError', ('path',), node, implicit=True)
    return (Unk('root'), Unk('ext'))


@reg('os.path.basename')
def os_basename(I, args, kw, node):
    s = pathstr(args[0])
    if isinstance(s, str):
        return posixpath.basename(s)
    if isinstance(s, SStr):
        for k in range(len(s.parts) - 1, -1, -1):
            p = s.parts[k]
            if isinstance(p, str) and '/' in p:
                return sstr(p[p.rindex('/') + 1:], *s.parts[k + 1:])
            if not isinstance(p, str):
                break
        r = strsym.run(posixpath.basename, s)
        if r is not strsym.NOPE:
            return r
    return SStr([('basename', tstr(s))])


@reg('os.path.split')
def os_split(I, args, kw, node):
    return (FN['os.path.dirname'](I, args, kw, node), os_basename(I, args, kw, node))


reg('os.path.dirname')(const_path('dirname', posixpath.dirname))
reg('os.path.abspath', 'os.path.realpath', 'os.path.expanduser', 'os.path.normpath', 'os.path.expandvars')(lambda I, a, k, n: pathstr(a[0]))
reg('os.fspath')(lambda I, a, k, n: pathstr(a[0]))
reg('os.getcwd')(lambda I, a, k, n: SStr([('cwd',)]))


@reg('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.access')
def os_exists(I, args, kw, node):
    if isinstance(args[0], Choice):
        return I.distribute([args[0]], lambda x: os_exists(I, [x] + args[1:], kw, node))
    s = pathstr(args[0])
    if s is None:
        I.do_raise('TypeError', ('stat: path should be string',), node, implicit=True)
    if not is_str(s):
        return bapp('unk', T.string('exists%d' % next(_oc)))
    return bapp('exists_path', tstr(s))


reg('os.path.getsize')(lambda I, a, k, n: app('filebytes', tstr(pathstr(a[0]))))
reg('os.listdir', 'os.scandir')(lambda I, a, k, n: Unk('listdir'))
reg('pathlib.Path', 'pathlib.PurePath')(lambda I, a, k, n: ObjV('path', {'s': path_join([pathstr(x) for x in a])}))


def m_path(I, o, meth, args, kw, node):
    s = o.attrs['s']
    if meth == 'exists':
        return bapp('exists_path', tstr(s))
    if meth == 'mkdir':
        I.event('mkdir', s, node)
        return None
    if meth == 'open':
        return b_open(I, [s] + args, kw, node)
    if meth == 'joinpath':
        return ObjV('path', {'s': path_join([s] + [pathstr(a) for a in args])})
    if meth in ('unlink', 'rename', 'rmdir', 'touch', 'write_text', 'write_bytes', 'replace'):
        I.event('fs', (s,), node)
        return None
    if meth == 'glob':
        return np_glob(I, [path_join([s, args[0]])], {}, node)
    if meth == 'as_posix':
        return s
    raise Unsupported('path.' + meth, node)


@reg('glob.glob', 'glob.iglob')
def np_glob(I, args, kw, node):
    if isinstance(args[0], Choice):
        return I.distribute([args[0]], lambda x: np_glob(I, [x], kw, node))
    s = pathstr(args[0])
    if not is_str(s):
        raise Unsupported('glob pattern', node)
    key = tstr(s)
    h = getattr(I, 'glob_hook', None)
    if h is not None:
        r = h(I, s, node)
        if r is not None:
            return r
    n = app('size', mk('app', 'globn', key))
    return ObjV('globlist', {'key': key, 'n': n, 'truth': lt(ZERO, n), 'pattern': s})


# ------------------------------------------------------------------ builtins
@reg('len')
def b_len(I, args, kw, node):
    v = args[0]
    if isinstance(v, Choice):
        return I.distribute([v], lambda x: b_len(I, [x], kw, node))
    if has_method(v, '__len__'):
        return inst_call(I, v, '__len__', [], node)
    if isinstance(v, (tuple, ListRef)):
        items = v if isinstance(v, tuple) else I.list_items(v)
        chk_list(items)
        return add(ZERO, *[x.n if isinstance(x, SeqSeg) else ONE for x in items])
    if isinstance(v, str):
        return num(len(v))
    if isinstance(v, SStr):
        return app('len', tstr(v))
    if isinstance(v, DictRef):
        return num(len(I.dict_items(v)))
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.do_raise('TypeError', ('len() of unsized object',), node, implicit=True)
        return v.shape[0]
    if isinstance(v, RangeV):
        return v.count()
    if isinstance(v, ObjV):
        if v.kind == 'globlist':
            return v.attrs['n']
        if v.kind == 'set':
            return b_len(I, [tuple(v.attrs['items'])], {}, node)
        if v.kind == 'array0_none':
            I.do_raise('TypeError', ('len() of unsized object',), node, implicit=True)
        if v.kind == 'masked':
            return masked_reduce(I, v, 'count', node)
        if v.kind == 'opaque_list':
            return app('len', v.attrs['key'])
    if v is None or isterm(v):
        I.do_raise('TypeError', ('len',), node, implicit=True)
    if isinstance(v, Unk):
        return opaque('len')
    raise Unsupported('len of %r' % (v,), node)


@reg('range')
def b_range(I, args, kw, node):
    for a in args:
        if isinstance(a, LC):
            raise Carried(a.name)
    xs = [nscal(I, I.distribute([a], lambda x: x) if isinstance(a, Choice) else a, node) for a in args]
    for x in xs:
        c = constval(x)
        if c is not None and c.denominator != 1:
            I.do_raise('TypeError', ('float in range',), node, implicit=True)
    if len(xs) == 1:
        return RangeV(ZERO, xs[0], ONE)
    return RangeV(xs[0], xs[1], xs[2] if len(xs) > 2 else ONE)


@reg('int')
def b_int(I, args, kw, node):
    if not args:
        return ZERO
    v = args[0]
    if isinstance(v, Choice):
        return I.distribute([v], lambda x: b_int(I, [x], kw, node))
    if isinstance(v, str):
        try:
            return num(int(v))
        except ValueError:
            I.do_raise('ValueError', ('int',), node, implicit=True)
    if isinstance(v, SStr):
        n = strsym.number_of(v)
        if n is not None:
            return n
        if strsym.known(v):
            r = strsym.rejects(int, v)
            if r is True:
                I.do_raise('ValueError', ('int',), node, implicit=True)
            if r is None:
                raise Unsupported('int() of %r' % (v,), node)
        return atom(mk('app', 'size', mk('app', 'intof', tstr(v))))
    if v is None:
        I.do_raise('TypeError', ('int(None)',), node, implicit=True)
    t = nscal(I, v, node)
    if is_int(t):
        return t
    c = constval(t)
    if c is not None:
        return num(int(c))
    if not fv(t) and not any(x.kind in ('sym', 'rd', 'brd', 'bapp', 'exists') or x.kind == 'app' and x.args[0] not in ('sqrt', 'pow', 'log', 'log2', 'log10', 'exp', 'fdiv', 'trunc', 'floor', 'ceil') for x in subterms(t)):
        from .eval import Model, EvalError
        try:
            r = Model(0).num(t)
            if abs(r) < 1e15:
                return num(int(r))
        except (EvalError, ValueError, OverflowError):
            pass
    # truncation of a quotient of integers
    fl = atom(mk('app', 'trunc', t))
    return _int_quot(t) or fl


def _int_quot(t):
    """int(p/q) for polynomial p with rational coefficients and p >= 0"""
    from math import lcm
    den = 1
    for m, c in t.args:
        for a, e in m:
            if e < 0 or not is_int(a):
                return None
        den = lcm(den, c.denominator)
    p = mul(num(den), t)
    if nonneg(p):
        return fdiv(p, num(den))
    return None


@reg('float')
def b_float(I, args, kw, node):
    v = args[0] if args else ZERO
    if isinstance(v, str):
        try:
            return num(float(v))
        except ValueError:
            I.do_raise('ValueError', ('float',), node, implicit=True)
    if isinstance(v, SStr):
        if len(v.parts) == 1 and v.parts[0][0] in ('real', 'digits'):
            return v.parts[0][1]
        if strsym.known(v):
            r = strsym.rejects(float, v)
            if r is True:
                I.do_raise('ValueError', ('float',), node, implicit=True)
            if r is None:
                raise Unsupported('float() of %r' % (v,), node)
        return atom(mk('app', 'floatof', tstr(v)))
    if v is None:
        I.do_raise('TypeError', ('float(None)',), node, implicit=True)
    return nscal(I, v, node)


@reg('str', 'repr', 'format')
def b_str(I, args, kw, node):
    if not args:
        return ''
    v = pathstr(args[0])
    if isinstance(v, Unk):
        return SStr([('unk', str(next(_oc)))])
    return fmt1(I, v, args[1] if len(args) > 1 and isinstance(args[1], str) else '')


@reg('bool')
def b_bool(I, args, kw, node):
    return I.truth(args[0]) if args else FALSE


@reg('list')
def b_list(I, args, kw, node):
    if not args:
        return I.mklist(())
    if isinstance(args[0], Choice):
        return I.distribute([args[0]], lambda x: b_list(I, [x], kw, node))
    return I.mklist(seq_items(I, args[0], node))


@reg('tuple')
def b_tuple(I, args, kw, node):
    if not args:
        return ()
    if isinstance(args[0], Choice):
        return I.distribute([args[0]], lambda x: b_tuple(I, [x], kw, node))
    return tuple(seq_items(I, args[0], node))


@reg('dict', 'collections.OrderedDict')
def b_dict(I, args, kw, node):
    d = DictRef(I.new({}))
    if args or kw:
        if args and isinstance(args[0], Choice):
            return I.distribute([args[0]], lambda x: b_dict(I, [x], kw, node))
        dict_method(I, d, 'update', args, kw, node)
    return d


reg('dict.fromkeys')(lambda I, a, k, n: DictRef(I.new({I.hkey(x): (a[1] if len(a) > 1 else None) for x in seq_items(I, a[0])})))




def set_op(I, op, a, b, node):
    A, Bx = a.attrs['items'], b.attrs['items']
    if any(isinstance(x, SeqSeg) for x in A + Bx):
        raise Unsupported('set operation', node)
    has = lambda S, x: any(I.decide(I.truth(values_equal(I, x, y))) is True for y in S)
    if op == 'BitOr':
        out = tuple(A) + tuple(x for x in Bx if not has(A, x))
    elif op == 'BitAnd':
        out = tuple(x for x in A if has(Bx, x))
    elif op == 'Sub':
        out = tuple(x for x in A if not has(Bx, x))
    elif op == 'BitXor':
        out = tuple(x for x in A if not has(Bx, x)) + tuple(x for x in Bx if not has(A, x))
    else:
        raise Unsupported('set operation', node)
    return ObjV('set', {'items': out})


@reg('set', 'frozenset')
def b_set(I, args, kw, node):
    items = seq_items(I, args[0], node) if args else []
    return mkset(I, items, node)


def lam_of_list(items):
    """the list as one term, or (term of the underlying list, already distinct)"""
    if len(items) != 1 or not isinstance(items[0], SeqSeg) or not isterm(items[0].val):
        return None
    s = items[0]
    a = single_atom(s.val) if ispoly(s.val) else None
    if a is not None and a.kind == 'app' and a.args[0] == 'size':
        b = a.args[1]
        b = single_atom(b) if ispoly(b) else b
        if b is not None and b.kind == 'app' and b.args[0] in ('uset', 'usorted', 'usorted_r', 'sorted', 'sorted_r') and b.args[2] is atom(s.v):
            full = distinct_count(b.args[1]) if b.args[0].startswith('u') else b.args[1].args[2]
            if full is s.n:
                return b.args[1], b.args[0].startswith('u')
    return mk('app', 'lam', s.v, s.n, s.val), False


def distinct_count(lamk):
    return app('size', mk('app', 'nunique', lamk))


def mkset(I, items, node):
    if any(isinstance(x, SeqSeg) for x in items):
        l = lam_of_list(items)
        if l is None:
            raise Unsupported('set of symbolic', node)
        lamk, _ = l
        n = distinct_count(lamk)
        full = lamk.args[2]
        cur().fact(sub(full, n))
        if pos(full):
            cur().fact(sub(n, ONE))
        v = var('s')
        return ObjV('set', {'items': (SeqSeg(v, n, atom(mk('app', 'size', mk('app', 'uset', lamk, atom(v))))),), 'symbolic': True})
    out = []
    for x in items:
        if not any(I.decide(I.truth(values_equal(I, x, y))) is True for y in out):
            out.append(x)
    return ObjV('set', {'items': tuple(out)})


def m_set(I, o, meth, args, kw, node):
    if meth == 'issubset':
        return land(*[contains(I, x, args[0], node) for x in o.attrs['items']])
    raise Unsupported('set.' + meth, node)


reg('zip', 'itertools.izip')(lambda I, a, k, n: IterV('zip', tuple(a)))
reg('enumerate')(lambda I, a, k, n: IterV('enumerate', (a[0],), nscal(I, arg(a, k, 1, 'start', ZERO))))
reg('reversed')(lambda I, a, k, n: IterV('reversed', (a[0],)))
reg('map')(lambda I, a, k, n: IterV('map', tuple(a[1:]), a[0]))
reg('itertools.chain')(lambda I, a, k, n: IterV('chain', tuple(a)))


@reg('itertools.product')
def it_product(I, args, kw, node):
    rep = const_int(kw.get('repeat', ONE))
    return IterV('product', tuple(args) * rep)


@reg('filter')
def b_filter(I, args, kw, node):
    out = []
    for x in seq_items(I, args[1], node):
        c = I.truth(x if args[0] is None else I.call(args[0], [x], {}, node))
        d = I.decide(c)
        if d is None:
            raise Unsupported('undecided filter', node)
        if d:
            out.append(x)
    return I.mklist(out)


@reg('functools.reduce')
def ft_reduce(I, args, kw, node):
    items = seq_items(I, args[1], node)
    if any(isinstance(x, SeqSeg) for x in items):
        raise Unsupported('symbolic reduce', node)
    acc = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        acc = I.call(args[0], [acc, x], {}, node)
    return acc


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('pow', 'Pow')):
    FN['operator.' + _n] = lambda I, a, k, n, _o=_o: binop(I, _o, a[0], a[1], n)
for _n, _o in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
    FN['operator.' + _n] = lambda I, a, k, n, _o=_o: compare(I, _o, a[0], a[1], n)
FN['operator.neg'] = lambda I, a, k, n: unop(I, 'USub', a[0], n)
FN['operator.getitem'] = lambda I, a, k, n: getitem(I, a[0], a[1], n)
FN['operator.setitem'] = lambda I, a, k, n: setitem(I, a[0], a[1], a[2], n)


@reg('operator.itemgetter')
def op_itemgetter(I, args, kw, node):
    return ObjV('itemgetter', {'keys': tuple(args)})


reg('functools.partial')(lambda I, a, k, n: Partial(a[0], tuple(a[1:]), k))
reg('functools.wraps')(lambda I, a, k, n: a[0] if a and isinstance(a[0], Func) else Partial(None, (), {}))


@reg('functools.lru_cache', 'functools.cache')
def ft_cache(I, args, kw, node):
    if args and isinstance(args[0], Func):
        return ObjV('memofn', {'fn': args[0], 'cell': I.new({})})
    return Partial(None, (), {'memo': True})


def minmax_key(I, kind, args, kw, node):
    items = seq_items(I, args[0], node) if len(args) == 1 else args
    if not items:
        if 'default' in kw:
            return kw['default']
        I.do_raise('ValueError', ('empty',), node, implicit=True)
    if len(items) == 1 and type(items[0]) is SeqSeg:
        q = items[0]
        if not isterm(q.val) and not (isinstance(q.val, tuple) and all(isterm(x) for x in q.val)):
            raise Unsupported('min key', node)
        heap = dict(I.heap)
        I.loopvars.append(q.v)
        c = cur().copy()
        c.bound(q.v, ZERO, sub(q.n, ONE))
        PR.CUR.append(c)
        try:
            D = nscal(I, I.call(kw['key'], [q.val], {}, node), node)
        finally:
            PR.CUR.pop()
            I.loopvars.pop()
        if any(I.heap[o] is not x for o, x in heap.items()):
            raise Unsupported('min key with effects', node)
        inf = INF if kind == 'min' else neg(INF)
        pick = lambda x: atom(mk('app', 'rarg' + kind, ZERO, inf, q.v, q.n, D, tobool01(x)))
        return pick(q.val) if isterm(q.val) else tuple(pick(x) for x in q.val)
    if any(isinstance(x, SeqSeg) for x in items) or len(items) > 12:
        raise Unsupported('min key', node)
    best = items[0]
    kb = nscal(I, I.call(kw['key'], [best], {}, node), node)
    for x in items[1:]:
        k = nscal(I, I.call(kw['key'], [x], {}, node), node)
        less = lt(k, kb) if kind == 'min' else lt(kb, k)
        best = I.merge(less, x, best)
        kb = ite(less, k, kb)
    return best


def b_minmax(kind):
    def f(I, args, kw, node):
        if kw.get('key') is not None:
            return minmax_key(I, kind, args, kw, node)
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Arr) and v.ndim == 1 and const_int(v.shape[0]) is None:
                return np_reduce(kind)(I, [v], {}, node)
            items = seq_items(I, v, node)
            if not items:
                if 'default' in kw:
                    return kw['default']
                I.do_raise('ValueError', ('empty',), node, implicit=True)
        else:
            items = args
        out = []
        for x in items:
            if isinstance(x, SeqSeg):
                e = nscal(I, x.val)
                out.append(atom(mk('app', 'r' + kind, INF if kind == 'min' else neg(INF), x.v, x.n, e)))
            else:
                out.append(nscal(I, x, node))
        return app(kind, *out)
    return f


def ch_args(fn):
    def g(I, args, kw, node):
        if any(isinstance(a, Choice) for a in args):
            return I.distribute(list(args), lambda *a: fn(I, list(a), kw, node))
        return fn(I, args, kw, node)
    return g


reg('min')(ch_args(b_minmax('min')))
reg('max')(ch_args(b_minmax('max')))
reg('abs')(ch_args(lambda I, a, k, n: elementwise(I, lambda x: app('abs', tobool01(x)), a[:1], n)))


@reg('sum')
def b_sum(I, args, kw, node):
    v = args[0]
    if isinstance(v, Arr) and v.ndim == 1:
        return np_reduce('sum')(I, [v], {}, node)
    acc = args[1] if len(args) > 1 else ZERO
    for x in seq_items(I, v, node):
        if isinstance(x, SeqSeg):
            acc = binop(I, 'Add', acc, atom(mk('app', 'sum', x.v, x.n, nscal(I, x.val))), node)
        else:
            acc = binop(I, 'Add', acc, x, node)
    return acc


def b_anyall(kind):
    def f(I, args, kw, node):
        v = args[0]
        if isinstance(v, Choice):
            return I.distribute([v], lambda x: f(I, [x], kw, node))
        if isinstance(v, Arr):
            if v.ndim == 0:
                I.do_raise('TypeError', ('iteration over 0-d',), node, implicit=True)
            if v.ndim == 1:
                return np_reduce(kind)(I, [v], {}, node)
        if isinstance(v, ObjV) and v.kind == 'array0_none' or v is None:
            I.do_raise('TypeError', ('iteration over 0-d',), node, implicit=True)
        out = []
        for x in seq_items(I, v, node):
            if isinstance(x, SeqSeg):
                b = I.truth(x.val)
                out.append(exists(x.v, x.n, b) if kind == 'any' else lnot(exists(x.v, x.n, lnot(b))))
            else:
                out.append(I.truth(x))
        return lor(*out) if kind == 'any' else land(*out)
    return f


reg('any')(b_anyall('any'))
reg('all')(b_anyall('all'))


def fv_part(q, v):
    return any(isinstance(x, Term) and v in fv(x) for x in q)


@reg('sorted')
def b_sorted(I, args, kw, node):
    if isinstance(args[0], Choice):
        return I.distribute([args[0]], lambda x: b_sorted(I, [x], kw, node))
    src = args[0]
    items = seq_items(I, src, node)
    rev = 'reverse' in kw and I.decide(I.truth(kw['reverse'])) is not False
    if any(isinstance(x, SeqSeg) for x in items):
        l = lam_of_list(items) if kw.get('key') is None else None
        if l is not None:
            s = items[0]
            v = var('s')
            lamk, uniq = l
            nm = ('usorted' if uniq else 'sorted') + ('_r' if rev else '')
            n = s.n
            k = mk('app', nm, lamk, atom(v))
            return I.mklist((SeqSeg(v, n, atom(mk('app', 'size', k)) if not isterm(s.val) or is_int(tobool01(s.val)) else atom(k)),))
        if len(items) == 1 and isinstance(items[0].val, SStr) and kw.get('key') is None:
            s = items[0]
            parts = s.val.parts
            k = [j for j, q in enumerate(parts) if not isinstance(q, str) and fv_part(q, s.v)]
            if len(k) == 1 and parts[k[0]][0] == 'num' and str(parts[k[0]][2]).startswith('0'):
                r = I.list_items(b_sorted(I, [I.mklist([SeqSeg(s.v, s.n, parts[k[0]][1])])], {x: y for x, y in kw.items() if x == 'reverse'}, node))[0]
                q = list(parts)
                q[k[0]] = ('num', r.val) + tuple(parts[k[0]][2:])
                return I.mklist([SeqSeg(r.v, r.n, SStr(q))])
        raise Unsupported('sort of symbolic', node)
    if kw.get('key') is not None:
        ks = [I.call(kw['key'], [x], {}, node) for x in items]
        if all(isinstance(x, str) for x in ks) or all(isterm(x) and constval(tobool01(x)) is not None for x in ks):
            ks = [x if isinstance(x, str) else constval(tobool01(x)) for x in ks]
            return I.mklist([items[j] for j in sorted(range(len(items)), key=lambda j: ks[j], reverse=rev)])
        raise Unsupported('sort by key', node)
    if all(isinstance(x, str) for x in items):
        return I.mklist(sorted(items, reverse=rev))
    if all(isterm(x) and constval(tobool01(x)) is not None for x in items):
        return I.mklist(sorted(items, key=lambda t: constval(tobool01(t)), reverse=rev))
    if 'key' not in kw and 1 < len(items) <= 12:
        ks = items
        if all(isinstance(x, SStr) for x in items):
            # names that differ in one zero-padded number
            z = [[(j, q) for j, q in enumerate(x.parts) if not isinstance(q, str) and q[0] == 'num' and str(q[2]).startswith('0')] for x in items]
            rest = {repr([q for q in x.parts if isinstance(q, str) or q[0] != 'num']) for x in items}
            if len(rest) == 1 and all(len(q) == 1 for q in z) and len({q[0][0] for q in z}) == 1 and len({q[0][1][2] for q in z}) == 1:
                ks = [q[0][1][1] for q in z]
        if all(isterm(x) for x in ks):
            import functools
            und = []

            def order(a, b):
                for r, t in ((-1, le(ks[a], ks[b])), (1, le(ks[b], ks[a]))):
                    if decide(t) is True:
                        return r
                und.append(1)
                return 0
            r = sorted(range(len(items)), key=functools.cmp_to_key(order))
            if not und:
                return I.mklist([items[j] for j in (r[::-1] if rev else r)])
    if 1 < len(items) <= 6 and all(isterm(x) for x in items) and 'key' not in kw:
        r = [tobool01(x) for x in items]
        for n in range(len(r) - 1, 0, -1):          # compare-and-exchange network
            for k in range(n):
                r[k], r[k + 1] = app('min', r[k], r[k + 1]), app('max', r[k], r[k + 1])
        return I.mklist(r[::-1] if rev else r)
    if len(items) <= 1:
        return I.mklist(items)
    raise Unsupported('sort', node)


@reg('print')
def b_print(I, args, kw, node):
    f = kw.get('file')
    if isinstance(f, ObjV) and f.kind == 'stream' and f.attrs['name'] == 'sys.stderr':
        I.event('stderr', tuple(args), node)
    elif isinstance(f, ObjV) and f.kind == 'file':
        I.event('fwrite', (f, tuple(args)), node)
    else:
        I.event('stdout', tuple(args), node)
    return None


def m_stream(I, o, meth, args, kw, node):
    if meth == 'write' or meth == 'writelines':
        I.event('stdout' if o.attrs['name'] == 'sys.stdout' else 'stderr', tuple(args), node)
    return None


TYPE_KIND = {'str': is_str, 'list': lambda v: isinstance(v, ListRef), 'tuple': lambda v: isinstance(v, tuple),
             'dict': lambda v: isinstance(v, DictRef), 'numpy.ndarray': lambda v: isinstance(v, Arr) or isinstance(v, ObjV) and v.attrs.get('isarray'),
             'bool': lambda v: isinstance(v, Term) and isbool(v), 'set': lambda v: isinstance(v, ObjV) and v.kind == 'set',
             'object': lambda v: True, 'bytes': lambda v: False,
             'int': lambda v: isterm(v) and (isbool(v) or is_int(v)), 'float': lambda v: isnum(v) and not is_int(v),
             'slice': lambda v: isinstance(v, SliceV), 'range': lambda v: isinstance(v, RangeV), 'numpy.generic': lambda v: False}


@reg('isinstance')
def b_isinstance(I, args, kw, node):
    v, t = args
    if isinstance(v, Choice):
        return I.distribute([v], lambda x: b_isinstance(I, [x, t], kw, node))
    ts = t if isinstance(t, tuple) else (t,)
    out = []
    for x in ts:
        if isinstance(x, Builtin) and x.name in TYPE_KIND:
            out.append(B(bool(TYPE_KIND[x.name](v))))
        elif isinstance(x, Builtin) and x.name in ('numbers.Number', 'numbers.Real', 'numpy.number', 'numpy.floating'):
            out.append(B(isnum(v)))
        elif isinstance(x, Builtin) and x.name in ('numbers.Integral', 'numpy.integer'):
            out.append(B(isnum(v) and is_int(v)))
        elif isinstance(x, ObjV) and x.kind == 'class':
            out.append(B(isinstance(v, ObjV) and v.kind == 'inst' and x in class_mro(v.attrs['cls'])))
        elif isinstance(x, ExcT):
            out.append(B(isinstance(v, Exc) and I.exc_matches(v.name, (), x.name)))
        elif isinstance(v, (Term, Arr)) or is_str(v) or v is None:
            out.append(FALSE if isinstance(x, Builtin) and x.name.startswith(('pathlib', 'os.', 'io.')) else bapp('unk', T.string('isinst%d' % next(_oc))))
        else:
            out.append(bapp('unk', T.string('isinst%d' % next(_oc))))
    return lor(*out)


@reg('type')
def b_type(I, args, kw, node):
    v = args[0]
    if isinstance(v, Choice):
        return I.distribute([v], lambda x: b_type(I, [x], kw, node))
    if v is None:
        return Builtin('NoneType')
    for n in ('str', 'list', 'tuple', 'dict', 'numpy.ndarray', 'bool', 'int', 'float', 'slice', 'range'):
        if TYPE_KIND[n](v):
            return Builtin(n)
    if isinstance(v, ObjV) and v.kind == 'inst':
        return v.attrs['cls']
    return Unk('type')


@reg('hasattr')
def b_hasattr(I, args, kw, node):
    v, n = args
    if isinstance(v, Arr):
        return B(n in ARR_METHODS or n in ('shape', 'ndim', 'T', 'size', 'dtype'))
    if isterm(v) or v is None:
        return FALSE
    if isinstance(v, (ListRef, tuple, DictRef)) or is_str(v):
        return B(n in ('__iter__', '__len__', '__getitem__', 'append' if isinstance(v, ListRef) else '', 'keys' if isinstance(v, DictRef) else ''))
    return bapp('unk', T.string('hasattr%d' % next(_oc)))


@reg('getattr')
def b_getattr(I, args, kw, node):
    if not isinstance(args[1], str):
        raise Unsupported('symbolic getattr', node)
    if len(args) > 2 and isinstance(args[0], ObjV) and args[0].kind == 'args' and args[1] not in I.dict_items(args[0].attrs['ns']):
        return args[2]
    return getattr_(I, args[0], args[1], node)


reg('setattr')(lambda I, a, k, n: setattr_(I, a[0], a[1], a[2], n))
reg('callable')(lambda I, a, k, n: B(isinstance(a[0], (Func, Builtin, Partial))))
reg('slice')(lambda I, a, k, n: SliceV(None, a[0], None) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else None))
reg('id', 'hash')(lambda I, a, k, n: opaque('id'))
reg('divmod')(lambda I, a, k, n: (binop(I, 'FloorDiv', a[0], a[1], n), binop(I, 'Mod', a[0], a[1], n)))
reg('pow')(lambda I, a, k, n: binop(I, 'Pow', a[0], a[1], n))
reg('object')(lambda I, a, k, n: ObjV('opaque', {}))


@reg('round', 'numpy.round', 'numpy.around', 'numpy.round_')
def b_round(I, args, kw, node):
    def f(x):
        return x if is_int(x) else app('round', x, *[nscal(I, y) for y in args[1:]])
    return elementwise(I, f, args[:1], node)


@reg('vars')
def b_vars(I, args, kw, node):
    if len(args) == 1 and isinstance(args[0], ObjV) and args[0].kind == 'args':
        return args[0].attrs['ns']
    return b_dyn(I, args, kw, node)


@reg('globals', 'locals', '__import__', 'eval', 'exec', 'importlib.import_module')
def b_dyn(I, args, kw, node):
    raise Unsupported('dynamic name access', node)


@reg('exit', 'quit', 'sys.exit', 'os._exit')
def b_exit(I, args, kw, node):
    I.do_raise('SystemExit', tuple(args), node)


@reg('math.floor', 'math.trunc')
def m_floor(I, args, kw, node):
    return b_int(I, args, kw, node)


@reg('math.ceil')
def m_ceil(I, args, kw, node):
    t = nscal(I, args[0])
    if is_int(t):
        return t
    r = _int_quot(neg(t))
    from math import lcm
    den = 1
    for m, c in t.args:
        den = lcm(den, c.denominator)
    if all(e > 0 and is_int(a) for m, c in t.args for a, e in m):
        return cdiv(mul(num(den), t), num(den))
    return app('ceil', t)


reg('copy.copy')(lambda I, a, k, n: copy_val(I, a[0], False))
reg('copy.deepcopy')(lambda I, a, k, n: copy_val(I, a[0], True))


def copy_val(I, v, deep):
    if isinstance(v, Choice):
        return Choice(v.c, copy_val(I, v.a, deep), copy_val(I, v.b, deep))
    f = (lambda x: copy_val(I, x, True)) if deep else (lambda x: x)
    if isinstance(v, Arr):
        return arr_copy(I, v)
    if isinstance(v, DictRef):
        return DictRef(I.new({k: f(x) for k, x in I.dict_items(v).items()}))
    if isinstance(v, ListRef):
        return I.mklist(f(x) for x in I.list_items(v))
    if isinstance(v, tuple) and deep:
        return tuple(f(x) for x in v)
    return v


# ------------------------------------------------------------------ re
@reg('re.compile')
def re_compile(I, args, kw, node):
    return ObjV('re', {'pattern': args[0], 'flags': re_flags(args, kw, 1)})


def re_flags(args, kw, k):
    f = args[k] if len(args) > k else kw.get('flags')
    return 0 if f is None else const_int(f) if isterm(f) else None


def str_try(I, f, args, kw=None):
    if kw:
        return strsym.NOPE
    vals = []
    for a in args:
        if isinstance(a, Term) and const_int(a) is not None:
            a = const_int(a)
        elif not (a is None or isinstance(a, (str, SStr)) or isinstance(a, tuple) and all(is_str(x) for x in a)):
            return strsym.NOPE
        vals.append(a)
    return py_value(I, strsym.run(f, *vals))


def py_value(I, r):
    if r is strsym.NOPE or r is None or is_str(r):
        return r
    if isinstance(r, bool):
        return B(r)
    if isinstance(r, int):
        return num(r)
    if isinstance(r, tuple) and len(r) == 2 and r[0] == 'match':
        return ObjV('match', {'groups': r[1]})
    if isinstance(r, list):
        return I.mklist(py_value(I, x) for x in r)
    return tuple(py_value(I, x) for x in r)


def m_match(I, o, meth, args, kw, node):
    g = o.attrs['groups']
    if meth == 'groups':
        return tuple(g[1:])
    if meth == 'group':
        ks = [const_int(a) for a in args] or [0]
        if any(k is None or not 0 <= k < len(g) for k in ks):
            raise Unsupported('match.group', node)
        return g[ks[0]] if len(ks) == 1 else tuple(g[k] for k in ks)
    raise Unsupported('match.' + meth, node)


def re_call(I, pat, meth, args, node, flags=0):
    if meth in ('findall', 'split', 'match', 'search', 'fullmatch', 'sub') and isinstance(pat, str) and all(is_str(a) for a in args) and isinstance(flags, int):
        import re
        f = {'sub': lambda r, x: re.sub(pat, r, x, flags=flags)}.get(meth) or (lambda x: getattr(re, meth)(pat, x, flags=flags))
        r = str_try(I, f, args[:2] if meth == 'sub' else args[:1])
        if r is not strsym.NOPE and (len(args) == (2 if meth == 'sub' else 1)):
            return r
    if meth == 'sub' and isinstance(pat, str) and isinstance(flags, int) and len(args) == 2 and is_str(args[1]) and isinstance(args[0], (Func, Partial, Builtin)):
        import re

        def pieces(x):
            out, pos = [], 0
            for m in re.finditer(pat, x, flags=flags):
                out.append((x[pos:m.start()], (m.group(0),) + m.groups()))
                pos = m.end()
            return out + [(x[pos:], ())]
        r = strsym.run(pieces, args[1])
        if r is not strsym.NOPE:
            out = []
            for lit, g in r:
                out.append(lit)
                if g:
                    v = I.call(args[0], [ObjV('match', {'groups': g})], {}, node)
                    if not is_str(v):
                        raise Unsupported('re.sub with a function', node)
                    out.append(v)
            return sstr(*out)
    p = tstr(pat) if is_str(pat) else T.string('?')
    ss = [tstr(a) if is_str(a) else T.string('fn') for a in args]
    if meth in ('findall', 'split', 'finditer'):
        return ObjV('opaque_list', {'key': mk('app', 're.' + meth, p, *ss)})
    if meth in ('match', 'search', 'fullmatch'):
        return ObjV('opaque', {'truth': bapp('re.' + meth, p, *ss), 'isnone': lnot(bapp('re.' + meth, p, *ss))})
    if meth in ('sub', 'subn'):
        return SStr([('re.sub', p) + tuple(ss)])
    raise Unsupported('re.' + meth, node)


for _m in ('findall', 'split', 'match', 'search', 'fullmatch', 'sub', 'finditer'):
    FN['re.' + _m] = lambda I, a, k, n, _m=_m: re_fn(I, a, k, n, _m)


def re_fn(I, a, k, n, m):
    c = 3 if m in ('sub', 'subn') else 2
    fl = re_flags(a, k, 4 if m == 'sub' else 3 if m == 'split' else 2)
    if isinstance(a[0], ObjV) and a[0].kind == 're':
        return re_call(I, a[0].attrs['pattern'], m, a[1:c], n, a[0].attrs['flags'])
    return re_call(I, a[0], m, a[1:c], n, fl if len(a) <= c or c == 2 and m != 'split' else None)


def m_re(I, o, meth, args, kw, node):
    return re_call(I, o.attrs['pattern'], meth, args, node, o.attrs['flags'])


def m_opaque(I, o, meth, args, kw, node):
    return Unk('opaque.' + meth)


def m_opaque_list(I, o, meth, args, kw, node):
    raise Unsupported('opaque list method', node)


def m_globlist(I, o, meth, args, kw, node):
    if meth == 'sort':
        return None
    raise Unsupported('glob list method', node)


# ------------------------------------------------------------------ argparse
@reg('argparse.ArgumentParser')
def ap_parser(I, args, kw, node):
    return ObjV('parser', {'props': {}}, I.new(()))


reg('argparse.FileType')(lambda I, a, k, n: Builtin('argparse.FileType()'))
reg('argparse.RawDescriptionHelpFormatter', 'argparse.ArgumentDefaultsHelpFormatter')(lambda I, a, k, n: Unk('fmt'))


def m_parser(I, o, meth, args, kw, node):
    if meth == 'add_argument':
        I.heap[o.oid] = I.heap[o.oid] + ((tuple(args), tuple(kw.items())),)
        return Unk('action')
    if meth in ('add_argument_group', 'add_mutually_exclusive_group'):
        return ObjV('parser', {'props': {}, 'group': meth}, o.oid)
    if meth == 'set_defaults':
        raise Unsupported('set_defaults', node)
    if meth in ('parse_args', 'parse_known_args'):
        if meth == 'parse_known_args':
            raise Unsupported('parse_known_args', node)
        specs = parser_specs(I, o)
        I.event('parse_args', specs, node)
        ns = {}
        for s in specs:
            ns[s['dest']] = arg_value(I, s)
        return ObjV('args', {'ns': I.mkdict(ns), 'specs': specs})
    if meth in ('error', 'exit'):
        I.do_raise('SystemExit', (), node)
    return None


def parser_specs(I, o):
    out = []
    for names, kwt in I.heap[o.oid]:
        kw = dict(kwt)
        longs = [n for n in names if isinstance(n, str) and n.startswith('--')]
        shorts = [n for n in names if isinstance(n, str) and n.startswith('-') and not n.startswith('--')]
        posn = [n for n in names if isinstance(n, str) and not n.startswith('-')]
        dest = kw.get('dest') or (longs[0][2:].replace('-', '_') if longs else (posn[0] if posn else shorts[0][1:]))
        ty = kw.get('type')
        out.append({'names': names, 'dest': dest, 'long': longs, 'short': shorts, 'positional': bool(posn),
                    'type': ty.name if isinstance(ty, Builtin) else (None if ty is None else '?'),
                    'action': kw.get('action'), 'required': kw.get('required') is TRUE, 'nargs': kw.get('nargs'),
                    'default': kw.get('default'), 'choices': kw.get('choices'), 'has_default': 'default' in kw, 'const': kw.get('const')})
    return out


def arg_value(I, s):
    h = getattr(I, 'arg_hook', None)
    if h is not None:
        r = h(I, s)
        if r is not None:
            return r[0]
    d = s['dest']
    if s['action'] in ('store_true', 'store_false'):
        b = bapp('arg', T.string(d))
        return b if s['action'] == 'store_true' else lnot(b)
    if s['action'] not in (None, 'store'):
        return Unk('arg action')
    ty = s['type']

    def one(name):
        if ty == 'int':
            return isym('n:arg:' + name)
        if ty == 'float':
            return sym('f:arg:' + name)
        if ty in (None, 'str'):
            return SStr([('arg', name)])
        return Unk('arg type ' + str(ty))
    if s['nargs'] is not None and not (isinstance(s['nargs'], str) and s['nargs'] == '?'):
        v = var('a')
        if ty == 'int':
            e = atom(mk('app', 'size', mk('app', 'argitem', T.string(d), atom(v))))
            e = atom(mk('app', 'int', mk('app', 'argitem', T.string(d), atom(v))))
        else:
            e = atom(mk('app', 'argitem', T.string(d), atom(v)))
        return I.mklist((SeqSeg(v, isym('n:len:' + d, 1), e),))
    return one(d)


# ------------------------------------------------------------------ pyproj
EARTH = 'f:R'


@reg('pyproj.Geod', 'pyproj.geod.Geod')
def pp_geod(I, args, kw, node):
    e = arg(args, kw, 0, 'initstring', kw.get('ellps'))
    if 'ellps' in kw:
        e = kw['ellps']
    extra = sorted(k for k in kw if k != 'ellps')
    return geod(e if isinstance(e, str) and not extra else '?')


def geod(ellps='sphere'):
    if ellps == '+ellps=sphere':
        ellps = 'sphere'
    return ObjV('geod', {'ellps': ellps, 'a': sym(EARTH if ellps == 'sphere' else 'f:R:' + str(ellps))})


def gtag(o):
    return '' if o.attrs['ellps'] == 'sphere' else ':' + str(o.attrs['ellps'])


def dist_term(fn, x1, y1, x2, y2):
    p, q = (x1, y1), (x2, y2)
    if p == q:
        return ZERO
    if (q[0].id, q[1].id) < (p[0].id, p[1].id):
        p, q = q, p
    return atom(mk('app', fn, p[0], p[1], q[0], q[1]))


T.REBUILD['dist'] = lambda a, b, c, d: dist_term('dist', a, b, c, d)


def m_geod(I, o, meth, args, kw, node):
    tag = gtag(o)
    if meth == 'inv':
        if 'radians' in kw and kw['radians'] is not FALSE:
            raise Unsupported('geod radians', node)
        names = ('lons1', 'lats1', 'lons2', 'lats2')
        a4 = [arg(args, kw, k, n) for k, n in enumerate(names)]
        for a in a4:
            if a is None:
                I.do_raise('TypeError', ('inv',), node, implicit=True)
        f = lambda fn: elementwise(I, lambda a, b, c, d: (dist_term(fn + tag, a, b, c, d) if fn == 'dist' else app(fn + tag, a, b, c, d)), a4, node)
        az1 = f('azi')
        d = f('dist')
        I.event('geod', ('inv',), node) if False else None
        return (az1, f('bazi'), d)
    if meth == 'npts':
        names = ('lon1', 'lat1', 'lon2', 'lat2', 'npts')
        a5 = [nscal(I, arg(args, kw, k, n), node) for k, n in enumerate(names)]
        off = ONE
        ii = kw.get('initial_idx', args[6] if len(args) > 6 else None)
        if ii is not None or 'terminus_idx' in kw:
            raise Unsupported('npts idx', node)
        v = var('g')
        n = a5[4]
        ix = atom(v)
        mkp_ = lambda c: atom(mk('app', 'npts_' + c + tag, *a5[:4], n, ix))
        return I.mklist((SeqSeg(v, n, (mkp_('lon'), mkp_('lat'))),))
    if meth == 'fwd':
        a4 = args[:4]
        return (elementwise(I, lambda *x: app('fwd_lon' + tag, *x), a4, node), elementwise(I, lambda *x: app('fwd_lat' + tag, *x), a4, node),
                elementwise(I, lambda *x: app('fwd_baz' + tag, *x), a4, node))
    if meth == 'line_length':
        xs, ys = toarr(I, args[0]), toarr(I, args[1])
        n = const_int(xs.shape[0])
        if n is None:
            raise Unsupported('line_length', node)
        ex = [I.elem(xs, (num(k),)) for k in range(n)]
        ey = [I.elem(ys, (num(k),)) for k in range(n)]
        return add(ZERO, *[dist_term('dist' + tag, ex[k], ey[k], ex[k + 1], ey[k + 1]) for k in range(n - 1)])
    raise Unsupported('geod.' + meth, node)


# ------------------------------------------------------------------ xesmf
@reg('xesmf.Regridder', 'xesmf.frontend.Regridder')
def xe_regridder(I, args, kw, node):
    gi, go = arg(args, kw, 0, 'ds_in'), arg(args, kw, 1, 'ds_out')
    method = arg(args, kw, 2, 'method')
    k = sum(1 for e in I.events if e.kind == 'regridder')
    si = I.dict_items(gi)
    so = I.dict_items(go)
    o = ObjV('regridder', {'id': k, 'in': {x: lam_term(I, si[x]) for x in ('lon', 'lat')}, 'out': {x: lam_term(I, so[x]) for x in ('lon', 'lat')},
                           'method': method, 'kw': dict(kw), 'in_shape': si['lon'].shape, 'out_shape': so['lon'].shape, 'site': I.site(node)})
    o.attrs['props'] = {'shape_in': tuple(si['lon'].shape), 'shape_out': tuple(so['lon'].shape), 'method': method}
    I.event('regridder', o, node)
    return o


def lam_term(I, a, extent=None):
    """whole-array value (or that of its leading part) as a term"""
    a = toarr(I, a)
    vs = tuple(var('l') for _ in a.shape)
    sh = extent or a.shape
    c = cur().copy()
    for v, n in zip(vs, sh):
        c.bound(v, ZERO, sub(n, ONE))
    PR.CUR.append(c)
    try:
        body = I.elem(a, tuple(atom(v) for v in vs))
        try:
            body, _ = resolve(body, c)
        except Unresolvable:
            pass
    finally:
        PR.CUR.pop()
    out = []
    for v, n in zip(vs, sh):
        out += [v, n]
    return mk('app', 'lam', *out, tobool01(body))


def apply_regridder(I, o, args, kw, node):
    a = toarr(I, args[0])
    if a.ndim != 2:
        raise Unsupported('regridder on %d-d' % a.ndim, node)
    d = decide(land(*[eq(x, y) for x, y in zip(a.shape, o.attrs['in_shape'])]))
    if d is False:
        I.do_raise('ValueError', ('array of another shape than the input grid',), node, implicit=True)
    if d is None:
        I.notes.append(('assume-shape', 'regridder input', I.site(node)))
    ext = getattr(I, 'regrid_extent', None)
    lt_ = lam_term(I, a, ext and ext())
    meth = T.string(str(o.attrs['method']))
    gi, go = o.attrs['in'], o.attrs['out']
    key = (gi['lon'], gi['lat'], go['lon'], go['lat'])
    return I.lam_arr(o.attrs['out_shape'], lambda ix: atom(mk('app', 'regridded', meth, *key, lt_, *ix)))


# ------------------------------------------------------------------ objects
def call_obj(I, o, args, kw, node):
    if o.kind == 'regridder':
        return apply_regridder(I, o, args, kw, node)
    if o.kind == 'class':
        nt = o.attrs.get('namedtuple')
        if nt is not None:
            vals = list(args)
            for f in nt[len(vals):]:
                if f in kw:
                    vals.append(kw[f])
                elif f in o.attrs['dict']:
                    vals.append(o.attrs['dict'][f])
                else:
                    I.do_raise('TypeError', ('missing field',), node, implicit=True)
            r = NTuple(vals)
            r.fields = tuple(nt)
            return r
        inst = ObjV('inst', {'cls': o}, I.new({}))
        init = o.attrs['dict'].get('__init__')
        if init is not None:
            I.call(init, [inst] + list(args), kw, node)
        elif o.attrs.get('dataclass') is not None:
            fields = o.attrs['dataclass']
            if len(args) > len(fields) or any(k not in fields for k in kw):
                I.do_raise('TypeError', ('unexpected argument',), node, implicit=True)
            d = dict(zip(fields, args))
            for k, x in kw.items():
                if k in d:
                    I.do_raise('TypeError', ('multiple values for ' + k,), node, implicit=True)
                d[k] = x
            for f in fields:
                if f not in d:
                    x = o.attrs['dict'].get(f, UNDEF)
                    if x is UNDEF:
                        I.do_raise('TypeError', ('missing argument ' + f,), node, implicit=True)
                    if isinstance(x, ObjV) and x.kind == 'field':
                        x = I.call(x.attrs['factory'], [], {}, node) if x.attrs['factory'] is not None else x.attrs['default']
                        if x is UNDEF:
                            I.do_raise('TypeError', ('missing argument ' + f,), node, implicit=True)
                    elif isinstance(x, ObjV) and x.kind == 'property':
                        raise Unsupported('property as dataclass field', node)
                    d[f] = x
            I.heap[inst.oid] = {f: d[f] for f in fields}
            post = o.attrs['dict'].get('__post_init__')
            if post is not None:
                I.call(post, [inst], {}, node)
        elif args or kw:
            I.do_raise('TypeError', ('takes no arguments',), node, implicit=True)
        return inst
    if o.kind == 'inst':
        return I.call(getattr_(I, o, '__call__', node), args, kw, node)
    if o.kind == 'vectorized':
        fn = o.attrs['fn']
        return elementwise(I, lambda *x: nscal(I, I.call(fn, list(x), {}, node)), list(args), node)
    if o.kind == 'itemgetter':
        r = tuple(getitem(I, args[0], k, node) for k in o.attrs['keys'])
        return r[0] if len(r) == 1 else r
    if o.kind == 'ctxmgrfn':
        return ObjV('genctx', {'fn': o.attrs['fn'], 'args': tuple(args), 'kw': dict(kw)})
    if o.kind == 'memofn':
        for x in list(args) + list(kw.values()):
            if isinstance(x, (DictRef, ListRef)) or isinstance(x, Arr) and x.ndim:
                I.do_raise('TypeError', ('unhashable type',), node, implicit=True)
        if I.loopvars:
            return I.call(o.attrs['fn'], args, kw, node)
        try:
            key = I.hkey(tuple(args) + tuple(x for k in sorted(kw) for x in (k, kw[k])))
        except Unsupported:
            key = tuple((id(x), x) for x in list(args) + list(kw.items()))
        cell = o.attrs['cell']
        v = I.heap[cell].get(key, UNDEF)
        if v is not UNDEF and not isinstance(v, Choice):
            return v
        v = I.call(o.attrs['fn'], args, kw, node)
        I.heap[cell] = dict(I.heap[cell], **{}) | {key: v}
        return v
    raise Unsupported('call of object ' + o.kind, node)


@reg('collections.namedtuple')
def c_namedtuple(I, args, kw, node):
    f = args[1]
    fields = f.replace(',', ' ').split() if isinstance(f, str) else [x for x in seq_items(I, f)]
    return ObjV('class', {'name': args[0], 'dict': {}, 'namedtuple': tuple(fields)})


@reg('types.SimpleNamespace', 'argparse.Namespace')
def c_ns(I, args, kw, node):
    return ObjV('inst', {'cls': ObjV('class', {'name': 'ns', 'dict': {}, 'namedtuple': None})}, I.new(dict(kw)))


def m_set_(I, o, meth, args, kw, node):
    return m_set(I, o, meth, args, kw, node)


def m_masked(I, o, meth, args, kw, node):
    if meth in ('mean', 'sum', 'any', 'all', 'min', 'max'):
        return masked_reduce(I, o, meth, node)
    raise Unsupported('masked.' + meth, node)


def m_sysglobal(I, o, meth, args, kw, node):
    I.event('global_state', o.attrs['name'], node)
    return None


def m_environ(I, o, meth, args, kw, node):
    if meth in ('get', 'copy', 'items', 'keys'):
        return args[1] if len(args) > 1 else Unk('environ')
    I.event('global_state', 'os.environ', node)
    return None


def m_array0(I, o, meth, args, kw, node):
    if meth in ('item', 'tolist'):
        return None
    raise Unsupported('array(None).' + meth, node)


OBJM = {'nditer': m_nditer, 'file': m_file, 'geod': m_geod, 'parser': m_parser, 'group': m_parser, 'stream': m_stream, 're': m_re, 'match': m_match, 'set': m_set_,
        'path': m_path, 'masked': m_masked, 'opaque': m_opaque, 'opaque_list': m_opaque_list, 'globlist': m_globlist, 'sysglobal': m_sysglobal,
        'environ': m_environ, 'array0': m_array0, 'errstate': m_opaque, 'catch_warnings': m_opaque, 'regridder': m_opaque}


ARRM = set()
from . import extra    # noqa
