"""Further numpy / itertools operations, mostly composed from the primitives of lib."""
from . import lib as L
from .lib import *
from .lib import arr_getitem, shape_arg, stack_items, dtype_name, reg, FN, toarr, nscal, scal, arg, axis_of, concat, basic_view, elementwise, np_reduce, seq_items, rd, prod, tb, setitem

FULL = SliceV(None, None, None)


def key_at(nd, ax, k):
    return tuple(k if d == ax else FULL for d in range(nd))


def view(I, a, nd, ax, k, node):
    return basic_view(I, a, key_at(nd, ax, k), node)


@reg('numpy.finfo', 'numpy.iinfo')
def np_finfo(I, args, kw, node):
    import struct
    n = dtype_name(I, args[0] if args else None)
    if n in ('int', 'int64'):
        return ObjV('finfo', {'max': num(2 ** 63 - 1), 'min': num(-2 ** 63), 'bits': num(64)})
    if n == 'f4':
        return ObjV('finfo', {'eps': num(F(1, 2 ** 23)), 'tiny': num(F(1, 2 ** 126)), 'smallest_normal': num(F(1, 2 ** 126)), 'max': num(3.4028234663852886e+38),
                              'min': num(-3.4028234663852886e+38), 'resolution': num(1e-6), 'bits': num(32), 'precision': num(6)})
    return ObjV('finfo', {'eps': num(F(1, 2 ** 52)), 'tiny': num(2.2250738585072014e-308), 'smallest_normal': num(2.2250738585072014e-308), 'max': num(1.7976931348623157e+308),
                          'min': num(-1.7976931348623157e+308), 'resolution': num(1e-15), 'bits': num(64), 'precision': num(15)})


@reg('numpy.take')
def np_take(I, args, kw, node):
    a = toarr(I, args[0])
    ax = arg(args, kw, 2, 'axis')
    k = args[1] if len(args) > 1 else kw['indices']
    if ax is None:
        a = FN['numpy.ravel'](I, [a], {}, node)
        return arr_getitem(I, a, k, node)
    ax = axis_of(I, ax, a.ndim)
    r = arr_getitem(I, a, key_at(a.ndim, ax, k), node)
    return L.arr_copy(I, r) if isinstance(r, Arr) else r


@reg('numpy.compress')
def np_compress(I, args, kw, node):
    its = seq_items(I, args[0])
    idx = [num(k) for k, x in enumerate(its) if constval(tobool01(x)) == 1]
    if any(isinstance(x, SeqSeg) or constval(tobool01(x)) is None for x in its):
        raise Unsupported('symbolic compress', node)
    return np_take(I, [args[1], I.mklist(idx), arg(args, kw, 2, 'axis')], {}, node)


@reg('numpy.roll')
def np_roll(I, args, kw, node):
    a = toarr(I, args[0])
    sh = arg(args, kw, 1, 'shift')
    ax = arg(args, kw, 2, 'axis')
    if ax is None:
        f = FN['numpy.ravel'](I, [a], {}, node)
        return L.reshape(I, np_roll(I, [f, sh, ZERO], {}, node), tuple(a.shape), 'C', node)
    if isinstance(ax, tuple):
        for s, x in zip(seq_items(I, sh), ax):
            a = np_roll(I, [a, s, x], {}, node)
        return a
    ax = axis_of(I, ax, a.ndim)
    k = nscal(I, sh)
    n = a.shape[ax]
    snap = I.heap[a.oid]

    def body(ix):
        p = sub(ix[ax], k)
        p = ite(lt0(p), add(p, n), ite(le(n, p), sub(p, n), p))     # |shift| <= n
        return rd(snap, a.at(tuple(p if d == ax else x for d, x in enumerate(ix))))
    c = const_int(k)
    if c is None or not (decide(le(num(abs(c)), n)) is True):
        if c is None or abs(c) > 1:
            raise Unsupported('roll amount', node)
    return I.lam_arr(tuple(a.shape), body, a.dtype)


@reg('numpy.delete')
def np_delete(I, args, kw, node):
    a = toarr(I, args[0])
    ax = arg(args, kw, 2, 'axis')
    if ax is None:
        a = FN['numpy.ravel'](I, [a], {}, node)
        ax = ZERO
    ax = axis_of(I, ax, a.ndim)
    k = args[1]
    n = a.shape[ax]
    if isinstance(k, SliceV):
        raise Unsupported('delete of a slice', node)
    if scal(I, k) is None:
        its = seq_items(I, k)
        if len(its) != 1:
            raise Unsupported('delete of several', node)
        k = its[0]
    i = L.norm_index(I, nscal(I, k), n, node)
    lo, hi = view(I, a, a.ndim, ax, SliceV(None, i, None), node), view(I, a, a.ndim, ax, SliceV(add(i, ONE), None, None), node)
    return concat(I, [lo, hi], ax, node)


@reg('numpy.insert')
def np_insert(I, args, kw, node):
    a = toarr(I, args[0])
    ax = arg(args, kw, 3, 'axis')
    if ax is None:
        a = FN['numpy.ravel'](I, [a], {}, node)
        ax = ZERO
    ax = axis_of(I, ax, a.ndim)
    n = a.shape[ax]
    i = nscal(I, args[1])
    c = const_int(i)
    if c is not None and c < 0:
        i = add(n, i)
    v = toarr(I, args[2])
    sh = tuple(ONE if d == ax else x for d, x in enumerate(a.shape))
    if v.ndim < a.ndim and v.ndim == a.ndim - 1:
        v = basic_view(I, v, key_at(a.ndim, ax, None), node)
    mid = FN['numpy.broadcast_to'](I, [v, sh], {}, node)
    lo, hi = view(I, a, a.ndim, ax, SliceV(None, i, None), node), view(I, a, a.ndim, ax, SliceV(i, None, None), node)
    return concat(I, [lo, mid, hi], ax, node)


def _split(I, args, kw, node, uneven):
    a = toarr(I, args[0])
    ax = axis_of(I, arg(args, kw, 2, 'axis', ZERO), a.ndim)
    n = a.shape[ax]
    if scal(I, args[1]) is not None:
        k = const_int(nscal(I, args[1]))
        if k is None:
            raise Unsupported('symbolic split', node)
        c = const_int(n)
        if c is None:
            raise Unsupported('split of symbolic size', node)
        cuts, p = [], 0
        for j in range(k - 1):
            p += c // k + (1 if j < c % k else 0)
            cuts.append(num(p))
    else:
        cuts = [nscal(I, x) for x in seq_items(I, args[1])]
    b = [None] + cuts + [None]
    return I.mklist([view(I, a, a.ndim, ax, SliceV(x, y, None), node) for x, y in zip(b, b[1:])])


reg('numpy.split')(lambda I, a, k, n: _split(I, a, k, n, False))
reg('numpy.array_split')(lambda I, a, k, n: _split(I, a, k, n, True))
reg('numpy.vsplit')(lambda I, a, k, n: _split(I, a[:2], {'axis': ZERO}, n, False))
reg('numpy.hsplit')(lambda I, a, k, n: _split(I, a[:2], {'axis': ONE}, n, False))


@reg('numpy.outer', 'numpy.multiply.outer')
def np_outer(I, args, kw, node):
    a, b = [FN['numpy.ravel'](I, [toarr(I, x)], {}, node) for x in args[:2]]
    return L.binop(I, 'Mult', basic_view(I, a, (FULL, None), node), basic_view(I, b, (None, FULL), node), node)


@reg('numpy.add.outer')
def np_addouter(I, args, kw, node):
    a, b = [FN['numpy.ravel'](I, [toarr(I, x)], {}, node) for x in args[:2]]
    return L.binop(I, 'Add', basic_view(I, a, (FULL, None), node), basic_view(I, b, (None, FULL), node), node)


@reg('numpy.select')
def np_select(I, args, kw, node):
    r = arg(args, kw, 2, 'default', ZERO)
    for c, v in reversed(list(zip(seq_items(I, args[0]), seq_items(I, args[1])))):
        r = elementwise(I, lambda c, a, b: ite(tb(c), tobool01(a), tobool01(b)), [c, v, r], node)
    return r


@reg('numpy.piecewise')
def np_piecewise(I, args, kw, node):
    x = toarr(I, args[0])
    conds, fns = seq_items(I, args[1]), seq_items(I, args[2])
    r = ZERO
    ev = lambda f: f if isterm(f) or isinstance(f, Arr) else I.call(f, [x], {}, node)
    if len(fns) == len(conds) + 1:
        r = ev(fns[-1])
    for c, f in zip(conds, fns):
        r = elementwise(I, lambda c, a, b: ite(tb(c), tobool01(a), tobool01(b)), [c, ev(f), r], node)
    return r


@reg('numpy.block')
def np_block(I, args, kw, node):
    rows = seq_items(I, args[0])
    out = []
    for r in rows:
        if isinstance(r, Arr):
            out.append(r)
            continue
        its = [toarr(I, x) for x in seq_items(I, r)]
        its = [basic_view(I, x, (None, FULL), node) if x.ndim == 1 else basic_view(I, x, (None, None), node) if x.ndim == 0 else x for x in its]
        out.append(concat(I, its, 1, node))
    if isinstance(rows[0], Arr):
        return concat(I, out, out[0].ndim - 1, node)
    return concat(I, out, 0, node)


for _u, _k in (('add', 'sum'), ('multiply', 'prod'), ('logical_or', 'any'), ('logical_and', 'all'), ('minimum', 'min'), ('maximum', 'max')):
    reg('numpy.%s.reduce' % _u)(lambda I, a, k, n, _k=_k: np_reduce(_k)(I, [a[0], arg(a, k, 1, 'axis', ZERO)], {x: y for x, y in k.items() if x != 'axis'}, n))


@reg('numpy.ptp')
def np_ptp(I, args, kw, node):
    return L.binop(I, 'Sub', np_reduce('max')(I, args, kw, node), np_reduce('min')(I, args, kw, node), node)


@reg('numpy.cumsum', 'numpy.cumprod', 'numpy.add.accumulate')
def np_cumsum(I, args, kw, node):
    a = toarr(I, args[0])
    ax = arg(args, kw, 1, 'axis')
    if ax is None:
        a = FN['numpy.ravel'](I, [a], {}, node)
        ax = ZERO
    ax = axis_of(I, ax, a.ndim)
    snap = I.heap[a.oid]

    def body(ix):
        read = lambda f: rd(snap, a.at(tuple(f)))
        return L.fold(I, [(ax, add(ix[ax], ONE))], [None if d == ax else x for d, x in enumerate(ix)], read, 'sum')
    return I.lam_arr(tuple(a.shape), body)


@reg('numpy.eye', 'numpy.identity')
def np_eye(I, args, kw, node):
    n = nscal(I, args[0])
    m = nscal(I, arg(args, kw, 1, 'M', n))
    k = nscal(I, arg(args, kw, 2, 'k', ZERO))
    return I.lam_arr((n, m), lambda ix: ite(eq(add(ix[0], k), ix[1]), ONE, ZERO))


@reg('numpy.diag', 'numpy.diagonal')
def np_diag(I, args, kw, node):
    a = toarr(I, args[0])
    snap = I.heap[a.oid]
    if a.ndim == 1:
        return I.lam_arr((a.shape[0], a.shape[0]), lambda ix: ite(eq(ix[0], ix[1]), tobool01(rd(snap, a.at((ix[0],)))), ZERO))
    n = app('min', a.shape[0], a.shape[1]) if a.shape[0] is not a.shape[1] else a.shape[0]
    return I.lam_arr((n,), lambda ix: rd(snap, a.at((ix[0], ix[0]))))


@reg('numpy.trace')
def np_trace(I, args, kw, node):
    return np_reduce('sum')(I, [np_diag(I, [args[0]], {}, node)], {}, node)


def _tri(upper):
    def f(I, args, kw, node):
        a = toarr(I, args[0])
        k = nscal(I, arg(args, kw, 1, 'k', ZERO))
        snap = I.heap[a.oid]
        return I.lam_arr(tuple(a.shape), lambda ix: ite(le(add(ix[0], k), ix[1]) if upper else le(ix[1], add(ix[0], k)), tobool01(rd(snap, a.at(tuple(ix)))), ZERO), a.dtype)
    return f


reg('numpy.triu')(_tri(True))
reg('numpy.tril')(_tri(False))


def matmul(I, a, b, node):
    sa, sb = I.heap[a.oid], I.heap[b.oid]
    if a.ndim == 2 and b.ndim == 2:
        sh = (a.shape[0], b.shape[1])
    elif a.ndim == 2 and b.ndim == 1:
        sh = (a.shape[0],)
    elif a.ndim == 1 and b.ndim == 2:
        sh = (b.shape[1],)
    else:
        raise Unsupported('matrix product', node)
    n = a.shape[-1]

    def body(ix):
        def read(f):
            k = f[0]
            i = (ix[0], k) if a.ndim == 2 else (k,)
            j = (k, ix[-1]) if b.ndim == 2 else (k,)
            return mul(tobool01(rd(sa, a.at(i))), tobool01(rd(sb, b.at(j))))
        return L.fold(I, [(0, n)], [None], read, 'sum')
    return I.lam_arr(sh, body)


L.matmul = matmul


@reg('numpy.fromfunction')
def np_fromfunction(I, args, kw, node):
    kw = dict(kw)
    dt = kw.pop('dtype', args[2] if len(args) > 2 else Builtin('float'))
    sh = shape_arg(I, args[1])
    dt = 'int' if getattr(dt, 'name', dt) in ('int', 'numpy.int64', 'i8', 'numpy.intp') else 'f8' if getattr(dt, 'name', dt) in ('float', 'numpy.float64', 'f8') else None
    if dt is None:
        raise Unsupported('fromfunction dtype', node)
    r = I.call(args[0], [I.lam_arr(tuple(sh), lambda ix, d=d: ix[d], dt) for d in range(len(sh))], kw, node)
    return r


@reg('numpy.indices')
def np_indices(I, args, kw, node):
    sh = shape_arg(I, args[0])
    out = [I.lam_arr(tuple(sh), lambda ix, d=d: ix[d], 'int') for d in range(len(sh))]
    return FN['numpy.stack'](I, [tuple(out)], {}, node)


@reg('grid_')
def np_grid_(I, o, k, node):
    f = o.attrs['f']
    ks = k if isinstance(k, tuple) else (k,)
    if f == 'c_':
        return FN['numpy.column_stack'](I, [tuple(toarr(I, x) for x in ks)], {}, node)
    vecs = []
    for s in ks:
        if not isinstance(s, SliceV) or s.stop is None:
            raise Unsupported('mgrid', node)
        a = nscal(I, s.start) if s.start is not None else ZERO
        st = nscal(I, s.step) if s.step is not None else ONE
        vecs.append(toarr(I, RangeV(a, nscal(I, s.stop), st)))
    if f == 'ogrid':
        r = [basic_view(I, v, tuple(FULL if d == j else None for j in range(len(vecs))), node) for d, v in enumerate(vecs)]
        return I.mklist(r) if len(r) > 1 else vecs[0]
    if len(vecs) == 1:
        return vecs[0]
    sh = tuple(v.shape[0] for v in vecs)
    out = []
    for d, v in enumerate(vecs):
        sn = I.heap[v.oid]
        out.append(I.lam_arr(sh, lambda ix, d=d, v=v, sn=sn: rd(sn, v.at((ix[d],))), 'int'))
    return FN['numpy.stack'](I, [tuple(out)], {}, node)


@reg('numpy.dstack')
def np_dstack(I, args, kw, node):
    items = [toarr(I, x) for x in seq_items(I, args[0])]
    items = [basic_view(I, x, (FULL, FULL, None), node) if x.ndim == 2 else basic_view(I, x, (None, FULL, None), node) if x.ndim == 1 else x for x in items]
    return concat(I, items, 2, node)


@reg('numpy.atleast_1d')
def np_at1(I, args, kw, node):
    a = toarr(I, args[0])
    return basic_view(I, a, (None,), node) if a.ndim == 0 else a


@reg('numpy.fromiter')
def np_fromiter(I, args, kw, node):
    return stack_items(I, tuple(seq_items(I, args[0])), node)


@reg('numpy.tile')
def np_tile2(I, args, kw, node):
    a = toarr(I, args[0])
    reps = tuple(shape_arg(I, args[1]))
    if len(reps) < a.ndim:
        reps = (ONE,) * (a.ndim - len(reps)) + reps
    while a.ndim < len(reps):
        a = basic_view(I, a, (None,) + (FULL,) * a.ndim, node)
    snap = I.heap[a.oid]
    sh = tuple(mul(n, r) for n, r in zip(a.shape, reps))

    def body(ix):
        out = []
        for x, n, r in zip(ix, a.shape, reps):
            if constval(r) == 1:
                out.append(x)
            elif constval(n) == 1:
                out.append(ZERO)
            else:
                out.append(sub(x, mul(n, fdiv(x, n))))
        return rd(snap, a.at(tuple(out)))
    return I.lam_arr(sh, body, a.dtype)


@reg('numpy.repeat')
def np_repeat2(I, args, kw, node):
    a = toarr(I, args[0])
    n = scal(I, args[1] if len(args) > 1 else kw['repeats'])
    if n is None:
        raise Unsupported('repeat counts', node)
    ax = arg(args, kw, 2, 'axis')
    if ax is None:
        a = FN['numpy.ravel'](I, [a], {}, node) if a.ndim else basic_view(I, a, (None,), node)
        ax = ZERO
    ax = axis_of(I, ax, a.ndim)
    snap = I.heap[a.oid]
    sh = tuple(mul(x, n) if d == ax else x for d, x in enumerate(a.shape))
    pick = (lambda x: ZERO) if constval(a.shape[ax]) == 1 else (lambda x: fdiv(x, n))
    return I.lam_arr(sh, lambda ix: rd(snap, a.at(tuple(pick(x) if d == ax else x for d, x in enumerate(ix)))), a.dtype)


@reg('numpy.require')
def np_require(I, args, kw, node):
    return FN['numpy.asarray'](I, args[:2], {}, node)


@reg('numpy.isin', 'numpy.in1d')
def np_isin(I, args, kw, node):
    vals = [nscal(I, x) for x in seq_items(I, args[1])]
    return elementwise(I, lambda x: lor(*[eq(x, v) for v in vals]), [args[0]], node, 'bool')


@reg('numpy.nan_to_num')
def np_nan_to_num(I, args, kw, node):
    r = nscal(I, arg(args, kw, 2, 'nan', ZERO))
    return elementwise(I, lambda x: ite(L.isnan(x), r, x), args[:1], node)


@reg('numpy.extract')
def np_extract(I, args, kw, node):
    return L.getitem(I, toarr(I, args[1]), args[0], node)


@reg('numpy.tensordot')
def np_tensordot(I, args, kw, node):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    ax = arg(args, kw, 2, 'axes', TWO)
    if isterm(ax):
        k = const_int(ax)
        A, B_ = list(range(a.ndim - k, a.ndim)), list(range(k))
    else:
        p, q = seq_items(I, ax)
        one = lambda x, nd: [axis_of(I, x, nd)] if isterm(x) else [axis_of(I, y, nd) for y in seq_items(I, x)]
        A, B_ = one(p, a.ndim), one(q, b.ndim)
    let = iter('abcdefghijklm')
    la = [next(let) for _ in range(a.ndim)]
    lb = [la[A[B_.index(d)]] if d in B_ else next(let) for d in range(b.ndim)]
    out = [x for d, x in enumerate(la) if d not in A] + [x for d, x in enumerate(lb) if d not in B_]
    return FN['numpy.einsum'](I, ['%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), a, b], {}, node)


@reg('numpy.std', 'numpy.var', 'numpy.median', 'numpy.percentile', 'numpy.quantile', 'numpy.interp', 'numpy.unwrap')
def np_opaque(I, args, kw, node):
    raise Unsupported('statistics function', node)


@reg('numpy.sort')
def np_sort(I, args, kw, node):
    return toarr(I, FN['sorted'](I, [args[0]], {}, node))


@reg('numpy.unique')
def np_unique(I, args, kw, node):
    if len(args) != 1 or kw:
        raise Unsupported('numpy.unique options', node)
    if isinstance(args[0], Arr) and args[0].ndim != 1:
        raise Unsupported('numpy.unique of a matrix', node)
    return toarr(I, FN['sorted'](I, [FN['set'](I, [args[0]], {}, node)], {}, node))


@reg('numpy.apply_along_axis')
def np_aaa(I, args, kw, node):
    f, ax, a = args[0], args[1], toarr(I, args[2])
    ax = axis_of(I, ax, a.ndim)
    if a.ndim != 2:
        raise Unsupported('apply_along_axis', node)
    v = var('q')
    n = a.shape[1 - ax]
    I.loopvars.append(v)
    c = cur().copy()
    c.bound(v, ZERO, sub(n, ONE))
    PR.CUR.append(c)
    try:
        r = I.call(f, [basic_view(I, a, key_at(2, 1 - ax, atom(v)), node)] + list(args[3:]), dict(kw), node)
    finally:
        PR.CUR.pop()
        I.loopvars.pop()
    return stack_items(I, (SeqSeg(v, n, r),), node)


@reg('math.isclose')
def m_isclose(I, args, kw, node):
    a, b = nscal(I, args[0]), nscal(I, args[1])
    rt, at = nscal(I, kw.get('rel_tol', num(1e-9))), nscal(I, kw.get('abs_tol', ZERO))
    return le(app('abs', sub(a, b)), app('max', mul(rt, app('max', app('abs', a), app('abs', b))), at))


@reg('dataclasses.field')
def dc_field(I, args, kw, node):
    return ObjV('field', {'factory': kw.get('default_factory'), 'default': kw.get('default', UNDEF)})


@reg('noop')
def noop(I, args, kw, node):
    return None


# ------------------------------------------------------------------ iterators
@reg('iter')
def b_iter(I, args, kw, node):
    v = args[0]
    if isinstance(v, ObjV) and v.kind in ('iterator', 'file'):
        return v
    if isinstance(v, (tuple, ListRef, str, DictRef)) or isinstance(v, (RangeV, IterV)):
        it = L.iterate(I, v, node)
        if it[0] == 'items' and not any(isinstance(x, SeqSeg) for x in it[1]):
            return ObjV('iterator', {'items': tuple(it[1])}, I.new({'pos': 0, 'born': tuple(I.loopvars)}))
    if isterm(v) or v is None or isinstance(v, Arr) and v.ndim == 0:
        I.do_raise('TypeError', ('not iterable',), node, implicit=True)
    return v


@reg('next')
def b_next(I, args, kw, node):
    v = args[0]
    if isinstance(v, IterV):
        its = L.iterate(I, v, node)
        if its[0] == 'items' and not any(isinstance(x, SeqSeg) for x in its[1]):
            if its[1]:
                return its[1][0]
            if len(args) > 1:
                return args[1]
            I.do_raise('StopIteration', (), node, implicit=True)
    if L.is_stream(v):
        x = L.stream_take(I, v, node, 1)
        if x:
            return x[0]
        if len(args) > 1:
            return args[1]
        I.do_raise('StopIteration', (), node, implicit=True)
    raise Unsupported('next()', node)


@reg('itertools.islice')
def it_islice(I, args, kw, node):
    its = seq_items(I, args[0])
    if any(isinstance(x, SeqSeg) for x in its):
        raise Unsupported('islice', node)
    f = lambda x: None if x is None else const_int(x)
    s = slice(*[f(x) for x in args[1:]])
    return IterV('chain', (tuple(its[s]),))


@reg('itertools.zip_longest')
def it_zl(I, args, kw, node):
    cols = [seq_items(I, a) for a in args]
    if any(isinstance(x, SeqSeg) for c in cols for x in c):
        raise Unsupported('zip_longest', node)
    fv = kw.get('fillvalue')
    n = max(map(len, cols)) if cols else 0
    return IterV('chain', (tuple(tuple(c[k] if k < len(c) else fv for c in cols) for k in range(n)),))


@reg('itertools.pairwise')
def it_pair(I, args, kw, node):
    c = seq_items(I, args[0])
    if any(isinstance(x, SeqSeg) for x in c):
        raise Unsupported('pairwise', node)
    return IterV('chain', (tuple(zip(c, c[1:])),))


@reg('itertools.repeat')
def it_repeat(I, args, kw, node):
    k = const_int(args[1]) if len(args) > 1 else None
    if k is None:
        return IterV('repeat', (args[0],))
    return IterV('chain', ((args[0],) * k,))


@reg('itertools.starmap')
def it_starmap(I, args, kw, node):
    return I.mklist([I.call(args[0], list(seq_items(I, x)), {}, node) for x in seq_items(I, args[1])])


@reg('itertools.combinations', 'itertools.permutations')
def it_comb(I, args, kw, node):
    import itertools as it
    c = seq_items(I, args[0])
    if any(isinstance(x, SeqSeg) for x in c):
        raise Unsupported('combinations', node)
    r = const_int(args[1]) if len(args) > 1 else len(c)
    return IterV('chain', (tuple(it.combinations(c, r)),))


@reg('itertools.chain.from_iterable')
def it_chainfrom(I, args, kw, node):
    return IterV('chain', tuple(seq_items(I, args[0])))


ARR = ('take', 'compress', 'repeat', 'cumsum', 'ptp', 'trace', 'diagonal', 'std', 'var', 'round', 'conj')
L.ARRM.update('numpy.' + m for m in ARR)
