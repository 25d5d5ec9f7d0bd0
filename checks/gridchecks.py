"""C04-C15: obligations on created and refined grids."""
from .grids import *


def site_of(a):
    """last assignment that contributes to an array"""
    from sgflow.arrays import Upd, Phi, LoopEnd, Sel
    return ''


def lonmod(a, b):
    if not (np_finite(a) and np_finite(b)):
        return not close(a, b)
    d = (a - b) % 360.0
    return min(d, 360.0 - d) > 1e-6


def np_finite(x):
    return x == x and abs(x) != float('inf')


def mk_case(rep, verbose=FALSE, overrides=None, small=False):
    sc = run_mkgrid(rep, verbose, overrides)
    g = unpack_grid(rep, sc, 'mkgrid ')
    D = mk_double(sc)
    return 'mkgrid ', sc, g, sc.ns, sc.ms, D, geo_models(small=small)


def rg_case(rep, k=0, src='matrices', small=False):
    c = RegridCase(k, src)
    tag = 'regrid(%s,%d turns) ' % (src, k)
    sc = c.run(rep)
    for name, detail, site in c.bad:
        rep.bad(tag + name, detail, site)
    if c.bad:
        return tag, sc, None, c.oni, c.onj, None, None
    g = unpack_grid(rep, sc, tag)
    return tag, sc, g, c.oni, c.onj, c.double(), mesh_models(small)


def where(I, tag, name):
    return 'simplegrid.%s result field %s' % ('mkgrid' if tag.startswith('mk') else 'computegrid.tomitgrid' if tag.startswith('to') else 'regrid', name)


def fields_of(case, names, rep, differs=None, regs=REG, models=None):
    tag, sc, g, ni, nj, D, ms = case
    if g is None:
        return
    Fs = Fields(D.pt, D.NA, D.NB)
    for n in names:
        d = differs(n) if differs else None
        elem_obligations(rep, sc.I, g[0], Fs.field, [n], ni, nj, models or ms, tag, regs=regs, differs=d, sites=lambda f: where(sc.I, tag, f))


def small_sizes():
    from . import common
    common.SMALL = 2
    common.ATTEMPTS = 1 if TIER == 'quick' else 3


def pieces_for(names_groups, cases, **kw):
    out = []
    for cname, cf in cases:
        for names in names_groups:
            def fn(r, cf=cf, names=names):
                fields_of(cf(r), names, r, **kw)
            out.append(('%s %s' % (cname, ','.join(names)), fn))
    return out


MK = ('mkgrid', mk_case)


def RG(k, src='matrices', small=False):
    return ('regrid %s %d' % (src, k), lambda r: rg_case(r, k, src, small))


def thorough():
    return TIER == 'thorough'


# ------------------------------------------------------------------ C05
def upto_poles(mk_):
    """corner points are taken over unchanged, so the poles themselves are in reach too"""
    def f(seed, ints):
        M = mk_(seed, ints)
        old = M.free
        M.free = lambda key: (-90., 90.) if key[0] == 'sym' and 'lat' in key[1] else old(key)
        return M
    return f


def C05(rep):
    tag, sc, g, ns, ms, D, models = mk_case(rep)
    if g is None:
        return
    models = [upto_poles(m) for m in models]
    I = sc.I
    grid, ni, nj = g
    for n in ('XG', 'YG'):
        a = grid.get(n)
        if not isinstance(a, Arr):
            rep.bad('corner field ' + n, 'missing') if a is None else rep.und('corner field ' + n, repr(a))
            continue
        eq_terms(rep, '%s has lon_subscale+1 rows and lat_subscale+1 columns' % n, tuple(a.shape), (add(ns, ONE), add(ms, ONE)), I.base_ctx, where(I, tag, n))
        for ri in ('first', 'last'):
            for rj in ('first', 'last'):
                ctx = I.base_ctx.copy()
                i = region(ctx, 'n:i', add(ns, ONE), ri)
                j = region(ctx, 'n:j', add(ms, ONE), rj)
                want = sc.lon[0 if ri == 'first' else 1] if n == 'XG' else sc.lat[1 if rj == 'first' else 0]
                PR.CUR.append(ctx)
                try:
                    compare(rep, '%s at corner (%s i, %s j)' % (n, ri, rj), I.elem(a, (i, j)), want, ctx, models, where(I, tag, n))
                except Unresolvable as e:
                    rep.und('%s at corner (%s i, %s j)' % (n, ri, rj), str(e))
                finally:
                    PR.CUR.pop()


# ------------------------------------------------------------------ C06/C07/C11
POINTS = ('XG', 'YG', 'XC', 'YC')


def C06(rep):
    diff = lambda n: lonmod if n[0] == 'X' else None
    cases = [MK, RG(0), RG(1)] + ([RG(2), RG(3), RG(0, 'file')] if thorough() else [])
    ps = pieces_for([('XG', 'XC'), ('YG', 'YC')], cases, differs=diff)
    parallel(rep, ps)


def C07(rep):
    def conv(a, b):
        """b is the required value; only the 360-degree convention counts here"""
        if not (np_finite(a) and np_finite(b)):
            return False
        d = a - b
        turns = round(d / 360.0)
        if abs(d - 360.0 * turns) < 1e-6:
            return turns != 0
        if b >= 180.0001:
            return a < -1e-9            # shifted convention required, a negative longitude appears
        if b < -1e-9:
            return a > 180.0001         # unshifted convention required
        return False
    cases = [MK, RG(0), RG(1)] + ([RG(2), RG(3)] if thorough() else [])
    ps = []
    for cname, cf in cases:
        def fn(r, cf=cf):
            fields_of(cf(r), ('XG', 'XC'), r, differs=lambda n: conv)
        ps.append((cname, fn))
    parallel(rep, ps)


class GivenPoints:
    """doubled-resolution grid handed to the function as it is"""

    def __init__(self, ni, nj):
        self.NA, self.NB = mul(TWO, ni), mul(TWO, nj)

    def pt(self, a, b):
        i, j = add(a, ONE), add(b, ONE)
        return atom(mk('app', 'in', 'lon', i, j)), atom(mk('app', 'in', 'lat', i, j))


def points_case(rep):
    """computegrid.tomitgrid on an arbitrary doubled grid with its boundary ring"""
    tag = 'tomitgrid '
    sc = Scenario(rep)
    I = sc.I
    ni, nj = isym('n:ni', 1), isym('n:nj', 1)
    iub, jub = add(mul(TWO, ni), ONE), add(mul(TWO, nj), ONE)
    n0, n1 = add(iub, TWO), add(jub, TWO)
    xg, yg = I.new_arr((n0, n1), Inp('lon'), 'f8'), I.new_arr((n0, n1), Inp('lat'), 'f8')
    geod = ObjV('geod', {'ellps': 'sphere', 'a': R})
    sc.call('simplegrid.computegrid', 'tomitgrid', [xg, yg, ZERO, ONE, iub, add(iub, ONE), ZERO, ONE, jub, add(jub, ONE), geod])
    if sc.error or not isinstance(sc.ret, DictRef):
        rep.und(tag + 'analysis', sc.error or 'returns %r' % (sc.ret,))
        return tag, sc, None, ni, nj, None, None
    def model(step, lo):
        def mk_(seed, ints):
            def inpf(name, *ix):
                u = h01(seed, name, *ix)
                return lo + step * ix[0] + u * step / 5 if str(name).endswith('lon') else 10 + 3 * ix[1] + u if str(name).endswith('lat') else None
            M = Model(seed, ints, inpf)
            M.free = lambda key: (-360.0, 360.0) if key[1] == 'lon' else (-89.0, 89.0) if key[1] == 'lat' else None
            return M
        return mk_
    return tag, sc, (dict_of(I, sc.ret), ni, nj), ni, nj, GivenPoints(ni, nj), [model(3., 20.), model(5., -100.), model(7., 170.)]


PTS = ('tomitgrid', points_case)


def C11(rep):
    cases = [MK, RG(0), RG(1, 'file')] + ([RG(2), RG(3)] if thorough() else [])
    diff = lambda n: lonmod if n[0] == 'X' else None
    parallel(rep, pieces_for([('XG', 'YG'), ('XC', 'YC')], cases, differs=diff) + pieces_for([('XG', 'YG', 'XC', 'YC')], [PTS]))


# ------------------------------------------------------------------ C08
def C08(rep):
    def one(r, k, src, deg=None):
        c = RegridCase(k, src)
        tag = 'regrid(%s,%d turns) ' % (src, k)
        sc = c.run(r)
        for name, detail, site in c.bad:
            r.bad(tag + name, detail, site)
        if c.bad:
            return
        g = unpack_grid(r, sc, tag)
        if g is None:
            return
        I = sc.I
        D = c.double()
        for n, f in (('XG', D.CX), ('YG', D.CY)):
            a = g[0].get(n)
            if not isinstance(a, Arr):
                r.bad(tag + n, 'missing') if a is None else r.und(tag + n, repr(a))
                continue
            eq_terms(r, tag + 'size of ' + n, tuple(a.shape), (add(c.oni, ONE), add(c.onj, ONE)), I.base_ctx, where(I, tag, n))
            for ri in REG:
                for rj in REG:
                    ctx = I.base_ctx.copy()
                    ka = region(ctx, 'n:ka', add(c.di, ONE), ri)
                    kb = region(ctx, 'n:kb', add(c.dj, ONE), rj)
                    PR.CUR.append(ctx)
                    nm = '%s%s at source point [%s,%s]' % (tag, n, ri, rj)
                    try:
                        compare(r, nm, I.elem(a, (mul(ka, c.ls), mul(kb, c.ms))), f(ka, kb), ctx, mesh_models(), where(I, tag, n))
                    except Unresolvable as e:
                        r.und(nm, str(e))
                    finally:
                        PR.CUR.pop()
    parallel(rep, [('regrid %s %d' % (s, k), lambda r, s=s, k=k: one(r, k, s)) for k in range(4) for s in (('matrices', 'file') if thorough() or k < 2 else ('matrices',))])


# ------------------------------------------------------------------ C09
def C09(rep):
    def good(r, k, src):
        c = RegridCase(k, src)
        tag = '%d turns (%s): ' % (k, src)
        sc = c.run(r)
        for name, detail, site in c.bad:
            r.bad(tag + name, detail, site)
        if c.bad:
            return
        want = [(p, m) for m in range(k + 1) for p in (0, 1)]
        have = set(c.rounds)
        first = 'simplegrid.regrid.regrid'
        if sc.error:
            return r.und(tag + 'analysis', sc.error)
        if sc.ret is DEAD:
            return r.bad(tag + 'diagonal corners are accepted', 'every path raises %s' % [e.data[0] for e in sc.events('raise')][:2], (sc.events('raise') or [_NoEv])[0].site)
        r.ok(tag + 'diagonal corners are accepted', 'path enumeration')
        if max(m for _, m in have) != k if have else True:
            return r.bad(tag + 'rotated until NW is at min i, max j', 'corners were located after %s turns' % sorted({m for _, m in have}), first)
        r.ok(tag + 'rotated until NW is at min i, max j', 'path enumeration')
        miss = [w for w in want if w not in have]
        if miss and [w for w in miss if w[1] in (0, k)]:
            r.bad(tag + 'both corners are located again after every turn', 'not located: %s (corner, turns)' % miss, first)
        else:
            r.ok(tag + 'both corners are located again after every turn')
        g = unpack_grid(r, sc, tag)
        if g is None:
            return
        I = sc.I
        a, b = g[0].get('XG'), g[0].get('YG')
        # the result region has the two given corners at (0, last) and (last, 0)
        D = c.double()
        for n, f in (('XG', D.CX), ('YG', D.CY)):
            arr = g[0].get(n)
            if not isinstance(arr, Arr):
                r.und(tag + n, repr(arr))
                continue
            for nm, i, j, ka, kb in (('NW corner at min i, max j', ZERO, c.onj, ZERO, c.dj), ('SE corner at max i, min j', c.oni, ZERO, c.di, ZERO)):
                ctx = I.base_ctx.copy()
                PR.CUR.append(ctx)
                try:
                    compare(r, tag + n + ': ' + nm, I.elem(arr, (i, j)), f(ka, kb), ctx, mesh_models(), where(I, 'regrid', n))
                except Unresolvable as e:
                    r.und(tag + n + ': ' + nm, str(e))
                finally:
                    PR.CUR.pop()

    def degen(r, k, deg):
        c = RegridCase(k, 'matrices', deg)
        tag = 'corners sharing %s (%d turns): ' % (deg if deg != 'both' else 'a point', k)
        sc = c.run(r)
        for name, detail, site in c.bad:
            r.bad(tag + name, detail, site)
        if c.bad:
            return
        ev = sc.events('raise')
        if sc.error and not ev:
            if 'iteration' in sc.error or 'unrolled' in sc.error or 'terminat' in sc.error or len(c.rounds) > 12:
                return r.bad(tag + 'ValueError is raised', 'no ValueError: the rotation loop is entered and never left', 'simplegrid.regrid.regrid')
            return r.und(tag + 'analysis', sc.error)
        if sc.ret is DEAD and ev and all(e.data[0] == 'ValueError' for e in ev):
            return r.ok(tag + 'ValueError is raised', 'path enumeration')
        if sc.ret is DEAD:
            return r.bad(tag + 'ValueError is raised', 'raises %s' % [e.data[0] for e in ev], ev[0].site if ev else '')
        r.bad(tag + 'ValueError is raised', 'the operation returns a grid', 'simplegrid.regrid.regrid')
    ps = [('%d turns %s' % (k, s), lambda r, k=k, s=s: good(r, k, s)) for k in range(4) for s in ('matrices', 'file')]
    ps += [('degenerate %s %d' % (d, k), lambda r, k=k, d=d: degen(r, k, d)) for d in ('row', 'col', 'both') for k in (0, 1, 2, 3)]
    parallel(rep, ps)


class _NoEv:
    site = ''
    data = ('?',)


# ------------------------------------------------------------------ C12/C13/C14
def C12(rep):
    cases = [MK, RG(0)] + ([RG(k) for k in (1, 2, 3)] if thorough() else [RG(1, 'file')])
    parallel(rep, pieces_for([('DXG', 'DXC'), ('DXV', 'DXF'), ('DYG', 'DYC'), ('DYU', 'DYF')], cases + [PTS]))


def C13(rep):
    small_sizes()
    cases = [('mkgrid', lambda r: mk_case(r, small=True)), RG(0, small=True)] + ([RG(1, small=True), RG(3, small=True)] if thorough() else [])
    parallel(rep, pieces_for([('RAZ',), ('RAW',), ('RAS',), ('RAC',)], cases))


def C14(rep):
    small_sizes()
    def one(r, cf, names):
        tag, sc, g, ni, nj, D, models = cf(r)
        if g is None:
            return
        I = sc.I
        Fs = Fields(D.pt, D.NA, D.NB)
        for n in names:
            a = g[0].get(n)
            if not isinstance(a, Arr):
                r.bad(tag + n, 'missing') if a is None else r.und(tag + n, repr(a))
                continue
            si, sj = shape_of(n, ni, nj)
            for ri in REG:
                for rj in REG:
                    edge = (n in FRINGE_I and ri != 'mid') or (n in FRINGE_J and rj != 'mid')
                    ctx = I.base_ctx.copy()
                    i = region(ctx, 'n:i', si, ri)
                    j = region(ctx, 'n:j', sj, rj)
                    PR.CUR.append(ctx)
                    nm = '%s%s[%s,%s] %s' % (tag, n, ri, rj, 'is exactly zero' if edge else 'is computed')
                    try:
                        code = I.elem(a, (i, j))
                        if edge:
                            compare(r, nm, code, ZERO, ctx, models, where(I, tag, n), differs=lambda x, y: x != 0)
                        else:
                            compare(r, nm, code, ONE, ctx, models, where(I, tag, n), differs=lambda x, y: x == 0, basis=Fs.field(n, i, j))
                    except Unresolvable as e:
                        r.und(nm, str(e))
                    finally:
                        PR.CUR.pop()
    lens = ('DXC', 'DXV', 'DYC', 'DYU', 'DXG', 'DYG', 'DXF', 'DYF')
    ps = []
    small = [('mkgrid', lambda r: mk_case(r, small=True))] + [RG(k, small=True) for k in ((0, 1, 2) if thorough() else (0,))]
    for (cname, cf), (_, sf) in zip([MK, RG(0)] + ([RG(1), RG(2)] if thorough() else []), small):
        for names in (lens[:4], lens[4:], ('RAZ',), ('RAW', 'RAC'), ('RAS',)):
            if names[0].startswith('RA'):
                cf = sf
            ps.append(('%s %s' % (cname, ','.join(names)), lambda r, cf=cf, names=names: one(r, cf, names)))
    parallel(rep, ps)


# ------------------------------------------------------------------ C15
def _square(seed, ints):
    """created grid whose cells are wider than tall in degrees along x and taller than wide along y"""
    q = random.Random(seed)
    s = dict(ints)
    s.update({'f:lon1': 30.0, 'f:lon2': 30.0 + (3 + q.random()) * s.get('n:ls', 1), 'f:lat1': 10.0 + (3 + q.random()) * s.get('n:ms', 1), 'f:lat2': 10.0})
    return Model(seed, s)


def C15(rep):
    small_sizes()
    def direct(r, tag):
        """areas(xg, yg, edges_x, edges_y, geod) on arbitrary matrices"""
        sc = Scenario(r)
        I = sc.I
        na, nb = isym('n:na', 2), isym('n:nb', 2)
        xg, yg = I.new_arr((na, nb), Inp('lon'), 'f8'), I.new_arr((na, nb), Inp('lat'), 'f8')
        ex, ey = I.new_arr((sub(na, ONE), nb), Inp('ex'), 'f8'), I.new_arr((na, sub(nb, ONE)), Inp('ey'), 'f8')
        geod = ObjV('geod', {'ellps': 'sphere', 'a': R})
        sc.call('simplegrid.computegrid', 'areas', [xg, yg, ex, ey, geod])
        if sc.error:
            return r.und(tag, sc.error)
        if not isinstance(sc.ret, Arr):
            return r.und(tag, 'returns %r' % (sc.ret,))
        eq_terms(r, tag + 'one area per cell', tuple(sc.ret.shape), (sub(na, ONE), sub(nb, ONE)), I.base_ctx)
        inp = lambda nm: (lambda i, j: atom(mk('app', 'in', nm, i, j)))

        def mean(nm, n1, n2):
            v, w = var('a'), var('b')
            e = inp(nm)(atom(v), atom(w))
            S = lambda body: atom(mk('app', 'sum', v, n1, atom(mk('app', 'sum', w, n2, body))))
            return div(S(e), S(ite(eq0(e), ZERO, ONE)))
        ten = num(10000)
        planar = land(lt(mean('ex', sub(na, ONE), nb), ten), lt(mean('ey', na, sub(nb, ONE)), ten))
        pt = lambda i, j: (inp('lon')(i, j), inp('lat')(i, j))
        Fs = Fields(pt, sub(na, ONE), sub(nb, ONE), planar)

        def model(scale, zeros, sx=1.0, sy=1.0, lon=5):
            def mk_(seed, ints):
                def inpf(name, *ix):
                    b = str(name).split(':')[-1]
                    u = h01(seed, name, *ix)
                    if b == 'lon':
                        return 20 + lon * (ix[0] + u / 5)
                    if b == 'lat':
                        return 10 + 4 * ix[1] + u
                    if b in ('ex', 'ey'):
                        if h01(seed, 'z', name, *ix) < zeros:
                            return 0.0
                        return scale * (.5 + u) * (sx if b == 'ex' else sy)
                    return None
                return Model(seed, ints, inpf)
            return mk_
        ms = [model(5000, .3), model(20000, .3), model(5000, 0, 3, 1), model(5000, 0, 1, 3), model(10000, .2), model(9000, .6), model(12000, .5), model(20000, 0, lon=100)]
        for ri in REG:
            for rj in REG:
                ctx = I.base_ctx.copy()
                i = region(ctx, 'n:i', sub(na, ONE), ri)
                j = region(ctx, 'n:j', sub(nb, ONE), rj)
                PR.CUR.append(ctx)
                nm = '%s[%s,%s]' % (tag, ri, rj)
                try:
                    compare(r, nm, I.elem(sc.ret, (i, j)), Fs.area(i, j), ctx, ms, 'simplegrid.computegrid.areas')
                except Unresolvable as e:
                    r.und(nm, str(e))
                finally:
                    PR.CUR.pop()

    def end(r, cf, names, models):
        case = cf(r)
        fields_of(case, names, r, regs=('mid',), models=models)

    # the geodesic distance is interpreted on its own, so that both formulas are compared on well-conditioned cells
    def scaled(mk0, ex, ey):
        def mk_(seed, ints):
            M = mk0(seed, ints)

            def d(a, b, c, e):
                ew = abs(a - c) > abs(b - e)
                return (ex if ew else ey) * (1 + .02 * h01(seed, 'd', round(a + c, 6), round(b + e, 6)))
            M.fn['dist'] = d
            return M
        return mk_
    pairs = [(3000, 3000), (8500, 8500), (12500, 12500), (7000, 14000), (14000, 7000), (60000, 50000)]
    g0 = geo_models()[0]
    ms = [scaled(lambda s, k: _square(s, k), *p) for p in pairs]
    mesh = [scaled(lambda s, k: field_model(s, k, 20, 10, 5, 4), *p) for p in pairs]
    ps = [('areas', lambda r: direct(r, 'areas')),
          ('mkgrid RAC', lambda r: end(r, MK[1], ('RAC',), ms)),
          ('regrid RAC', lambda r: end(r, RG(0)[1], ('RAC',), mesh))]
    parallel(rep, ps)


# ------------------------------------------------------------------ C04
def C04(rep):
    from . import tiles as TL

    def grid(r, cf, strict=FALSE):
        tag, sc, g, ni, nj, D, ms = cf(r)
        if g is None:
            return
        shape_obligations(r, sc.I, g[0], ni, nj, tag)
        eq_terms(r, tag + 'returned cell counts', (sc.I.scalar(g[1]) if isinstance(g[1], Arr) else g[1], sc.I.scalar(g[2]) if isinstance(g[2], Arr) else g[2]), (ni, nj), sc.I.base_ctx,
                 'simplegrid.%s' % tag.split(' ')[0].split('(')[0]) if all(isterm(x) or isinstance(x, Arr) for x in g[1:]) else r.und(tag + 'returned cell counts', repr(g[1:]))

    def fringe(r, ea, eb):
        pn = 'addfringe %s-%s: ' % (TL.EDGE[ea], TL.EDGE[eb])
        P = TL.Pair(ea, eb)
        sc = P.run(r)
        g = TL.unpack_fringe(r, sc, pn)
        if g is not None:
            shape_obligations(r, sc.I, g[2], P.na[0], P.na[1], pn)

    def join(r, ea, eb):
        pn = 'stitch %s-%s: ' % (TL.EDGE[ea], TL.EDGE[eb])
        P, sc = TL.run_stitch(r, ea, eb)
        g = unpack_grid(r, sc, pn)
        if g is not None:
            ni, nj = TL.joined_counts(P)
            shape_obligations(r, sc.I, g[0], ni, nj, pn)
            eq_terms(r, pn + 'returned cell counts', tuple(g[1:]), (ni, nj), sc.I.base_ctx, 'simplegrid.stitch.stitch')
    ps = [('mkgrid', lambda r: grid(r, MK[1]))]
    ps += [('regrid %s %d' % (s, k), lambda r, k=k, s=s: grid(r, RG(k, s)[1])) for k in range(4) for s in ('matrices', 'file')]
    ps += [('addfringe %d' % a, lambda r, a=a, b=b: fringe(r, a, b)) for a, b in TL.PAIRS]
    ps += [('stitch %d' % a, lambda r, a=a, b=b: join(r, a, b)) for a, b in TL.PAIRS]
    parallel(rep, ps)
