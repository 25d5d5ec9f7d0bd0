"""Reference value terms of the grid algebra (the oracle side of the comparisons)."""
from .common import *

NAMES = ('XC', 'YC', 'DXF', 'DYF', 'RAC', 'XG', 'YG', 'DXV', 'DYU', 'RAZ', 'DXC', 'DYC', 'RAW', 'RAS', 'DXG', 'DYG')
# staggering: extra points in i, j
DI = dict(XC=0, YC=0, DXF=0, DYF=0, RAC=0, XG=1, YG=1, DXV=1, DYU=1, RAZ=1, DXC=1, DYC=0, RAW=1, RAS=0, DXG=0, DYG=1)
DJ = dict(XC=0, YC=0, DXF=0, DYF=0, RAC=0, XG=1, YG=1, DXV=1, DYU=1, RAZ=1, DXC=0, DYC=1, RAW=0, RAS=1, DXG=1, DYG=0)
# position of the centre of each field's entry (0,0) on the doubled-resolution grid of the region
LOC = {n: (1 - DI[n], 1 - DJ[n]) for n in NAMES}
LEN_X = ('DXG', 'DXC', 'DXV', 'DXF')
LEN_Y = ('DYG', 'DYC', 'DYU', 'DYF')
AREA = ('RAC', 'RAZ', 'RAW', 'RAS')
# fields whose first/last row (i) or column (j) would need data outside the region
FRINGE_I = ('DXC', 'DXV', 'RAW', 'RAZ')
FRINGE_J = ('DYC', 'DYU', 'RAS', 'RAZ')

R = sym('f:R')


def dist(lon1, lat1, lon2, lat2):
    p, q = sorted([(lon1, lat1), (lon2, lat2)], key=lambda t: (t[0].id, t[1].id))
    return atom(mk('app', 'dist', p[0], p[1], q[0], q[1]))


def npts(c, lon1, lat1, lon2, lat2, n, k):
    return atom(mk('app', 'npts_' + c, lon1, lat1, lon2, lat2, n, k))


def shift(lon, allpos):
    """0..360 convention: allpos is the condition that no defining longitude is negative"""
    neg_ = lt0(lon)
    return ite(land(allpos, neg_), add(lon, num(360)), lon)


class Doubled:
    """doubled-resolution grid of a region: corner points every (p,q) steps, a in 0..NA, b in 0..NB"""

    def __init__(self, CX, CY, p, q, na, nb, allpos):
        self.CX, self.CY, self.p, self.q, self.na, self.nb, self.allpos = CX, CY, p, q, na, nb, allpos
        self.NA = mul(p, na)
        self.NB = mul(q, nb)

    def row(self, a, kb):
        """point at position a of the x direction on corner line kb"""
        p = self.p
        ka = fdiv(a, p)
        r = sub(a, mul(ka, p))
        on = eq0(r)
        args = (self.CX(ka, kb), self.CY(ka, kb), self.CX(add(ka, ONE), kb), self.CY(add(ka, ONE), kb), sub(p, ONE), sub(r, ONE))
        return ite(on, self.CX(ka, kb), shift(npts('lon', *args), self.allpos)), ite(on, self.CY(ka, kb), npts('lat', *args))

    def pt(self, a, b):
        q = self.q
        kb = fdiv(b, q)
        r = sub(b, mul(kb, q))
        on = eq0(r)
        x0, y0 = self.row(a, kb)
        if on is TRUE:
            return x0, y0
        x1, y1 = self.row(a, add(kb, ONE))
        args = (x0, y0, x1, y1, sub(q, ONE), sub(r, ONE))
        return ite(on, x0, shift(npts('lon', *args), self.allpos)), ite(on, y0, npts('lat', *args))


def cart(p):
    lon, lat = app('radians', p[0]), app('radians', p[1])
    return (mul(app('cos', lon), app('cos', lat)), mul(app('sin', lon), app('cos', lat)), app('sin', lat))


def dot3(a, b):
    return add(*[mul(x, y) for x, y in zip(a, b)])


def cross3(a, b):
    return (sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0])))


def sub3(a, b):
    return tuple(sub(x, y) for x, y in zip(a, b))


def excess(a, b, c):
    ca, cb, cc = dot3(b, c), dot3(a, c), dot3(a, b)
    s = lambda x: app('sin', app('arccos', x))
    sa, sb, sc = s(ca), s(cb), s(cc)
    ang = lambda x, y, z, sy, sz: app('arccos', div(sub(x, mul(y, z)), mul(sy, sz)))
    return sub(add(ang(ca, cb, cc, sb, sc), ang(cb, ca, cc, sa, sc), ang(cc, ca, cb, sa, sb)), app('pi'))


def quad_sph(P):
    a, b, c, d = P
    return add(excess(a, b, c), excess(a, c, d))


def quad_planar(P):
    a, b, c, d = P
    ab, ac, ad = sub3(b, a), sub3(c, a), sub3(d, a)
    n = tuple(add(x, y) for x, y in zip(cross3(ab, ac), cross3(ac, ad)))
    return mul(num(F(1, 2)), app('sqrt', dot3(n, n)))


class Fields:
    """fields of the grid whose doubled-resolution points are pt(a,b), 0<=a<=NA, 0<=b<=NB"""

    def __init__(self, pt, NA, NB, planar=None):
        self.pt, self.NA, self.NB = pt, NA, NB
        self._planar = planar

    def ex(self, a, b):
        return dist(*self.pt(a, b), *self.pt(add(a, ONE), b))

    def ey(self, a, b):
        return dist(*self.pt(a, b), *self.pt(a, add(b, ONE)))

    def corners(self, a, b):
        return [cart(self.pt(x, y)) for x, y in ((a, b), (add(a, ONE), b), (add(a, ONE), add(b, ONE)), (a, add(b, ONE)))]

    def planar(self):
        if self._planar is None:
            def mean(f, n1, n2):
                v, w = var('a'), var('b')
                c = cur().copy()
                c.bound(v, ZERO, sub(n1, ONE))
                c.bound(w, ZERO, sub(n2, ONE))
                PR.CUR.append(c)
                try:
                    body = f(atom(v), atom(w))
                finally:
                    PR.CUR.pop()
                return div(atom(mk('app', 'sum', v, n1, atom(mk('app', 'sum', w, n2, body)))), mul(n1, n2))
            mx = mean(self.ex, self.NA, add(self.NB, ONE))
            my = mean(self.ey, add(self.NA, ONE), self.NB)
            self._planar = land(lt(mx, num(10000)), lt(my, num(10000)))
        return self._planar

    def area(self, a, b):
        P = self.corners(a, b)
        return mul(R, R, ite(self.planar(), quad_planar(P), quad_sph(P)))

    def field(self, name, i, j):
        li, lj = LOC[name]
        a, b = add(mul(TWO, i), num(li)), add(mul(TWO, j), num(lj))
        if name in ('XC', 'XG'):
            return self.pt(a, b)[0]
        if name in ('YC', 'YG'):
            return self.pt(a, b)[1]
        edge = FALSE
        if name in FRINGE_I:
            edge = lor(edge, eq0(a), eq(a, self.NA))
        if name in FRINGE_J:
            edge = lor(edge, eq0(b), eq(b, self.NB))
        d = decide(edge)
        if d is True:
            return ZERO
        m1 = lambda x: sub(x, ONE)
        if name in LEN_X:
            v = add(self.ex(m1(a), b), self.ex(a, b))
        elif name in LEN_Y:
            v = add(self.ey(a, m1(b)), self.ey(a, b))
        else:
            v = add(self.area(m1(a), m1(b)), self.area(a, m1(b)), self.area(m1(a), b), self.area(a, b))
        return v if d is False else ite(edge, ZERO, v)


def shape_of(name, ni, nj):
    return add(ni, num(DI[name])), add(nj, num(DJ[name]))


REG = ('first', 'mid', 'last')


def only_arrays(rep, nm, v, I, models, site=''):
    """a value that is an array in some cases: the other cases must not occur"""
    alts = []

    def go(x, c):
        if isinstance(x, Choice):
            go(x.a, land(c, x.c))
            go(x.b, land(c, lnot(x.c)))
        else:
            alts.append((c, x))
    go(v, TRUE)
    good = [x for c, x in alts if isinstance(x, Arr)]
    if not good or any(isinstance(x, Unk) for c, x in alts):
        return v
    for c, x in alts:
        if not isinstance(x, Arr):
            if compare(rep, nm + ' is an array', ite(c, ONE, ZERO), ZERO, I.base_ctx, models, site) != 'ok':
                return v
    if all(x is good[0] for x in good):
        return good[0]
    return v


def elem_obligations(rep, I, arrs, specf, names, ni, nj, models, tag='', facts=None, regs=REG, rtol=1e-9, sites=None, differs=None):
    """for each field and each region representative compare the derived element with the specification"""
    for n in names:
        a = arrs.get(n)
        if isinstance(a, Choice):
            a = only_arrays(rep, '%s%s' % (tag, n), a, I, models, sites(n) if sites else '')
        for ri in regs:
            for rj in regs:
                nm = '%s%s[%s,%s]' % (tag, n, ri, rj)
                if not isinstance(a, Arr) or a.ndim != 2:
                    if isinstance(a, (Unk, Choice)) or a is None and False:
                        rep.und(nm, 'field value not derived: %r' % (a,))
                    else:
                        rep.bad(nm, 'field is %r, not a matrix' % (a,))
                    continue
                ctx = I.base_ctx.copy()
                si, sj = shape_of(n, ni, nj)
                i = region(ctx, 'n:i', si, ri)
                j = region(ctx, 'n:j', sj, rj)
                if facts:
                    facts(ctx)
                PR.CUR.append(ctx)
                try:
                    code = I.elem(a, (i, j))
                    spec = specf(n, i, j)
                    compare(rep, nm, code, spec, ctx, models, site=sites(n) if sites else '', rtol=rtol, differs=differs)
                except Unresolvable as e:
                    rep.und(nm, str(e))
                finally:
                    PR.CUR.pop()


def shape_obligations(rep, I, arrs, ni, nj, tag=''):
    for n in NAMES:
        a = arrs.get(n, UNDEF)
        nm = '%sshape of %s' % (tag, n)
        if not isinstance(a, Arr):
            if isinstance(a, (Unk, Choice)):
                rep.und(nm, repr(a))
            else:
                rep.bad(nm, 'field missing (value %r)' % (a,))
            continue
        want = shape_of(n, ni, nj)
        eq_terms(rep, nm, tuple(a.shape), want, I.base_ctx)
    extra = [k for k in arrs if k not in NAMES]
    if extra:
        rep.bad(tag + 'no other fields', 'unexpected fields %r' % (extra,))


def eq_terms(rep, nm, got, want, ctx, site=''):
    if len(got) != len(want):
        return rep.bad(nm, 'has %d dimensions, required %d' % (len(got), len(want)), site)
    PR.CUR.append(ctx)
    try:
        for g, w in zip(got, want):
            if g is w:
                continue
            try:
                g2, _ = resolve(g, ctx)
                w2, _ = resolve(w, ctx)
            except Unresolvable as e:
                return rep.und(nm, str(e))
            if g2 is w2 or decide(eq(g2, w2), ctx) is True:
                continue
            op = opaque(g2)
            if op:
                return rep.und(nm, op)
            rng = random.Random(nm)
            for k in range(6):
                ints = sample(ctx, int_syms(g2, w2) | ctx_syms(ctx), rng)
                if ints is None:
                    continue
                M = Model(k, ints)
                try:
                    x, y = M.num(g2), M.num(w2)
                except EvalError:
                    continue
                if x != y:
                    return rep.bad(nm, '%s, required %s (at %s: %s vs %s)' % (show(g2), show(w2), ints, x, y), site)
            else:
                continue
    finally:
        PR.CUR.pop()
    return rep.ok(nm, 'index algebra')
