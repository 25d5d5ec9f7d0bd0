"""Scenarios for mkgrid / regrid and the obligations on their results."""
from .gridspec import *


def geo_free(key):
    """corner arguments may be any longitude and latitude"""
    if key[0] == 'sym' and 'lon' in key[1]:
        return (-179., 539.)
    if key[0] == 'sym' and 'lat' in key[1]:
        return (-89., 89.)
    return None


def mesh_free(key):
    if key[0] == 'in':
        base = str(key[1]).split(':')[-1]
        if base in ('XG', 'XC') or base.endswith('lon'):
            return (-179., 539.)
        if base in ('YG', 'YC') or base.endswith('lat'):
            return (-89., 89.)
    return None


def geo_models(kind='lonlat', small=False):
    """random models of longitudes/latitudes for scalar corner arguments lon1.. lat2"""
    out = []

    def box(lo1, lo2, la1, la2):
        def mk_(seed, ints):
            r = random.Random(seed)
            s = dict(ints)
            j = lambda x: x and x + r.uniform(-.2, .2) * (0.01 if small else 1)
            s.update({'f:lon1': j(lo1), 'f:lon2': j(lo2), 'f:lat1': j(la1), 'f:lat2': j(la2)})
            M = Model(seed, s)
            M.free = geo_free
            return M
        out.append(mk_)
    box(20, 45, 30, 10)
    box(-30, 12, 40, 15)
    box(170, 200, 20, -12)          # crosses the date line, 0..360 convention
    box(-20, -60, -30, 25)
    box(.7, 40, 21, 60)
    box(14, -33, 35, 12)            # longitude decreasing, only the second corner west of Greenwich
    box(190, 230, 25, -10)          # west of Greenwich throughout, 0..360 convention
    box(0, 185, -20, 40)            # a corner on Greenwich and a path over the date line
    if small:
        box(10, 70, 40.3, 40.25)    # cells wide in longitude, narrow in latitude
        box(10, 10.03, 50, -20)     # and the other way round
        box(30.0, 30.06, 20.05, 20.0)
    return out


def run_mkgrid(rep, verbose=FALSE, overrides=None):
    sc = Scenario(rep, overrides)
    ns, ms = isym('n:ls', 1), isym('n:ms', 1)
    sc.ns, sc.ms = ns, ms
    sc.lon = (sym('f:' + EPOCH[0] + 'lon1'), sym('f:' + EPOCH[0] + 'lon2'))
    sc.lat = (sym('f:' + EPOCH[0] + 'lat1'), sym('f:' + EPOCH[0] + 'lat2'))
    sc.call('simplegrid.mkgrid', 'mkgrid', [], dict(
        lon1=sc.lon[0], lat1=sc.lat[0], lon2=sc.lon[1], lat2=sc.lat[1], lon_subscale=ns, lat_subscale=ms, verbose=verbose))
    return sc


def mk_double(sc):
    """specification of the created grid: one coarse cell between the two corners"""
    lon1, lon2 = sc.lon
    lat1, lat2 = sc.lat

    def CX(ka, kb):
        return ite(eq0(ka), lon1, lon2)

    def CY(ka, kb):
        return ite(eq0(kb), lat2, lat1)
    allpos = lnot(lor(lt0(lon1), lt0(lon2)))
    return Doubled(CX, CY, mul(TWO, sc.ns), mul(TWO, sc.ms), ONE, ONE, allpos)


def unpack_grid(rep, sc, tag):
    r = sc.ret
    if sc.error:
        rep.und(tag + 'analysis', sc.error)
        return None
    if r is DEAD:
        rep.bad(tag + 'returns', 'every path raises')
        return None
    if not isinstance(r, tuple) or len(r) != 3 or not isinstance(r[0], DictRef):
        if isinstance(r, (Unk, Choice)):
            rep.und(tag + 'returns', repr(r))
        else:
            rep.bad(tag + 'returns', 'result is %r, not (grid, ni, nj)' % (r,))
        return None
    return dict_of(sc.I, r[0]), r[1], r[2]


# --------------------------------------------------------------------------- regrid
def rot_index(i, j, n0, n1, k):
    """index (i,j) in a (n0,n1) matrix, after k counter-clockwise quarter turns"""
    for _ in range(k % 4):
        i, j = sub(sub(n1, ONE), j), i
        n0, n1 = n1, n0
    return i, j, n0, n1


class RegridCase:
    """source grid whose region needs exactly k quarter turns; sizes symbolic"""

    def __init__(self, k, src='matrices', deg=None, swap=False):
        self.k, self.src, self.deg = k, src, deg
        s = lambda n, lo: isym('n:' + n, lo)
        self.il, self.jl, self.ri, self.rj = s('il', 0), s('jl', 0), s('ri', 0), s('rj', 0)
        self.di = ZERO if deg in ('row', 'both') else s('di', 1)
        self.dj = ZERO if deg in ('col', 'both') else s('dj', 1)
        self.ls, self.ms = s('ls', 1), s('ms', 1)
        if deg:
            self.ri, self.rj = s('ri', 1), s('rj', 1)
        # frame k (rotated)
        self.N0 = add(self.il, self.di, self.ri, ONE)
        self.N1 = add(self.jl, self.dj, self.rj, ONE)
        self.p1 = (self.il, add(self.jl, self.dj))
        self.p2 = (add(self.il, self.di), self.jl)
        _, _, self.n0, self.n1 = rot_index(ZERO, ZERO, self.N0, self.N1, (4 - k) % 4)
        self.ni, self.nj = sub(self.n0, ONE), sub(self.n1, ONE)
        self.lon = (sym('f:' + EPOCH[0] + 'lon1'), sym('f:' + EPOCH[0] + 'lon2'))
        self.lat = (sym('f:' + EPOCH[0] + 'lat1'), sym('f:' + EPOCH[0] + 'lat2'))
        self.bad = []
        self.rounds = []

    def orig_of(self, a, b):
        """original source index of rotated-frame index"""
        i, j, _, _ = rot_index(a, b, self.N0, self.N1, (4 - self.k) % 4)
        return i, j

    def src_elem(self, f, a, b):
        i, j = self.orig_of(a, b)
        return self.base(f, i, j)

    def base(self, f, i, j):
        """entry (i,j) of a field of the source grid"""
        return atom(mk('app', 'in', EPOCH[0] + f, i, j))

    def frame_shape(self, m):
        return (self.n0, self.n1) if m % 2 == 0 else (self.n1, self.n0)

    def classify(self, I, arr):
        """which rotation of which source field is this matrix? -> set of (field, turns)"""
        if not isinstance(arr, Arr) or arr.ndim != 2:
            return None
        ctx = I.base_ctx.copy()
        a, b = isym('n:qa'), isym('n:qb')
        ctx.bound(a, ZERO, sub(arr.shape[0], ONE))
        ctx.bound(b, ZERO, sub(arr.shape[1], ONE))
        PR.CUR.append(ctx)
        try:
            t, _ = resolve(I.elem(arr, (a, b)), ctx)
        except Unresolvable:
            return None
        finally:
            PR.CUR.pop()
        out = set()
        for m in range(4):
            h, w = self.frame_shape(m)
            if sub(arr.shape[0], h).args or sub(arr.shape[1], w).args:
                continue
            i, j, _, _ = rot_index(a, b, h, w, (4 - m) % 4)
            for f in NAMES:
                try:
                    if t is self.base(f, i, j):
                        out.add((f, m))
                except KeyError:
                    pass
        return out if out else (None if opaque(t) else {('?' + show(t), 0)})

    def nearest(self, I, env, node):
        lon, lat, lons, lats = (env.get(x) for x in ('lon', 'lat', 'lons', 'lats'))
        cx, cy = self.classify(I, lons), self.classify(I, lats)
        sc = lambda v: I.scalar(v) if isinstance(v, Arr) and v.ndim == 0 else v
        lon, lat = sc(lon), sc(lat)
        which = [k for k in (0, 1) if lon is self.lon[k] and lat is self.lat[k]]
        if cx is None or cy is None:
            raise Unsupported('search matrices not resolved', node)
        mx = {m for f, m in cx if f == 'XG'}
        my = {m for f, m in cy if f == 'YG'}
        site = I.site(node)
        if not (mx & my):
            self.bad.append(('search matrices are the source corner longitudes and latitudes with the same quarter turns',
                             'longitudes searched: %s, latitudes searched: %s (field, quarter turns)' % (sorted(cx), sorted(cy)), site))
            raise Unsupported('nearest called on other matrices', node)
        m = min(mx & my)
        if not which:
            self.bad.append(('search origin is one of the two given corners', 'searches for (%s, %s)' % (show(lon), show(lat)), site))
            raise Unsupported('nearest called for another point', node)
        p = (self.p1, self.p2)[which[0]]
        i, j, _, _ = rot_index(p[0], p[1], self.N0, self.N1, (m - self.k) % 4)
        self.rounds.append((which[0], m))
        g = env.get('geod')
        return (i, j, sym('f:nearest_dist%d' % which[0]))

    def grid(self, I, owner=None):
        d = {}
        for n in NAMES:
            sh = (add(self.ni, num(DI[n])), add(self.nj, num(DJ[n])))
            d[n] = I.new_arr(sh, Inp(n), owner=owner and "%s['%s']" % (owner, n))
        r = I.mkdict(d)
        if owner:
            I.owner[r.oid] = owner
        return r

    def run(self, rep, verbose=FALSE, strict=FALSE, extra=None, overrides=None):
        ov = {('simplegrid.util', 'nearest'): self.nearest,
              ('simplegrid.gridio', 'read_mitgridfile'): self.read}
        ov.update(overrides or {})
        self.reads = []
        sc = Scenario(rep, ov)
        I = sc.I
        kw = dict(lon1=self.lon[0], lat1=self.lat[0], lon2=self.lon[1], lat2=self.lat[1], lon_subscale=self.ls, lat_subscale=self.ms,
                  strict=strict, verbose=verbose)
        if self.src == 'matrices':
            kw['mitgrid_matrices'] = self.grid(I, 'the mitgrid_matrices argument')
        elif self.src == 'file':
            kw.update(mitgridfile=sstr(('sym', 'mitgridfile')), ni=self.ni, nj=self.nj)
        kw.update(extra(I, self) if extra else {})
        sc.call('simplegrid.regrid', 'regrid', [], kw)
        sc.case = self
        return sc

    def read(self, I, env, node):
        self.reads.append((env, I.site(node)))
        return self.grid(I)

    def double(self):
        CX = lambda ka, kb: self.src_elem('XG', add(self.il, ka), add(self.jl, kb))
        CY = lambda ka, kb: self.src_elem('YG', add(self.il, ka), add(self.jl, kb))
        v, w = var('p'), var('q')
        anyneg = exists(v, add(self.di, ONE), exists(w, add(self.dj, ONE), lt0(CX(atom(v), atom(w)))))
        return Doubled(CX, CY, mul(TWO, self.ls), mul(TWO, self.ms), self.di, self.dj, lnot(anyneg))

    @property
    def oni(self):
        return mul(self.di, self.ls)

    @property
    def onj(self):
        return mul(self.dj, self.ms)


def field_model(seed, ints, lon0, lat0, dlon, dlat, neg_at=None, extra=None, hook=None):
    """random model where source longitudes/latitudes form a distorted but plausible mesh"""
    def inp(name, *ix):
        base = str(name).split(':')[-1]
        u = h01(seed, name, *ix)
        if base in ('XG', 'XC') or base.endswith('lon'):
            if neg_at is not None and len(ix) == 2 and h01(seed, 'neg', *ix) < neg_at:
                return -3.0 - 5 * u
            return lon0 + (dlon * (ix[0] + .3 * ix[1]) if len(ix) == 2 else 0) + dlon * .2 * u
        if base in ('YG', 'YC') or base.endswith('lat'):
            return lat0 + (dlat * (ix[1] - .2 * ix[0]) if len(ix) == 2 else 0) + dlat * .2 * u
        return None if hook is None else hook(seed, name, *ix)
    M = Model(seed, ints, inp)
    M.free = mesh_free
    return M


def mesh_models(small=False):
    out = [lambda s, k: field_model(s, k, 20, 10, 5, 4),
           lambda s, k: field_model(s, k, -80, -30, 6, 5),
           lambda s, k: field_model(s, k, 163, -30, 4, -6),          # crosses the date line, all positive
           lambda s, k: field_model(s, k, 30, 20, 5, 4, neg_at=.15),
           lambda s, k: field_model(s, k, -4, 12, 5, 4),             # west of Greenwich only near the first row
           lambda s, k: field_model(s, k, 16, 12, -5, 4)]            # ... only near the last rows
    if small:
        out.append(lambda s, k: field_model(s, k, 20, 40, .02, .02))
        out.append(lambda s, k: field_model(s, k, 20, 10, 5, .02))
        out.append(lambda s, k: field_model(s, k, 20, 10, .02, 5))
    return out


from sgflow.eval import h01    # noqa
