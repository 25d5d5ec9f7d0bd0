"""C16, C17: nearest-point search and coordinate conversion."""
from .gridspec import *

GEOD = lambda: ObjV('geod', {'ellps': 'sphere', 'a': R})


def run_nearest(rep, setup=None):
    sc = Scenario(rep)
    I = sc.I
    sc.na, sc.nb = isym('n:na', 1), isym('n:nb', 1)
    xg, yg = I.new_arr((sc.na, sc.nb), Inp('lons'), 'f8', 'the lons argument'), I.new_arr((sc.na, sc.nb), Inp('lats'), 'f8', 'the lats argument')
    sc.call('simplegrid.util', 'nearest', [sym('f:lon'), sym('f:lat'), xg, yg, GEOD()])
    return sc


def C16(rep):
    sc = run_nearest(rep)
    I = sc.I
    if sc.error:
        return rep.und('analysis', sc.error)
    if sc.ret is DEAD:
        return rep.bad('search returns', 'every path raises', 'simplegrid.util.nearest')
    if not isinstance(sc.ret, tuple) or len(sc.ret) != 3:
        if isinstance(sc.ret, (Unk, Choice)):
            return rep.und('result', repr(sc.ret))
        return rep.bad('result is (row, column, distance)', 'returns %r' % (sc.ret,), 'simplegrid.util.nearest')
    out = []
    for x in sc.ret:
        if isinstance(x, Arr) and x.ndim == 0:
            x = I.scalar(x)
        if not isterm(x):
            return rep.und('result', 'component %r' % (x,))
        op = opaque(x)
        if op:
            return rep.und('result', op)
        out.append(x)
    site = 'simplegrid.util.nearest'
    rng = random.Random(SEED)
    kinds = {'row and column are those of the smallest distance': 0, 'distance is the smallest distance': 0}
    bad = {}
    und = None
    sizes = [(1, 1), (1, 4), (4, 1), (2, 3), (4, 3), (5, 5)] + ([(7, 4), (3, 8)] if TIER == 'thorough' else [])
    for na, nb in sizes:
        for t in [(i, j) for i in range(na) for j in range(nb)] + [None] * 3 + ['near'] * (12 if na * nb > 1 else 0):
            seed = rng.randint(0, 10 ** 9)
            wide = t is None
            near = t == 'near'          # distances to the point over ten orders of magnitude
            flip = seed % 3
            lo, hi = [(-8., 1.), (-7., -4.), (-5., -2.)][seed % 3]
            off = lambda *k: 10 ** (lo + (hi - lo) * h01(seed, *k)) * (1 if h01(seed, 'sg', *k) < .5 else -1)

            def lon(i, j):
                return 33 + off('lon', i, j) if near else -170 + 340 * h01(seed, 'lon', i, j) if wide else 20 + 4 * (i if flip else j) + h01(seed, 'lon', i, j)

            def lat(i, j):
                return 21 + off('lat', i, j) if near else -80 + 160 * h01(seed, 'lat', i, j) if wide else 10 + 3 * (j if flip else i) + h01(seed, 'lat', i, j)
            q = (33., 21.) if near else (-170 + 340 * h01(seed, 'q'), -80 + 160 * h01(seed, 'q2')) if wide else (lon(*t) + .01, lat(*t) - .02)

            def inp(name, i, j):
                return lon(i, j) if str(name).endswith('lons') else lat(i, j)
            M = Model(seed, {'n:na': na, 'n:nb': nb, 'f:lon': q[0], 'f:lat': q[1]}, inp)
            from sgflow.eval import gc_dist
            ds = {(i, j): gc_dist(q[0], q[1], lon(i, j), lat(i, j)) for i in range(na) for j in range(nb)}
            best = min(ds, key=ds.get)
            try:
                i, j, d = (M.num(x) for x in out)
            except EvalError as e:
                und = str(e)
                continue
            rep.models += 1
            inst = 'for a %dx%d matrix whose nearest entry is %s at %.1f m' % (na, nb, best, ds[best])
            if not ((int(i), int(j)) in ds and i == int(i) and j == int(j) and close(ds[(int(i), int(j))], ds[best])):
                bad.setdefault('row and column are those of the smallest distance', '%s, row %s and column %s are returned' % (inst, i, j))
            elif not close(d, ds[best]):
                bad.setdefault('distance is the smallest distance', '%s, distance %s is returned' % (inst, d))
            for k in kinds:
                kinds[k] += 1
    for k, n in kinds.items():
        if k in bad:
            rep.bad(k, bad[k], site)
        elif n >= 10:
            rep.ok(k, 'random interpretation (%d models)' % n)
        else:
            rep.und(k, und or 'no model')


SHAPES = [((3, 4), (3, 4), True), ((3, 4), (4, 3), False), ((3, 4), (3, 5), False), ((2, 4), (3, 4), False), ((4,), (4,), False), ((3, 4), (4,), False),
          ((4,), (3, 4), False), ((2, 3, 4), (2, 3, 4), False), ((2, 3, 4), (3, 4), False), ((3, 4), (2, 3, 4), False), ((2, 6), (3, 4), False),
          ((3, 4), (3, 1), False), ((1, 4), (3, 4), False), ((3, 4), (1, 4), False), ((1, 1), (1, 1), True), ((12,), (3, 4), False), ((1, 3), (3, 1), False), ((), (), False)]


def C17(rep):
    def one(fn, args):
        for sa, sb, ok in SHAPES:
            sc = Scenario(rep)
            I = sc.I
            x, y = (I.new_arr(tuple(num(k) for k in s), Inp(nm), 'f8') for s, nm in ((sa, 'lons'), (sb, 'lats')))
            sc.call('simplegrid.util', fn, args(x, y))
            judge(fn, sc, sa, sb, ok)
        # symbolic sizes
        for ok, nm in ((True, 'any equal sizes'), (False, 'different numbers of rows'), (False, 'different numbers of columns')):
            sc = Scenario(rep)
            I = sc.I
            na, nb, d = isym('n:na', 1), isym('n:nb', 1), isym('n:d', 1)
            s2 = (na, nb) if ok else ((add(na, d), nb) if 'rows' in nm else (na, add(nb, d)))
            x, y = I.new_arr((na, nb), Inp('lons'), 'f8'), I.new_arr(s2, Inp('lats'), 'f8')
            sc.call('simplegrid.util', fn, args(x, y))
            judge(fn, sc, nm, nm, ok)

    def judge(fn, sc, sa, sb, ok):
        ev = sc.events('raise')
        nm = '%s with shapes %s and %s %s' % (fn, sa, sb, 'is accepted' if ok else 'raises ValueError') if sa != sb or isinstance(sa, tuple) else '%s with %s %s' % (fn, sa, 'is accepted' if ok else 'raises ValueError')
        site = 'simplegrid.util.' + fn
        if ok:
            if sc.ret is DEAD and not sc.error:
                return rep.bad(nm, 'raises %s' % [e.data[0] for e in ev], ev[0].site if ev else site)
            v = [e for e in ev if e.data[0] == 'ValueError' and e.pc is TRUE]
            if v:
                return rep.bad(nm, 'raises ValueError', v[0].site)
            if sc.error:
                return rep.und(nm, sc.error)
            return rep.ok(nm, 'path enumeration')
        # must raise ValueError before any distance or trigonometric computation
        if sc.ret is DEAD and not sc.error and ev and all(e.data[0] == 'ValueError' and not e.data[2] for e in ev):
            return rep.ok(nm, 'path enumeration')
        if sc.error and not ev:
            # computing was started with mismatched shapes
            return rep.bad(nm, 'no ValueError: the computation starts (%s)' % sc.error, site) if 'broadcast' in sc.error or 'index' in sc.error else rep.und(nm, sc.error)
        if sc.ret is DEAD:
            return rep.bad(nm, 'raises %s%s' % ([e.data[0] for e in ev], ' only when the computation runs into it' if ev and ev[0].data[2] else ''), ev[0].site if ev else site)
        rep.bad(nm, 'no ValueError is raised', site)
    one('nearest', lambda x, y: [sym('f:lon'), sym('f:lat'), x, y, GEOD()])
    one('lonlat2cart', lambda x, y: [x, y])
