"""C34: model output assembled from the files of its tiles."""
from .meta import *

SITE = 'simplegrid.mds.rdmds'
NAN_, INF_ = app('nan'), INF
TYPES = {'float32': '>f4', 'float64': '>f8'}


def text_of(t, digits=4):
    v = constval(t)
    return str(int(v)) if v is not None else ('digits', t, digits)


class Run:
    """output of one field: tiles of SX x SY points, `present` of them written, symbolic sizes and contents"""

    def __init__(self, tx=1, ty=1, present=None, core=0, nrec=None, its=None, prec='float32', tiled=True, order=1, other=False):
        self.tx, self.ty, self.tiled, self.prec, self.order = tx, ty, tiled, prec, order
        self.SX, self.SY = isym('n:SX', 1), isym('n:SY', 1)
        self.NX, self.NY = mul(num(tx), self.SX), mul(num(ty), self.SY)
        self.nz = [isym('n:NZ%d' % k, 2) for k in range(core)]
        self.nrec = ONE if nrec is None else isym('n:nrec', 2) if nrec == 'n' else num(nrec)
        self.its = its
        self.other = other
        self.present = [(x, y) for y in range(ty) for x in range(tx)] if present is None else present

    def bounds(self, I):
        for s in (self.SX, self.SY):
            I.base_ctx.bound(single_atom(s), ONE, num(2000))
        for s in self.nz:
            I.base_ctx.bound(single_atom(s), num(4), num(9999))
        if constval(self.nrec) is None:
            I.base_ctx.bound(single_atom(self.nrec), num(4), num(9999))

    def name(self, it, tile, ext):
        t = '.%03d.%03d' % (tile[0] + 1, tile[1] + 1) if self.tiled else ''
        if it is None:
            return sstr(FB, t + ext)
        if constval(it) is not None:
            return sstr(FB, '.%010d' % constval(it) + t + ext)
        return sstr(FB, '.', SStr([('num', it, '010d')]), t + ext)

    def box(self, tile):
        """[(size, first, end)] of every dimension, slowest first"""
        x, y = tile
        return [(n, ZERO, n) for n in self.nz] + [(self.NY, mul(num(y), self.SY), mul(num(y + 1), self.SY)), (self.NX, mul(num(x), self.SX), mul(num(x + 1), self.SX))]

    def metatext(self, it, tile, change=None):
        c = change or {}
        b = self.box(tile)
        ls = [' nDims = [ %d ];\n' % c.get('ndims', len(b)), ' dimList = [\n']
        for n, a, e in reversed(b):
            if c.get('dims') and n is self.NX:
                n = add(n, ONE)
            ls.append(L('  ', text_of(n), ', ', text_of(add(a, ONE)), ', ', text_of(e), ',\n'))
        ls += [' ];\n', " dataprec = [ '%s' ];\n" % c.get('prec', self.prec), L(' nrecords = [ ', text_of(c.get('nrec', self.nrec)), ' ];\n')]
        if it is not None:
            ls.append(L(' timeStepNumber = [ ', text_of(it, 10), ' ];\n'))
        ls += [s for s in c.get('more', ())]
        return ls

    def install(self, I, changed=None, missing=()):
        self.bounds(I)
        files = []
        I.textlines, I.filesizes = {}, {}
        for k, it in enumerate(self.its or [None]):
            for t in self.present:
                if (k, t) in missing:
                    continue
                m, d = self.name(it, t, '.meta'), self.name(it, t, '.data')
                I.textlines[tstr(m)] = self.metatext(it, t, (changed or {}).get((k, t)))
                size = mul(self.nrec, self.SX, self.SY)
                for n in self.nz:
                    size = mul(size, n)
                I.filesizes[tstr(d)] = size
                files += [m, d]
        if self.other:
            # other output in the same directory
            x = isym('n:otherit', 0)
            for nm in (sstr(FB, 'ICE'), sstr(FB, 'ICE.001.001'), sstr(FB, '.tave'), sstr(FB, '2.', SStr([('num', x, '010d')])), sstr(FB, '2.', SStr([('num', x, '010d')]), '.001.001'),
                       *([sstr(FB, '.', SStr([('num', x, '010d')])), sstr(FB, '.', SStr([('num', x, '010d')]), '.001.001')] if not self.its else [FB, sstr(FB, '.001.001')])):
                m, d = sstr(nm, '.meta'), sstr(nm, '.data')
                I.textlines[tstr(m)] = self.metatext(None, (0, 0))
                I.filesizes[tstr(d)] = I.filesizes[list(I.filesizes)[0]] if I.filesizes else ONE
                files += [m, d]
        if self.order < 0:
            files.reverse()
        for x, a in enumerate(self.its or []):
            if constval(a) is None:
                I.base_ctx.bound(single_atom(a), ZERO, num(10 ** 10 - 1))
        I.glob_hook = glob_of(files)

    def value(self, it, r, z, j, i, fill):
        """entry of the global array"""
        out = fill
        for t in reversed(self.present):
            b = self.box(t)
            (_, j0, je), (_, i0, ie) = b[-2:]
            k = r
            for n, x in zip(self.nz, z):
                k = add(mul(k, n), x)
            k = add(mul(add(mul(k, self.SY), sub(j, j0)), self.SX), sub(i, i0))
            v = atom(mk('app', 'file', tstr(self.name(it, t, '.data')), T.string(TYPES[self.prec]), k))
            out = ite(land(lnot(lt0(sub(i, i0))), lt(i, ie), lnot(lt0(sub(j, j0))), lt(j, je)), v, out)
        return out


class Mapped(Run):
    """tiles written to a global array by strides: the point (j, i) of a tile is at the flat position
    (y0 + j * map2glob[1]) * NX + x0 + i + j * map2glob[0] of the horizontal array.
    faces: (tiles along a row, tiles along a column) of each face of the domain"""

    def __init__(self, layout, faces, w=1, present=None, **kw):
        Run.__init__(self, **kw)
        self.layout, self.faces, self.w = layout, faces, w
        self.at0, self.maps = [], []
        pos = ZERO
        if layout == 'skew':
            # rows of the tiles of a row of tiles follow each other with a shift
            (tx, ty), = faces
            self.NX, self.NY = mul(num(tx), self.SX), mul(num(w + 1), self.SY)
            self.shift = isym('n:shift', 1)
            faces, self.at0, self.maps = [(tx, 1)], [ZERO], [(self.shift, num(w))]
        for tx, ty in faces if layout != 'skew' else ():
            self.at0.append(pos)
            wd, ht = mul(num(tx), self.SX), mul(num(ty), self.SY)
            if layout == 'line':
                # all faces in one long line; the rows of a face follow each other
                self.maps.append((wd, ZERO))
                pos = add(pos, mul(wd, ht))
            else:
                # faces stacked in an array of w tiles width; a row of a face takes tx / w rows
                self.maps.append((ZERO, num(tx // w)))
                pos = add(pos, mul(num(tx // w), ht))
        if layout != 'skew':
            self.NX, self.NY = (pos, ONE) if layout == 'line' else (mul(num(w), self.SX), pos)
        self.present = [(x, y, f) for f, (tx, ty) in enumerate(faces) for y in range(ty) for x in range(tx)]
        self.number = {t: n for n, t in enumerate(self.present)}
        if present:
            self.present = [self.present[n] for n in present]

    def bounds(self, I):
        Run.bounds(self, I)
        if self.layout == 'skew':
            I.base_ctx.bound(single_atom(self.shift), ONE, self.NX)

    def name(self, it, tile, ext):
        return Run.name(self, it, (self.number[tile], 0), ext)

    def corner(self, tile):
        x, y, f = tile
        mi, mj = self.maps[f]
        if self.layout == 'skew':
            return ZERO, mul(num(x), self.SX)
        if self.layout == 'line':
            return ZERO, add(self.at0[f], mul(num(y), self.SY, mi), mul(num(x), self.SX))
        return add(self.at0[f], mul(mj, num(y), self.SY), num(x // self.w)), mul(num(x % self.w), self.SX)

    def box(self, tile):
        y0, x0 = self.corner(tile)
        return [(n, ZERO, n) for n in self.nz] + [(self.NY, y0, add(y0, self.SY)), (self.NX, x0, add(x0, self.SX))]

    def metatext(self, it, tile, change=None):
        c = dict(change or {})
        c['more'] = [L(' map2glob = [ ', text_of(self.maps[tile[2]][0], 9), ', ', text_of(self.maps[tile[2]][1], 9), ' ];\n')] + list(c.get('more', ()))
        return Run.metatext(self, it, tile, c)

    def point(self, it, r, z, tile, jj, ii):
        k = r
        for n, x in zip(self.nz, z):
            k = add(mul(k, n), x)
        k = add(mul(add(mul(k, self.SY), jj), self.SX), ii)
        return atom(mk('app', 'file', tstr(self.name(it, tile, '.data')), T.string(TYPES[self.prec]), k))

    def value(self, it, r, z, j, i, fill):
        out = fill
        for t in reversed(self.present):
            mi, mj = self.maps[t[2]]
            st = add(mul(mj, self.NX), mi)
            y0, x0 = self.corner(t)
            q = sub(add(mul(j, self.NX), i), add(mul(y0, self.NX), x0))
            jj = PR.fdiv(q, st)
            ii = sub(q, mul(st, jj))
            v = self.point(it, r, z, t, jj, ii)
            out = ite(land(lnot(lt0(q)), lt(jj, self.SY), lt(ii, self.SX)), v, out)
        return out

    def points(self):
        """(tile, its point as symbols, position of the point in the global array)"""
        for t in self.present:
            y0, x0 = self.corner(t)
            mi, mj = self.maps[t[2]]
            jj, ii = isym('n:jj', 0), isym('n:ii', 0)
            yield t, jj, ii, add(y0, mul(jj, mj)), add(x0, ii, mul(jj, mi))


def clean(sc, kw):
    return {k: sc.I.mklist(v) if isinstance(v, list) else tuple(sc.I.mklist(x) if isinstance(x, list) else x for x in v) if isinstance(v, tuple) and k == 'lev' else v for k, v in kw.items()}


def pick(sel, k):
    """k-th (symbolic position) of a short list"""
    out = sel[-1]
    for n, x in reversed(list(enumerate(sel[:-1]))):
        out = ite(eq0(sub(k, num(n))), x, out)
    return out


def wrap(x, n):
    v = constval(x)
    if v is None:
        return ite(lt0(x), add(n, x), x)
    return x if v >= 0 else add(n, x)


def assembled(rep, tag, run, kw=None, itrs=None, want_its=None, fill=ZERO, facts=None, aslists=True):
    """the array read equals the global array at the selected iterations, records, levels and region"""
    kw = dict(kw or {})
    sc = Scenario(rep)
    I = sc.I
    run.install(I)
    if facts:
        facts(I.base_ctx)
    args = [FB]
    if itrs is not None:
        args.append(I.mklist(itrs) if isinstance(itrs, list) else itrs)
    sc.call('simplegrid.mds', 'rdmds', args, clean(sc, kw))
    if sc.error:
        return rep.und(tag + 'analysis', sc.error)
    if sc.ret is DEAD:
        ev = sc.events('raise')
        return rep.bad(tag + 'is read', 'raises %s(%s)' % (ev[-1].data[:2] if ev else ('?', '')), ev[-1].site if ev else SITE)
    for e in sc.events('raise'):
        d = decide(e.pc, I.base_ctx)
        if d is True:
            rep.bad(tag + 'raises nothing', e.data[0], e.site)
        elif d is None:
            compare(rep, tag + 'raises nothing', ite(e.pc, ONE, ZERO), ZERO, I.base_ctx, [lambda s, i: Model(s, i)] * 3, site=e.site)
    a = sc.ret
    its = want_its if want_its is not None else run.its or [None]
    if kw.get('returnmeta') is TRUE:
        if not isinstance(a, tuple):
            return rep.bad(tag + 'the iteration numbers are returned', repr(a), SITE)
        try:
            g = listed(I, a[1])
        except Unsupported as e:
            return rep.und(tag + 'iteration numbers', e.why)
        if g == its:
            rep.ok(tag + 'iteration numbers', 'identical values')
        elif not isinstance(g, list) or any(isinstance(x, (Unk, Choice)) for x in g):
            rep.und(tag + 'iteration numbers', repr(g))
        else:
            rep.bad(tag + 'iteration numbers', '%r instead of %r' % (g, its), SITE)
        if kw.get('returnmeta') is TRUE:
            d = dict_of(I, a[2])
            try:
                g = listed(I, d.get('timestepnumber', ()))
            except Unsupported as e:
                g = None
            if g == its:
                rep.ok(tag + 'time step numbers', 'identical values')
            elif g is None:
                rep.und(tag + 'time step numbers', 'not resolved')
            else:
                rep.bad(tag + 'time step numbers', '%r instead of %r' % (g, its), SITE)
        a = a[0]
    if not isinstance(a, Arr):
        return rep.und(tag + 'result', repr(a)) if isinstance(a, (Unk, Choice)) else rep.bad(tag + 'result', repr(a), SITE)
    # expected dimensions: (size, what, position -> global index)
    sel = []
    sel.append((num(len(its)), 'it', list(its)))
    rec = kw.get('rec')
    if rec is None:
        sel.append((run.nrec, 'rec', None))
    else:
        rl = [wrap(x, run.nrec) for x in (rec if isinstance(rec, list) else [rec])]
        sel.append((num(len(rl)), 'rec', rl))
    lev = kw.get('lev', ())
    lev = lev if isinstance(lev, tuple) else (lev,)
    lev = [l if isinstance(l, list) else [l] for l in lev]
    for l, n in zip(lev, run.nz):
        sel.append((num(len(l)), 'z', [wrap(x, n) for x in l]))
    drop = len(sel)
    for n in run.nz[len(lev):]:
        sel.append((n, 'z', None))
    reg = kw.get('region')
    x0, x1, y0, y1 = (ZERO, run.NX, ZERO, run.NY) if reg is None else reg[:4]
    if reg is not None:
        x0, x1, y0, y1 = [add(s, x) if decide(lt0(x), I.base_ctx) is True else x for x, s in zip(reg, (run.NX, run.NX, run.NY, run.NY))]
    sel.append((sub(y1, y0), 'y', None))
    sel.append((sub(x1, x0), 'x', None))
    scalar = [not isinstance(itrs, list) and itrs is not NAN_, not isinstance(rec, list) and rec is not None] + [not isinstance(l, list) for l in (kw.get('lev', ()) if isinstance(kw.get('lev', ()), tuple) else (kw['lev'],))]
    keep = []
    for k, (n, what, l) in enumerate(sel):
        if k < drop:
            if kw.get('squeeze') is FALSE:
                if what == 'rec' and l is None:
                    if constval(n) != 1:
                        keep.append(k)
                elif not scalar[k]:
                    keep.append(k)
            elif constval(n) != 1:
                keep.append(k)
        else:
            keep.append(k)
    shape = tuple(sel[k][0] for k in keep)
    if eq_terms(rep, tag + 'shape', tuple(a.shape), shape, I.base_ctx, SITE) == 'bad' or len(a.shape) != len(shape):
        return
    want_t = kw.get('astype')
    models = [lambda s, i: Model(s, i)] * 4
    points = list(run.points()) if isinstance(run, Mapped) else []
    for which in ['any', 'mid'] + points:
        if which == 'mid' and constval(run.NY) == 1:
            continue
        ctx = I.base_ctx.copy()
        pos = {}
        tile = None
        if isinstance(which, tuple):
            tile, jj, ii, y, x = which
            ctx.bound(single_atom(jj), ZERO, sub(run.SY, ONE))
            ctx.bound(single_atom(ii), ZERO, sub(run.SX, ONE))
            which = 'any point of tile %s' % (tile,)
        for k in keep:
            c = constval(sel[k][0])
            if tile and sel[k][1] in 'xy':
                pos[k] = y if sel[k][1] == 'y' else x
                continue
            pos[k] = region(ctx, 'n:x%d' % k, sel[k][0], 'any' if which == 'any' or sel[k][1] not in 'xy' else 'mid')
        PR.CUR.append(ctx)
        try:
            code = I.elem(a, tuple(pos[k] for k in keep))
            at = lambda k: pos.get(k, ZERO)
            z, it, r, i, j = [], None, None, None, None
            itpos = at(0)
            for k, (n, what, l) in enumerate(sel):
                if what == 'rec':
                    r = at(k) if l is None else pick(l, at(k))
                elif what == 'z':
                    z.append(at(k) if l is None else pick(l, at(k)))
                elif what == 'y':
                    j = add(y0, at(k))
                elif what == 'x':
                    i = add(x0, at(k))
            vals = [run.point(it, r, z, tile, jj, ii) if tile else run.value(it, r, z, j, i, fill) for it in its]
            spec = pick(vals, itpos)
            compare(rep, tag + 'entries [%s]' % which, code, spec, ctx, models, site=SITE)
        except (Unresolvable, Unsupported) as ex:
            rep.und(tag + 'entries', str(ex))
        finally:
            PR.CUR.pop()


def region_symbols(run, neg=False):
    """a region inside the domain, with bounds from the start or from the end"""
    x0, x1, y0, y1 = [isym('n:%s%s' % ('e' if neg else 'r', k), -4 if neg else 0) for k in ('x0', 'x1', 'y0', 'y1')]

    def facts(ctx):
        if neg:
            for lo, hi, n in ((x0, x1, run.NX), (y0, y1, run.NY)):
                ctx.bound(single_atom(lo), num(-4), num(-2))
                ctx.bound(single_atom(hi), add(lo, ONE), num(-1))
                ctx.fact(sub(n, num(5)))
            return
        for lo, hi, n in ((x0, x1, run.NX), (y0, y1, run.NY)):
            ctx.bound(single_atom(lo), ZERO, sub(n, ONE))
            ctx.bound(single_atom(hi), add(lo, ONE), n)
    return (x0, x1, y0, y1), facts


def C34(rep):
    ps = []
    it1, it2, it3 = [isym('n:it%d' % k, 0) for k in (1, 2, 3)]

    def good(tag, mkrun, **kw):
        def fn(r):
            run = mkrun() if callable(mkrun) else Run(**mkrun)
            k = dict(kw)
            g = k.pop('reg', None)
            if g:
                rg, facts = region_symbols(run, g == 'neg')
                k['kw'] = dict(k.get('kw') or {}, region=rg)
                f0 = k.get('facts')
                k['facts'] = (lambda c: (facts(c), f0(c))) if f0 else facts
            assembled(r, tag + ': ', run, **k)
        ps.append((tag, fn))
    for core in (0, 1, 2):
        d = '%d dimensions' % (2 + core)
        good('%s, one file' % d, dict(core=core, tiled=False))
        for tx, ty in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
            for mm in (FALSE, TRUE):
                m = ', memory map' if mm is TRUE else ''
                good('%s, %d x %d tiles%s' % (d, tx, ty, m), dict(core=core, tx=tx, ty=ty, order=-1 if tx == 2 else 1), kw=dict(usememmap=mm))
                if (tx, ty) in ((2, 1), (2, 2)):
                    good('%s, %d x %d tiles, region%s' % (d, tx, ty, m), dict(core=core, tx=tx, ty=ty), kw=dict(usememmap=mm), reg=True)
        good('%s, region counted from the end' % d, dict(core=core, tx=2), reg='neg')
        good('%s, region of one file' % d, dict(core=core, tiled=False), reg=True)
        good('%s, blank tiles' % d, dict(core=core, tx=2, ty=2, present=[(0, 0), (1, 1)]))
        good('%s, blank tiles, fill value' % d, dict(core=core, tx=2, ty=2, present=[(1, 0), (0, 1), (1, 1)]), kw=dict(fill_value=num(-999)), fill=num(-999))
        for mm in (FALSE, TRUE):
            m = ', memory map' if mm is TRUE else ''
            good('%s, records%s' % (d, m), dict(core=core, tx=2, nrec='n'), kw=dict(usememmap=mm))
            for nm, rec in (('record 1', ONE), ('the last record', num(-1)), ('records 2, 0', [TWO, ZERO]), ('records 1, 1, 3', [ONE, ONE, num(3)]), ('record list of one', [TWO]), ('records 0, last', [ZERO, num(-1)])):
                if mm is TRUE and core != 1:
                    continue
                good('%s, %s%s' % (d, nm, m), dict(core=core, tx=2, nrec='n'), kw=dict(usememmap=mm, rec=rec))
                good('%s, %s, region%s' % (d, nm, m), dict(core=core, tx=2, nrec='n'), kw=dict(usememmap=mm, rec=rec), reg=True)
            if core:
                for nm, lev in (('level 1', (ONE,)), ('levels 2, 0', ([TWO, ZERO],)), ('levels 1, 1, 3', ([ONE, ONE, num(3)],)), ('last level', (num(-1),)), ('level list not in a tuple', [ZERO, TWO])) + ((('levels of two dimensions', ([ONE, ZERO], [ZERO, TWO, num(3)])), ('level of two dimensions', ([ONE], [TWO]))) if core == 2 else ()):
                    good('%s, %s%s' % (d, nm, m), dict(core=core, tx=2), kw=dict(usememmap=mm, lev=lev))
                    good('%s, %s, record 1%s' % (d, nm, m), dict(core=core, ty=2, nrec='n'), kw=dict(usememmap=mm, lev=lev, rec=ONE))
                    good('%s, %s, records 2, 0, region%s' % (d, nm, m), dict(core=core, tx=2, nrec='n'), kw=dict(usememmap=mm, lev=lev, rec=[TWO, ZERO]), reg=True)
                    good('%s, %s, region%s' % (d, nm, m), dict(core=core, tx=2, tiled=True), kw=dict(usememmap=mm, lev=lev), reg=True)
    for tiled in (True, False):
        w = 'tiles' if tiled else 'one file'
        t = dict(tiled=tiled, tx=2 if tiled else 1)
        good('an iteration, %s' % w, dict(t, its=[it1]), itrs=it1)
        good('an iteration among others, %s' % w, dict(t, its=[it1, it2, it3]), itrs=it2, want_its=[it2], facts=ordered(it1, it2, it3))
        good('iterations in the order asked for, %s' % w, dict(t, its=[it1, it2, it3]), itrs=[it3, it1], want_its=[it3, it1], facts=ordered(it1, it2, it3))
        good('a repeated iteration, %s' % w, dict(t, its=[it1, it2]), itrs=[it2, it1, it2], want_its=[it2, it1, it2], facts=ordered(it1, it2), kw=dict(returnmeta=TRUE))
        good('iterations of records and levels, %s' % w, dict(t, its=[it1, it2], core=1, nrec='n'), itrs=[it2, it1], want_its=[it2, it1], kw=dict(rec=[ONE, ZERO], lev=([TWO, ZERO],)), facts=ordered(it1, it2), reg=True)
        good('all iterations, %s' % w, dict(t, its=[it1, it2, it3], order=-1), itrs=NAN_, want_its=[it1, it2, it3], facts=ordered(it1, it2, it3), kw=dict(returnmeta=TRUE))
        good('all iterations of records, %s' % w, dict(t, its=[it1, it2], order=-1, nrec=3), itrs=NAN_, want_its=[it1, it2], facts=ordered(it1, it2))
        good('the highest iteration, %s' % w, dict(t, its=[it1, it2, it3]), itrs=INF_, want_its=[it3], facts=ordered(it1, it2, it3))
        good('the highest iteration and its number, %s' % w, dict(t, its=[it1, it2], order=-1), itrs=INF_, want_its=[it2], facts=ordered(it1, it2), kw=dict(returnmeta=TRUE))
    good('file precision', dict(tx=2, prec='float64'), kw=dict(astype=None))
    for nm, kw in (('iteration list of one', dict(itrs=[it1])), ('iteration', dict(itrs=it1))):
        good('%s, singleton dimensions kept' % nm, dict(its=[it1], nrec='n', core=1), kw=dict(squeeze=FALSE, rec=[ONE], lev=([TWO],)), **kw)
        good('%s, scalar selections dropped' % nm, dict(its=[it1], nrec='n', core=1), kw=dict(squeeze=FALSE, rec=ONE, lev=(TWO,)), **kw)

    def refused(tag, exc, run, itrs=None, kw=None, changed=None, missing=()):
        def fn(r):
            sc = Scenario(r)
            R = Run(**run)
            R.install(sc.I, changed, missing)
            ordered(*(R.its or []))(sc.I.base_ctx)
            sc.call('simplegrid.mds', 'rdmds', [FB] + ([] if itrs is None else [sc.I.mklist(itrs) if isinstance(itrs, list) else itrs]), clean(sc, kw or {}))
            ev = sc.events('raise')
            if sc.error:
                r.und(tag, sc.error)
            elif sc.ret is not DEAD:
                if ev and any(decide(e.pc) is not False for e in ev):
                    return r.und(tag, 'raises under a condition not decided')
                r.bad(tag, 'is accepted', SITE)
            elif all(e.data[0] in exc for e in ev):
                r.ok(tag, 'path enumeration')
            else:
                r.bad(tag, 'raises %s' % [e.data[0] for e in ev], ev[-1].site)
        ps.append((tag, fn))
    IO = ('IOError', 'OSError', 'FileNotFoundError')
    refused('no file', IO, dict(present=[]))
    refused('no file, region', IO, dict(present=[]), kw=dict(region=(ZERO, ONE, ZERO, ONE)))
    refused('no file of the iteration', IO, dict(its=[it1, it2]), itrs=it3)
    refused('no file of the second iteration', IO, dict(its=[it1, it2]), itrs=[it1, it2], missing=((1, (0, 0)),))
    V = ('ValueError', 'ParseError')
    for nm, c in (('number type', dict(prec='float64')), ('horizontal size', dict(dims=True)), ('number of records', dict(nrec=num(7))), ('number of dimensions', dict(ndims=3)), ('another entry', dict(more=[" nFlds = [ 1 ];\n"]))):
        for tl, w in (((1, 0), 'second'), ((0, 0), 'first')):
            refused('tiles whose metadata differ in %s (%s tile)' % (nm, w), V, dict(tx=2, nrec=3), changed={(0, tl): c})
        refused('iterations whose metadata differ in %s' % nm, V, dict(its=[it1, it2], nrec=3), itrs=[it1, it2], changed={(1, (0, 0)): c})
    for tiled in (True, False):
        w = 'tiles' if tiled else 'one file'
        t = dict(tiled=tiled, tx=2 if tiled else 1, other=True)
        good('among other output, %s' % w, dict(t))
        good('among other output, reversed, %s' % w, dict(t, order=-1, core=1), kw=dict(lev=([ONE, ZERO],)))
        good('an iteration among other output, %s' % w, dict(t, its=[it1]), itrs=it1)
        for o in (1, -1):
            for its in ((9, 10), (8, 72, 100, 1000), (999999999, 1000000000), (0, 72), (5, 1999999999, 9999999999)):
                n = [num(x) for x in its]
                good('all of the iterations %s, %s, %d' % (its, w, o), dict(t, other=False, its=n, order=o), itrs=NAN_, want_its=n)
                good('the highest of the iterations %s, %s, %d' % (its, w, o), dict(t, other=False, its=n, order=o), itrs=INF_, want_its=n[-1:], kw=dict(returnmeta=TRUE))
        refused('no file of that name, %s' % w, IO, dict(t, present=[]))
        refused('no file of that name and iteration, %s' % w, IO, dict(t, present=[], its=[it1]), itrs=it1)
        refused('no file without iteration number, %s' % w, IO, dict(t, other=False, its=[it1, it2]))
    for tx, ty in ((5, 2), (1, 4), (4, 3), (12, 1), (1, 11)):
        good('%d x %d tiles' % (tx, ty), dict(tx=tx, ty=ty, order=-1))
        good('%d x %d tiles, region' % (tx, ty), dict(tx=tx, ty=ty), reg=True, kw=dict(usememmap=TRUE if tx == 4 else FALSE))
    # random combinations
    rng = random.Random(SEED)
    r1, r2, l1, l2 = [isym('n:%s' % k, -9) for k in ('rec1', 'rec2', 'lev1', 'lev2')]
    for n in range(120 if TIER == 'quick' else 900):
        core = rng.choice((0, 1, 1, 2))
        tx, ty = rng.choice(((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (2, 3)))
        run = dict(core=core, tx=tx, ty=ty, order=rng.choice((1, -1)), prec=rng.choice(('float32', 'float64')), other=rng.random() < .2)
        kw, k = {}, {}
        if tx * ty == 1 and rng.random() < .5:
            run['tiled'] = False
        elif rng.random() < .4:
            run['present'] = [(x, y) for y in range(ty) for x in range(tx) if rng.random() < .6] or [(0, 0)]
            if rng.random() < .7:
                kw['fill_value'] = k['fill'] = rng.choice((num(-999), sym('f:fill')))
        if rng.random() < .6:
            run['nrec'] = 'n'
            c = rng.choice((0, 1, 2, 3, 4))
            if c:
                kw['rec'] = (r1, [r1], [r1, r2], [r2, TWO, r1])[c - 1]
        if core and rng.random() < .6:
            ls = [rng.choice((l1, [l1], [l1, l2], [ZERO, l2, l1], [l2, ONE])) for _ in range(rng.randint(1, core))]
            kw['lev'] = tuple(ls) if len(ls) > 1 or rng.random() < .6 else ls[0]
        if rng.random() < .5:
            k['reg'] = rng.choice((True, True, 'neg'))
        if rng.random() < .4:
            kw['usememmap'] = TRUE
        if rng.random() < .2:
            kw['squeeze'] = FALSE
        if rng.random() < .2:
            kw['astype'] = None
        if rng.random() < .2:
            kw['returnmeta'] = TRUE
        c = rng.choice((0, 0, 1, 2, 3, 4, 5))
        if c:
            run['its'] = [it1, it2]
            k['itrs'], k['want_its'] = [(it2, [it2]), ([it1], [it1]), ([it2, it1], [it2, it1]), (NAN_, [it1, it2]), (INF_, [it2])][c - 1]
        elif 'returnmeta' in kw:
            del kw['returnmeta']

        def facts(ctx, its=run.get('its', ())):
            ordered(*its)(ctx)
        good('combination %d' % n, lambda run=run: Sel(**run), kw=kw, facts=facts, **k)
    parallel(rep, group(ps, 40))


class Sel(Run):
    """with symbolic record and level numbers, counted from either end"""

    def bounds(self, I):
        Run.bounds(self, I)
        for k in ('rec1', 'rec2'):
            I.base_ctx.bound(single_atom(isym('n:' + k, -9)), neg(self.nrec), sub(self.nrec, ONE))
        for k in ('lev1', 'lev2'):
            I.base_ctx.bound(single_atom(isym('n:' + k, -9)), num(-4), num(3))


def ordered(*its):
    def f(ctx):
        for a, b in zip(its, its[1:]):
            ctx.fact(sub(sub(b, a), ONE))
    return f


def C35(rep):
    ps = []
    it1, it2, it3 = [isym('n:it%d' % k, 0) for k in (1, 2, 3)]

    def good(tag, run, cls=Mapped, **kw):
        def fn(r):
            assembled(r, tag + ': ', cls(**run), **kw)
        ps.append((tag, fn))
    lay = [('one face', dict(layout='line', faces=[(1, 1)])), ('one face of 2 tiles', dict(layout='line', faces=[(2, 1)])), ('one face of 3 x 2 tiles', dict(layout='line', faces=[(3, 2)])),
           ('six faces in a line', dict(layout='line', faces=[(1, 1)] * 6)), ('two faces of 2 x 2 tiles in a line', dict(layout='line', faces=[(2, 2)] * 2)),
           ('faces of different shapes in a line', dict(layout='line', faces=[(1, 3), (2, 1), (3, 1)])),
           ('stacked faces', dict(layout='stack', faces=[(1, 1), (1, 1), (1, 1)])), ('stacked faces of 2 x 2 tiles', dict(layout='stack', w=2, faces=[(2, 2), (2, 1)])),
           ('stacked faces, two rows each', dict(layout='stack', faces=[(2, 1), (2, 1)])), ('stacked faces of different widths', dict(layout='stack', faces=[(1, 3), (1, 2), (3, 1)])),
           ('stacked wide faces', dict(layout='stack', w=2, faces=[(4, 2), (2, 1), (6, 1)])),
           ('shifted rows', dict(layout='skew', faces=[(2, 1)])), ('shifted rows, two for each', dict(layout='skew', w=2, faces=[(1, 1)]))]
    for nm, run in lay:
        many = sum(x * y for x, y in run['faces']) > 3
        for core in (0, 1, 2):
            for mm in (FALSE, TRUE):
                w = '%s, %d dimensions%s: ' % (nm, 2 + core, ', memory map' if mm is TRUE else '')
                good(w + 'all', dict(run, core=core, order=-1 if core == 1 else 1), kw=dict(usememmap=mm))
                if many and (core == 2 or mm is TRUE):
                    continue
                for rn, rec in (('a record', ONE), ('the last record', num(-1)), ('records 2, 0', [TWO, ZERO])):
                    good(w + rn, dict(run, core=core, nrec='n'), kw=dict(usememmap=mm, rec=rec))
                if core:
                    for ln, lev in (('level 1', (ONE,)), ('levels 2, 0', ([TWO, ZERO],)), ('last level', (num(-1),))) + ((('levels of two dimensions', ([ONE, ZERO], [ZERO, TWO, num(3)])),) if core == 2 else ()):
                        good(w + ln, dict(run, core=core), kw=dict(usememmap=mm, lev=lev))
                        good(w + ln + ', records 1, 3, 0', dict(run, core=core, nrec='n'), kw=dict(usememmap=mm, lev=lev, rec=[ONE, num(3), ZERO]))
        n = sum(x * y for x, y in run['faces'])
        if n > 1:
            good('%s, only the last tile' % nm, dict(run, present=[n - 1]), kw=dict(fill_value=num(-999)), fill=num(-999))
            good('%s, first tile blank' % nm, dict(run, present=list(range(1, n)), core=1))
            good('%s, alternate tiles' % nm, dict(run, present=list(range(0, n, 2)), nrec='n'), kw=dict(fill_value=num(-999), rec=[ONE, ZERO], usememmap=TRUE), fill=num(-999))
        good('%s, file precision' % nm, dict(run, prec='float64'), kw=dict(astype=None))
        good('%s, an iteration' % nm, dict(run, its=[it1, it2]), itrs=it2, want_its=[it2], facts=ordered(it1, it2))
        good('%s, iterations in the order asked for' % nm, dict(run, its=[it1, it2], core=0 if many else 1, nrec='n'), itrs=[it2, it1], want_its=[it2, it1], facts=ordered(it1, it2), kw=dict(rec=[ONE, ZERO], returnmeta=TRUE))
        good('%s, all iterations' % nm, dict(run, its=[it1, it2], order=-1), itrs=NAN_, want_its=[it1, it2], facts=ordered(it1, it2))
        good('%s, the highest iteration' % nm, dict(run, its=[it1, it2]), itrs=INF_, want_its=[it2], facts=ordered(it1, it2), kw=dict(returnmeta=TRUE))

    def refused(tag, exc, run, kw=None, changed=None):
        def fn(r):
            sc = Scenario(r)
            Mapped(**run).install(sc.I, changed)
            sc.call('simplegrid.mds', 'rdmds', [FB], clean(sc, kw or {}))
            ev = sc.events('raise')
            if sc.error:
                r.und(tag, sc.error)
            elif sc.ret is not DEAD:
                if ev and any(decide(e.pc) is not False for e in ev):
                    return r.und(tag, 'raises under a condition not decided')
                r.bad(tag, 'is accepted', SITE)
            elif all(e.data[0] in exc for e in ev):
                r.ok(tag, 'path enumeration')
            else:
                r.bad(tag, 'raises %s' % [e.data[0] for e in ev], ev[-1].site)
        ps.append((tag, fn))
    for nm, run in lay:
        for mm in (FALSE, TRUE):
            for rn, kw in (('', {}), (' of a record', dict(rec=ONE))):
                refused('%s: a region%s%s is refused' % (nm, rn, ', memory map' if mm is TRUE else ''), ('NotImplementedError', 'ValueError'), dict(run, nrec=2), dict(kw, usememmap=mm, region=(ZERO, ONE, ZERO, ONE)))
    for nm, c in (('number type', dict(prec='float64')), ('horizontal size', dict(dims=True)), ('number of records', dict(nrec=num(7))), ('number of dimensions', dict(ndims=3)), ('another entry', dict(more=[" nFlds = [ 1 ];\n"]))):
        for t in ((0, 0, 0), (1, 0, 0)):
            refused('mapped tiles whose metadata differ in %s (tile %d)' % (nm, t[0]), ('ValueError', 'ParseError'), dict(layout='line', faces=[(2, 1)], nrec=3), changed={(0, t): c})
    parallel(rep, group(ps, 40))
