"""C10: the three grid sources of regrid; C03: strict mode is applied to every grid file."""
from .grids import *
from sgflow.values import *

CSV = [('corners_x.csv', 'corners_y.csv'), ('run.v2/lon.csv', 'run.v2/lat.csv')]
BIN = [('corners_x.bin', 'corners_y.bin'), ('lon', 'lat'), ('lon.csv', 'lat.bin'), ('lon.bin', 'lat.csv'), ('lon.csv.bin', 'lat.csv.bin'), ('x.csv/lon', 'x.csv/lat')]
GF = sstr(('sym', 'mitgridfile'))


class SourceCase(RegridCase):
    """regrid case whose corner points come from `kind`; files: names of the pair"""

    def __init__(self, k, kind, files=None):
        super().__init__(k, 'matrices')
        self.kind, self.files = kind, files

    def base(self, f, i, j):
        if self.kind == 'gridfile':
            return atom(mk('app', 'in', EPOCH[0] + 'gridfile:' + f, i, j))
        if self.kind == 'matrices':
            return atom(mk('app', 'in', EPOCH[0] + 'mem:' + f, i, j))
        fn = tstr({'XG': self.files[0], 'YG': self.files[1]}[f])
        if self.kind == 'csv':
            return atom(mk('app', 'text:,', fn, i, j))
        return atom(mk('app', 'file', fn, T.string('>f8'), add(i, mul(self.n0, j))))

    def pgrid(self, I, pre):
        return I.mkdict({n: I.new_arr((add(self.ni, num(DI[n])), add(self.nj, num(DJ[n]))), Inp(pre + n)) for n in NAMES})

    def read(self, I, env, node):
        self.reads.append((dict(env), I.site(node)))
        return self.pgrid(I, 'gridfile:')


def run_source(rep, kind, files=None, k=0, gridfile=False, pair=False, mem=False, nij=True, kwf=None):
    c = SourceCase(k, kind, files)

    def setup(I):
        I.textshapes = {}
        I.filesizes = {}
        for f in files or ():
            I.textshapes[tstr(f)] = (c.n0, c.n1)
            I.filesizes[tstr(f)] = mul(c.n0, c.n1)

    def extra(I, case):
        setup(I)
        kw = {'mitgrid_matrices': None}
        if gridfile:
            kw['mitgridfile'] = GF
        if pair:
            kw['xg_file'], kw['yg_file'] = files
        if mem:
            kw['mitgrid_matrices'] = case.pgrid(I, 'mem:')
        if nij:
            kw['ni'], kw['nj'] = case.ni, case.nj
        if kwf:
            kwf(kw)
        return kw
    sc = c.run(rep, extra=extra)
    return c, sc


def accepts(rep, tag, c, sc):
    site = 'simplegrid.regrid.regrid'
    if c.bad:
        # the search ran on other matrices than the required source
        for name, detail, s in c.bad:
            rep.bad(tag + 'the corner points come from the required source', detail, s)
        return
    g = unpack_grid(rep, sc, tag)
    if g is None:
        return
    I = sc.I
    D = c.double()
    for n, f in (('XG', D.CX), ('YG', D.CY)):
        a = g[0].get(n)
        if not isinstance(a, Arr):
            rep.bad(tag + n, 'missing') if a is None else rep.und(tag + n, repr(a))
            continue
        for ri in REG:
            for rj in REG:
                ctx = I.base_ctx.copy()
                ka = region(ctx, 'n:ka', add(c.di, ONE), ri)
                kb = region(ctx, 'n:kb', add(c.dj, ONE), rj)
                PR.CUR.append(ctx)
                nm = '%s%s at source point [%s,%s]' % (tag, n, ri, rj)
                try:
                    compare(rep, nm, I.elem(a, (mul(ka, c.ls), mul(kb, c.ms))), f(ka, kb), ctx, mesh_models()[:3], site)
                except Unresolvable as e:
                    rep.und(nm, str(e))
                finally:
                    PR.CUR.pop()


def refuses(rep, nm, sc):
    ev = sc.events('raise')
    if sc.error and not ev:
        return rep.und(nm, sc.error)
    if sc.ret is DEAD and ev and all(e.data[0] == 'ValueError' and not e.data[2] for e in ev):
        touched = [e for e in sc.events('open', 'fromfile', 'loadtxt')]
        return rep.ok(nm, 'path enumeration')
    if sc.ret is DEAD:
        return rep.bad(nm, 'raises %s' % [e.data[0] for e in ev], ev[0].site if ev else '')
    rep.bad(nm, 'no ValueError is raised', 'simplegrid.regrid.regrid')


def C10(rep):
    ps = []

    def good(name, kind, files=None, **kw):
        def fn(r):
            for k in ((0, 1) if TIER == 'quick' else (0, 1, 2, 3)):
                c, sc = run_source(r, kind, files, k, **kw)
                accepts(r, '%s (%d turns): ' % (name, k), c, sc)
        ps.append((name, fn))

    def bad(name, **kw):
        def fn(r):
            c, sc = run_source(r, 'csv', CSV[0], **kw)
            refuses(r, name, sc)
        ps.append((name, fn))
    good('grid file', 'gridfile', gridfile=True)
    good('in-memory matrices without cell counts', 'matrices', mem=True, nij=False)
    good('in-memory matrices', 'matrices', mem=True)
    for f in CSV:
        good('text pair %s, %s' % f, 'csv', f, pair=True)
    for f in BIN:
        good('binary pair %s, %s' % f, 'bin', f, pair=True)
    good('grid file before text pair', 'gridfile', CSV[0], gridfile=True, pair=True)
    good('grid file before binary pair and matrices', 'gridfile', BIN[0], gridfile=True, pair=True, mem=True)
    good('grid file before matrices', 'gridfile', gridfile=True, mem=True)
    good('text pair before matrices', 'csv', CSV[0], pair=True, mem=True)
    good('binary pair before matrices', 'bin', BIN[0], pair=True, mem=True)
    half = lambda which: (lambda kw: kw.pop(which))
    good('matrices when only the longitude file is given', 'matrices', CSV[0], pair=True, mem=True, kwf=half('yg_file'))
    good('matrices when only the latitude file is given', 'matrices', CSV[0], pair=True, mem=True, kwf=half('xg_file'))
    bad('no source at all', nij=True)
    bad('no source and no counts', nij=False)
    bad('longitude file alone', pair=True, kwf=half('yg_file'))
    bad('latitude file alone', pair=True, kwf=half('xg_file'))
    for which in ('ni', 'nj'):
        bad('grid file without %s' % which, gridfile=True, kwf=half(which))
        bad('corner file pair without %s' % which, pair=True, kwf=half(which))
        bad('grid file without %s, matrices given' % which, gridfile=True, mem=True, kwf=half(which))
    bad('grid file without cell counts', gridfile=True, nij=False)
    bad('corner file pair without cell counts', pair=True, nij=False)

    def binpair(r):
        c, sc = run_source(r, 'bin', BIN[0], pair=True, nij=False)
        refuses(r, 'binary corner file pair without cell counts', sc)
    ps.append(('bin nocounts', binpair))

    def reads(r):
        c, sc = run_source(r, 'gridfile', gridfile=True)
        if sc.error:
            return r.und('grid file is read with the given counts', sc.error)
        for env, site in c.reads:
            fn = list(env.values())[0]
            ok = fn == GF and env.get('ni') is c.ni and env.get('nj') is c.nj
            r.ok('grid file is read with the given counts') if ok else r.bad('grid file is read with the given counts', 'read as %r with %s x %s' % (fn, env.get('ni'), env.get('nj')), site)
        if not c.reads:
            r.und('grid file is read with the given counts', 'read_mitgridfile is not called')
    ps.append(('reads', reads))
    parallel(rep, ps)
