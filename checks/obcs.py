"""C28-C31: open-boundary generation; getobcs part of C03."""
import fnmatch
from .gridspec import *
from .tiles import lonmod

RESP = ('T', 'S', 'Eta', 'W', 'U', 'UICE', 'V', 'VICE')
KIND = {'T': 'C', 'S': 'C', 'Eta': 'C', 'W': 'C', 'U': 'U', 'UICE': 'U', 'V': 'V', 'VICE': 'V'}
FLAT = ('Eta', 'UICE', 'VICE')
PDIR = sstr(('sym', 'parent_resultsdir'))
RDIR = sstr(('sym', 'resultsdir'))
PFILE, RFILE = sstr(('sym', 'parent_mitgridfile')), sstr(('sym', 'regional_mitgridfile'))
OBV = ('OB_Jnorth', 'OB_Jsouth', 'OB_Ieast', 'OB_Iwest')
EDGE_OF = dict(zip(OBV, 'NSEW'))


def iterno(v):
    return atom(mk('app', 'size', mk('app', 'in', 'iterno', v)))


class Case:
    """one abstract run of getobcs; all counts, coordinates, results and index vectors are symbols"""

    def __init__(self, present=RESP, tiled=False, vecs=None, parent='matrices', regional='matrices', resultsdir=True, kw=None, drop=(), exists=True, gridfiles=False):
        s = lambda n, lo=1: isym('n:' + n, lo)
        self.nip, self.njp, self.nir, self.njr, self.nr, self.nf = s('nip'), s('njp'), s('nir'), s('njr'), s('nr'), s('nf')
        self.present, self.tiled, self.vecs = present, tiled, vecs or {}
        self.parent, self.regional, self.resultsdir = parent, regional, resultsdir
        self.kw, self.drop, self.exists, self.gridfiles = kw or {}, drop, exists, gridfiles
        self.reads, self.regrids, self.bad, self.mds2, self.rds, self.misread = [], [], [], 0, [], []

    def count(self, g):
        return (self.nip, self.njp) if g == 'p' else (self.nir, self.njr)

    def grid(self, I, g, owner=None):
        n = self.count(g)
        d = I.mkdict({f: I.new_arr(shape_of(f, *n), Inp('%s:%s' % (g, f)), owner=owner and owner + "['%s']" % f) for f in NAMES})
        if owner:
            I.owner[d.oid] = owner
        return d

    def dbl(self, g):
        """twice as fine grid over the whole of grid g"""
        n = self.count(g)
        CX = lambda a, b: atom(mk('app', 'in', EPOCH[0] + g + ':XG', a, b))
        CY = lambda a, b: atom(mk('app', 'in', EPOCH[0] + g + ':YG', a, b))
        v, w = var('p'), var('q')
        anyneg = exists(v, add(n[0], ONE), exists(w, add(n[1], ONE), lt0(CX(atom(v), atom(w)))))
        D = Doubled(CX, CY, num(4), num(4), n[0], n[1], lnot(anyneg))
        return lambda a, b: D.pt(mul(TWO, a), mul(TWO, b))

    # -------------------------------------------------------- stand-ins for the collaborators
    def read(self, I, env, node):
        vals = dict(env)
        self.reads.append((vals, I.site(node)))
        fn = list(vals.values())[0]
        for nm, g in ((PFILE, 'p'), (RFILE, 'r')):
            if fn == nm:
                got = tuple(I.scalar(x) if isinstance(x, Arr) and x.ndim == 0 else x for x in (vals.get('ni'), vals.get('nj')))
                if got != self.count(g):
                    if not all(isterm(x) for x in got) or all(decide(eq0(sub(x, y)), I.base_ctx) is True for x, y in zip(got, self.count(g))):
                        raise Unsupported('grid file read with other cell counts', node)
                    # the contents are those of a grid of another size
                    self.misread.append(I.site(node))
                    nm = 'misread-%d-%s' % (len(self.misread), g)
                    return I.mkdict({f: I.new_arr(shape_of(f, *got), Inp(nm + ':' + f)) for f in NAMES})
                return self.grid(I, g)
        raise Unsupported('another grid file is read: %r' % (fn,), node)

    def fromrun(self, I, env, node):
        self.mds2 += 1
        if list(env.values())[0] != PDIR:
            raise Unsupported('grid taken from another directory', node)
        return (self.grid(I, 'p'), self.nip, self.njp)

    def regrid(self, I, env, node):
        """regrid's contract for the whole domain at twice the resolution"""
        e = dict(env)
        e.update({k: v for d in list(e.values()) if isinstance(d, DictRef) and 'mitgrid_matrices' in dict_of(I, d) for k, v in dict_of(I, d).items()})
        m = e.get('mitgrid_matrices')
        site = I.site(node)
        sc = lambda v: I.scalar(v) if isinstance(v, Arr) and v.ndim == 0 else v
        if not isinstance(m, DictRef):
            raise Unsupported('regrid called without matrices', node)
        d = dict_of(I, m)
        for g in 'pr':
            if not all(isinstance(d.get(f), Arr) and isinstance(I.heap[d[f].oid], Inp) and I.heap[d[f].oid].name == EPOCH[0] + '%s:%s' % (g, f) for f in ('XG', 'YG')):
                continue
            n = self.count(g)
            at = lambda f, a, b: atom(mk('app', 'in', EPOCH[0] + g + ':' + f, a, b))
            nw, se = (ZERO, n[1]), (n[0], ZERO)
            want = {'lon1': at('XG', *nw), 'lat1': at('YG', *nw), 'lon2': at('XG', *se), 'lat2': at('YG', *se), 'lon_subscale': TWO, 'lat_subscale': TWO}
            got = {k: sc(e.get(k)) for k in want}
            if all(got[k] is want[k] for k in want):
                ok = True
            else:
                # the opposite corners in the other order describe the same region, turned by two quarter turns
                ok = False
            self.regrids.append((g, ok, site))
            if ok:
                pt = self.dbl(g)
                n2 = (mul(TWO, n[0]), mul(TWO, n[1]))
                out = {f: I.new_arr(shape_of(f, *n2), Inp('%s:double:%s' % (g, f))) for f in NAMES}
                sh = shape_of('XG', *n2)
                out['XG'] = I.lam_arr(sh, lambda ix: pt(*ix)[0])
                out['YG'] = I.lam_arr(sh, lambda ix: pt(*ix)[1])
                return (I.mkdict(out), n2[0], n2[1])
            u = isym('n:oni%d' % len(self.regrids), 1), isym('n:onj%d' % len(self.regrids), 1)
            nm = 'other-region-%d' % len(self.regrids)
            return (I.mkdict({f: I.new_arr(shape_of(f, *u), Inp(nm + ':' + f)) for f in NAMES}), u[0], u[1])
        raise Unsupported('regrid called with other matrices', node)

    def rdmds(self, I, env, node):
        a = list(env.values())
        fn, it = a[0], a[1] if len(a) > 1 else env.get('itrs')
        self.rds.append((fn, it, I.site(node)))
        extra = {k: v for k, v in env.items() if k not in ('fnamearg', 'itrs')}
        if isinstance(it, Arr) and it.ndim == 0:
            it = I.scalar(it)
        if not is_str(fn) or not isterm(it) or constval(it) == -1:
            raise Unsupported('results read in another way', node)
        r = next((r for r in RESP if fn == sstr(PDIR, '/' + r)), None)
        if r is None or r not in self.present:
            raise Unsupported('results of %r are read' % (fn,), node)
        z = (self.nr,) if r not in FLAT else ()
        sh = z + (self.njp, self.nip)
        return I.lam_arr(sh, lambda ix: atom(mk('app', 'in', EPOCH[0] + 'res:' + r, it, *ix)))

    def glob(self, I, pattern, node):
        if not (isinstance(pattern, SStr) and pattern.parts[0] == ('sym', 'parent_resultsdir') and len(pattern.parts) == 2 and pattern.parts[1].startswith('/')):
            return None
        pat = pattern.parts[1][1:]
        if '/' in pat:
            return None
        segs = []
        tile = '.001.001' if self.tiled else ''
        for n in NAMES if self.gridfiles else ():
            for ext in ('data', 'meta'):
                nm = '%s%s.%s' % (n, tile, ext)
                if fnmatch.fnmatchcase(nm, pat):
                    segs.append(sstr(PDIR, '/' + nm))
        for r in self.present:
            for ext in ('data', 'meta'):
                if fnmatch.fnmatchcase('%s.0000000024%s.%s' % (r, tile, ext), pat):
                    v = var('f')
                    tl = tile and '.001.001'
                    segs.append(SeqSeg(v, self.nf, sstr(PDIR, '/' + r + '.', SStr([('num', iterno(atom(v)), '010d')]), '%s.%s' % (tl, ext))))
        return I.mklist(segs)

    # -------------------------------------------------------- the run
    def vec(self, I, name):
        v = self.vecs.get(name)
        if v is None:
            return None
        if v == 'zero':
            n = isym('n:nz', 1)
            return I.mklist([SeqSeg(var('z'), n, ZERO)])
        if v == 'zero1':
            return I.mklist([ZERO])
        if v == 'zeroarray':
            return I.lam_arr((isym('n:nz', 1),), lambda ix: ZERO, 'i8')
        if v == 'array':
            n = self.nir if name.startswith('OB_J') else self.njr
            return I.lam_arr((n,), lambda ix: self.entry(name, ix[0]), 'i8')
        n = self.nir if name.startswith('OB_J') else self.njr
        w = var('z')
        return I.mklist([SeqSeg(w, n, self.entry(name, atom(w)))])

    def entry(self, name, k):
        """entry k of a given index vector: any nonzero integer"""
        n = self.njr if name.startswith('OB_J') else self.nir
        m = app('min', add(atom(mk('app', 'size', mk('app', 'in', 'entry:' + name, k))), ONE), n)
        return ite(bapp('back', T.string(name), k), neg(m), m)

    def run(self, rep, strict=FALSE, verbose=FALSE, fail=None):
        ov = {('simplegrid.gridio', 'read_mitgridfile'): self.read, ('simplegrid.mds', 'rdmds'): self.rdmds,
              ('simplegrid.mds2mitgrid', 'mds2mitgrid'): self.fromrun, ('simplegrid.regrid', 'regrid'): self.regrid}
        sc = Scenario(rep, ov)
        I = sc.I
        I.glob_hook = self.glob
        I.regrid_extent = lambda: (self.nip, self.njp)
        kw = dict(strict=strict, verbose=verbose)
        if self.parent == 'matrices':
            kw['parent_mitgrid_matrices'] = self.grid(I, 'p', 'the parent_mitgrid_matrices argument')
        elif self.parent == 'file':
            kw.update(parent_mitgridfile=PFILE, ni_parent=self.nip, nj_parent=self.njp)
        if self.regional == 'matrices':
            kw['regional_mitgrid_matrices'] = self.grid(I, 'r', 'the regional_mitgrid_matrices argument')
        elif self.regional == 'file':
            kw.update(regional_mitgridfile=RFILE, ni_regional=self.nir, nj_regional=self.njr)
        kw['parent_resultsdir'] = PDIR
        if self.resultsdir:
            kw['resultsdir'] = RDIR
        for n in OBV:
            v = self.vec(I, n)
            if n in self.vecs:
                kw[n] = v
        kw.update(self.kw)
        for k in self.drop:
            kw.pop(k, None)
        sc.call('simplegrid.getobcs', 'getobcs', [], kw)
        sc.case = self
        return sc


    # -------------------------------------------------------- what is required
    def nt(self):
        v = var('f')
        return app('size', mk('app', 'nunique', mk('app', 'lam', v, self.nf, iterno(atom(v)))))

    def time(self, t):
        v = var('f')
        return atom(mk('app', 'size', mk('app', 'usorted', mk('app', 'lam', v, self.nf, iterno(atom(v))), t)))

    def length(self, edge):
        return self.nir if edge in 'NS' else self.njr

    def depths(self, r):
        return ONE if r in FLAT else self.nr

    def index(self, edge, p):
        """zero-based position across the boundary of its p-th cell, or None when the boundary is disabled"""
        name = next(n for n in OBV if EDGE_OF[n] == edge)
        n = self.njr if edge in 'NS' else self.nir
        v = self.vecs.get(name)
        if v is None:
            return sub(n, ONE) if edge in 'NE' else ZERO
        if v.startswith('zero'):
            return None
        e = self.entry(name, p)
        return ite(lt0(e), add(n, e), sub(e, ONE))

    def points(self, g, kind):
        n = self.count(g)
        at = lambda f, a, b: atom(mk('app', 'in', EPOCH[0] + g + ':' + f, a, b))
        if kind == 'C':
            return n, lambda a, b: (at('XC', a, b), at('YC', a, b))
        D = self.dbl(g)
        if kind == 'U':
            return (add(n[0], ONE), n[1]), lambda a, b: D(mul(TWO, a), add(mul(TWO, b), ONE))
        return (n[0], add(n[1], ONE)), lambda a, b: D(add(mul(TWO, a), ONE), mul(TWO, b))

    def key(self, I, kind):
        """(parent lon, parent lat, regional lon, regional lat) of the points of one kind"""
        out = []
        for g in 'pr':
            sh, f = self.points(g, kind)
            for k in (0, 1):
                out.append(lam_term(I, I.lam_arr(sh, lambda ix: f(*ix)[k])))
        return tuple(out)

    def required(self, I, r, edge, p, d, t, meth):
        kind = KIND[r]
        ck = 'key' + kind
        if ck not in self.__dict__:
            self.__dict__[ck] = self.key(I, kind)
        z = () if r in FLAT else (d,)
        it = self.time(t)
        field = lam_term(I, I.lam_arr((self.nip, self.njp), lambda ix: atom(mk('app', 'in', 'res:' + r, it, *z, ix[1], ix[0]))))
        j = self.index(edge, p)
        if edge == 'S' and kind == 'V' or edge == 'W' and kind == 'U':
            j = add(j, ONE)
        ix = (p, j) if edge in 'NS' else (j, p)
        return atom(mk('app', 'regridded', meth, *self.__dict__[ck], field, *ix))


def obname(edge, r):
    return sstr(RDIR, '/OB%s%s' % (edge, r.lower()))


def model(seed, ints):
    return Model(seed, ints)


def method_of(t):
    for s in subterms(t):
        if s.kind == 'app' and s.args[0] == 'regridded':
            return s.args[1]
    return T.string('bilinear')


def content(rep, sc, r, edge, tag='', regs=REG):
    """the file of one response and edge: exists, layout, entries"""
    c, I = sc.case, sc.I
    fn = obname(edge, r)
    nm = '%sOB%s%s' % (tag, edge, r.lower())
    opens = [e for e in I.events if e.kind == 'open' and e.data[0] == fn and any(m in str(e.data[1]) for m in 'wax+')]
    evs = [e for e in I.events if e.kind == 'tofile' and (e.data['target'].attrs['name'] if isinstance(e.data['target'], ObjV) else e.data['target']) == fn]
    if any(e.inloop for e in evs) or any(e.kind in ('fwrite', 'fseek') for e in I.events):
        return rep.und(nm, 'written piecewise')
    if not evs:
        if [e for e in I.events if e.kind in ('tofile', 'open') and not clear_name(e)]:
            return rep.und(nm, 'a file with a name not resolved is written')
        return rep.bad(nm + ' is written', 'no file of that name is written in the results directory', 'simplegrid.getobcs.getobcs')
    site = evs[0].site
    if len(evs) > 1 and not (opens and len(opens) == 1):
        return rep.bad(nm + ' is written once', 'written %d times' % len(evs), evs[1].site)
    if opens and ('w' not in str(opens[0].data[1]) or 'b' not in str(opens[0].data[1])):
        rep.bad(nm + ' is opened for binary writing from the start', 'mode %r' % (opens[0].data[1],), opens[0].site)
    else:
        rep.ok(nm + ' is opened for binary writing from the start', 'event')
    e = evs[0]
    if e.data['dtype'] != '>f8':
        rep.bad(nm + ' holds big-endian doubles', 'type %s' % e.data['dtype'], site)
    else:
        rep.ok(nm + ' holds big-endian doubles', 'event')
    if e.pc is not TRUE and decide(e.pc, I.base_ctx) is not True:
        if compare(rep, nm + ' is always written', ite(e.pc, ONE, ZERO), ONE, I.base_ctx, [model] * 3, site=site) != 'ok':
            return
    if len(evs) > 1:
        return rep.und(nm + ' layout', 'written in pieces')
    a = e.data['arr']
    L, nd, nt = c.length(edge), c.depths(r), c.nt()
    tot = ONE
    for x in a.shape:
        tot = mul(tot, x)
    ctx0 = I.base_ctx.copy()
    ctx0.fact(sub(nt, ONE))
    ctx0.fact(sub(c.nf, nt))
    if eq_terms(rep, nm + ' has points x depths x times entries', (tot,), (mul(L, nd, nt),), ctx0, site) == 'bad':
        return
    for x in a.shape:
        # the code's own spelling of the number of distinct times
        if T.alpha(x) is T.alpha(nt):
            nt = x
    sh = tuple(a.shape)
    for rp in regs:
        ctx = ctx0.copy()
        p = region(ctx, 'n:p', L, rp)
        d = region(ctx, 'n:d', nd, 'any') if nd is not ONE else ZERO
        t = region(ctx, 'n:t', nt, 'any')
        PR.CUR.append(ctx)
        try:
            if (a.ndim == 3 and sh == (nt, nd, L) and e.data['order'] != 'F'):
                code = I.elem(a, (t, d, p))
            elif (a.ndim == 3 and sh == (L, nd, nt) and e.data['order'] == 'F'):
                code = I.elem(a, (p, d, t))
            else:
                k = add(p, mul(L, d), mul(L, nd, t))
                code = linear(I, a, e.data['order'], k)
            code, _ = resolve(code, ctx)
            spec = c.required(I, r, edge, p, d, t, method_of(code))
            compare(rep, '%s slot [%s point, any depth, any time]' % (nm, rp), code, spec, ctx, [model] * 3, site=site)
        except (Unresolvable, Unsupported) as ex:
            rep.und(nm + ' slot', str(ex))
        finally:
            PR.CUR.pop()


def linear(I, a, order, k):
    from .files import linear_elem
    return linear_elem(I, a, order, k)


def clear_name(e):
    n = e.data[0] if e.kind == 'open' else e.data['target']
    if isinstance(n, ObjV):
        n = n.attrs.get('name')
    return isinstance(n, str) or isinstance(n, SStr) and all(isinstance(q, str) or q[0] == 'sym' for q in n.parts)


def absent(rep, sc, r, edge, tag, why):
    nm = '%sOB%s%s is not written (%s)' % (tag, edge, r.lower(), why)
    fn = obname(edge, r)
    for e in sc.I.events:
        if e.kind in ('open', 'tofile', 'memmap'):
            n = e.data[0] if e.kind != 'tofile' else (e.data['target'].attrs['name'] if isinstance(e.data['target'], ObjV) else e.data['target'])
            if n == fn:
                if e.pc is TRUE or decide(e.pc, sc.I.base_ctx) is True:
                    return rep.bad(nm, 'the file is written', e.site)
                if compare(rep, nm, ite(e.pc, ONE, ZERO), ZERO, sc.I.base_ctx, [model] * 3, site=e.site) != 'ok':
                    return
    rep.ok(nm, 'event scan')


def closed(rep, sc, tag):
    n = 0
    for e in sc.I.events:
        if e.kind == 'open' and isinstance(e.data[2], ObjV) and any(m in str(e.data[1]) for m in 'wax+'):
            n += 1
            cell = sc.I.heap.get(e.data[2].oid)
            cl = cell and cell['closed']
            nm = '%sfile %s is closed' % (tag, e.data[0])
            if cl is None:
                rep.und(nm, 'file state unknown')
            elif cl is TRUE or isbool(cl) and decide(cl) is True:
                rep.ok(nm, 'typestate')
            else:
                rep.bad(nm, 'still open at return', e.site)
    return n


def start(rep, tag, **kw):
    c = Case(**kw)
    sc = c.run(rep)
    if sc.error:
        rep.und(tag + 'analysis', sc.error)
        return None
    if sc.ret is DEAD:
        ev = [e for e in sc.I.events if e.kind == 'raise']
        rep.bad(tag + 'returns', 'every path raises %s' % (ev[-1].data[0] if ev else ''), ev[-1].site if ev else 'simplegrid.getobcs.getobcs')
        return None
    no_raises(rep, sc, tag)
    return sc


def no_raises(rep, sc, tag):
    for e in sc.I.events:
        if e.kind == 'raise':
            d = decide(e.pc, sc.I.base_ctx)
            if d is True:
                rep.bad(tag + 'raises nothing', '%s raised' % (e.data[0],), e.site)
            elif d is None:
                compare(rep, tag + 'raises nothing', ite(e.pc, ONE, ZERO), ZERO, sc.I.base_ctx, [model] * 3, site=e.site)


def C28(rep):
    E = dict((v, k) for k, v in EDGE_OF.items())

    def given(form, regs=REG):
        def f(r):
            sc = start(r, (form or 'no') + ' vectors: ', present=('T',), vecs={n: form for n in OBV} if form else {})
            if sc:
                for e in 'NSEW':
                    content(r, sc, 'T', e, (form or 'no') + ' vectors: ', regs)
        return f

    def off(edge, form):
        def f(r):
            for others in (None, 'list'):
                vecs = {n: others for n in OBV} if others else {}
                vecs[E[edge]] = form
                tag = '%s=%s, others %s: ' % (E[edge], form, others or 'omitted')
                sc = start(r, tag, present=('T',), vecs=vecs)
                if sc:
                    for e in 'NSEW':
                        if e == edge:
                            absent(r, sc, 'T', e, tag, 'its vector is zero')
                        else:
                            content(r, sc, 'T', e, tag, ('mid',))
        return f

    def one(edge):
        def f(r):
            for form in ('list', 'array'):
                tag = 'only %s given (%s): ' % (E[edge], form)
                sc = start(r, tag, present=('T',), vecs={E[edge]: form})
                if sc:
                    for e in 'NSEW':
                        content(r, sc, 'T', e, tag, ('mid',))
        return f
    ps = [(k or 'no', given(k)) for k in (None, 'list', 'array')]
    ps += [('%s-%s' % (e, z), off(e, z)) for e in 'NSEW' for z in ('zero', 'zero1', 'zeroarray')]
    ps += [('only-' + e, one(e)) for e in 'NSEW']
    parallel(rep, ps)


def C29(rep):
    def full(r):
        sc = start(r, '')
        if sc:
            for x in RESP:
                for e in 'NSEW':
                    content(r, sc, x, e, '', ('mid',))
            closed(r, sc, '')

    def some(present, tiled):
        def f(r):
            tag = '%s results of %s: ' % ('tiled' if tiled else 'global', ','.join(present))
            sc = start(r, tag, present=present, tiled=tiled)
            if sc:
                for x in RESP:
                    for e in 'NSEW':
                        if x in present:
                            content(r, sc, x, e, tag, ('mid',))
                        else:
                            absent(r, sc, x, e, tag, 'no results')
                closed(r, sc, tag)
        return f

    def disabled(r):
        tag = 'all boundaries disabled: '
        sc = start(r, tag, present=('T', 'U'), vecs={n: 'zero' for n in OBV})
        if sc:
            for x in ('T', 'U'):
                for e in 'NSEW':
                    absent(r, sc, x, e, tag, 'disabled')
            for e in sc.I.events:
                if e.kind in ('open', 'tofile') and decide(e.pc, sc.I.base_ctx) is not False:
                    r.bad(tag + 'writes nothing', 'a file is written', e.site)

    def order(r):
        tag = 'given vectors: '
        sc = start(r, tag, present=('T', 'Eta', 'U', 'V'), vecs=dict(OB_Jnorth='list', OB_Iwest='list', OB_Jsouth='zero'))
        if sc:
            for x in ('T', 'Eta', 'U', 'V'):
                for e in 'NEW':
                    content(r, sc, x, e, tag, REG)
                absent(r, sc, x, 'S', tag, 'disabled')
    parallel(rep, [('all', full), ('tiled', some(('T', 'S', 'UICE', 'VICE'), True)), ('ice only', some(('T', 'UICE'), False)), ('tracers', some(('T', 'Eta', 'W', 'V'), True)),
                   ('disabled', disabled), ('order', order)])


def C30(rep):
    def files(present, vecs, tag):
        def f(r):
            sc = start(r, tag, present=present, vecs=vecs)
            if sc:
                for x in present:
                    for e in 'NSEW':
                        content(r, sc, x, e, tag)
        return f

    def weights(r):
        sc = start(r, '', present=('T', 'U', 'V'))
        if not sc:
            return
        evs = [e for e in sc.I.events if e.kind == 'regridder']
        seen = {}
        for e in evs:
            k = e.data.attrs
            fn = k['kw'].get('filename')
            key = (k['in']['lon'], k['in']['lat'], k['out']['lon'], k['out']['lat'])
            if fn is None or fn is NONE_:
                r.ok('weights %d are not cached' % k['id'], 'event')
                continue
            nm = 'cached weights of regridder %d' % k['id']
            if not isinstance(fn, SStr) or fn.parts[0] != ('sym', 'resultsdir') or not isinstance(fn.parts[1], str) or not fn.parts[1].startswith('/'):
                if isinstance(fn, (str, SStr)) and not (isinstance(fn, SStr) and any(q[0] in ('unk', 'opaque') for q in fn.parts if not isinstance(q, str))):
                    r.bad(nm + ' are kept in the results directory', 'file name %r' % (fn,), e.site)
                else:
                    r.und(nm, repr(fn))
                continue
            r.ok(nm + ' are kept in the results directory', 'string value')
            for k2, (f2, s2) in seen.items():
                if may_equal(fn, f2) and k2 != key:
                    r.bad(nm + ' have a name of their own', 'shares the name pattern %r with the weights made at %s' % (fn, s2), e.site)
                    break
            else:
                r.ok(nm + ' have a name of their own', 'string values')
            seen[key] = (fn, e.site)
        if not evs:
            r.und('weights', 'no regridder is constructed')
    allv = {n: 'list' for n in OBV}
    ps = [('weights', weights)]
    for g in (('T', 'S'), ('T', 'Eta', 'W'), ('T', 'U'), ('T', 'UICE'), ('T', 'V'), ('T', 'VICE')):
        ps.append((' '.join(g), files(g, {}, 'default vectors, ')))
        ps.append((' '.join(g) + ' given', files(g, allv, 'given vectors, ')))
    parallel(rep, ps)


NONE_ = None


def may_equal(a, b):
    """can two symbolic names be the same string for some values of their numbers?  (numbers are digit strings)"""
    import re as R
    def rx(s):
        out = ''
        for q in (s.parts if isinstance(s, SStr) else [s]):
            out += R.escape(q) if isinstance(q, str) else ('0' if q[0] in ('num', 'str', 'int') else 'Q')
        return out
    return rx(a) == rx(b)


def C31(rep):
    F = dict(present=('T',))
    cases = [
        ('results directory not named', dict(drop=('parent_resultsdir',))),
        ('results directory None', dict(kw=dict(parent_resultsdir=None))),
        ('results directory empty', dict(kw=dict(parent_resultsdir=''))),
        ('no regional grid', dict(regional=None)),
        ('regional grid None', dict(regional=None, kw=dict(regional_mitgridfile=None, regional_mitgrid_matrices=None, ni_regional=isym('n:nir', 1), nj_regional=isym('n:njr', 1)))),
    ]
    for g, nm in (('parent', 'parent'), ('regional', 'regional')):
        for d in (('ni',), ('nj',), ('ni', 'nj')):
            keys = tuple('%s_%s' % (x, g) for x in d)
            other = 'file' if g == 'regional' else 'matrices'
            cases.append(('%s grid file without %s' % (g, ' and '.join(keys)), dict(parent='file' if g == 'parent' else 'matrices', regional='file' if g == 'regional' else 'matrices', drop=keys)))
            cases.append(('%s grid file with %s None' % (g, ' and '.join(keys)), dict(parent='file', regional='file', kw={k: None for k in keys})))

    def refuse(tag, kw):
        def f(r):
            for verbose in (FALSE, TRUE):
                c = Case(**dict(F, **kw))
                sc = c.run(r, verbose=verbose)
                nm = tag + (' (verbose)' if verbose is TRUE else '')
                first = next((e for e in sc.I.events if e.kind in ('mkdir', 'open', 'tofile', 'fs', 'regridder', 'memmap') and not (e.kind == 'open' and e.data[1] in ('r', 'rb'))), None)
                if first is not None and (first.pc is TRUE or decide(first.pc, sc.I.base_ctx) is not False):
                    r.bad(nm + ': nothing is created', '%s before the input is refused' % first.kind, first.site)
                elif sc.error:
                    r.und(nm, sc.error)
                else:
                    r.ok(nm + ': nothing is created', 'event scan')
                if sc.error:
                    continue
                ev = [e for e in sc.I.events if e.kind == 'raise']
                if sc.ret is not DEAD:
                    r.bad(nm + ': refused', 'accepted', 'simplegrid.getobcs.getobcs')
                elif not ev or ev[-1].data[0] != 'ValueError' or ev[-1].data[2]:
                    r.bad(nm + ': refused with ValueError', '%s instead' % (ev[-1].data[0] if ev else 'no exception',), ev[-1].site if ev else '')
                else:
                    r.ok(nm + ': refused with ValueError', 'path enumeration')
        return f

    def fromrun(r):
        tag = 'no parent grid given: '
        for kw in ({}, dict(parent_mitgridfile=None, parent_mitgrid_matrices=None), dict(ni_parent=None, nj_parent=None)):
            sc = start(r, tag, present=('T',), parent=None, kw=kw)
            if sc:
                if sc.case.mds2 != 1:
                    r.bad(tag + 'taken from the results directory', 'mds2mitgrid is called %d times' % sc.case.mds2, 'simplegrid.getobcs.getobcs')
                else:
                    r.ok(tag + 'taken from the results directory', 'call')
                content(r, sc, 'T', 'N', tag, ('mid',))

    def accepted(gridfiles):
        def f(r):
            for p in ('file', 'matrices'):
                for g in ('file', 'matrices'):
                    tag = 'parent %s, regional %s%s: ' % (p, g, ', grid files in the results directory' if gridfiles else '')
                    sc = start(r, tag, present=('T',), parent=p, regional=g, gridfiles=gridfiles, tiled=gridfiles and g == 'file')
                    if sc:
                        n = sc.case.mds2
                        if n:
                            r.bad(tag + 'the given parent grid is used', 'mds2mitgrid is called', 'simplegrid.getobcs.getobcs')
                        content(r, sc, 'T', 'E', tag, ('mid',))
        return f
    parallel(rep, [(t, refuse(t, k)) for t, k in cases] + [('from run', fromrun), ('accepted', accepted(False)), ('accepted, grid files present', accepted(True))])


def strict_reads(judge):
    def f(r):
        for strict in (TRUE, FALSE):
            for verbose in (TRUE, FALSE):
                for p, g, n in (('file', 'file', 2), ('matrices', 'file', 1), ('file', 'matrices', 1), (None, 'file', 1)):
                    c = Case(present=('T',), parent=p, regional=g)
                    sc = c.run(r, strict, verbose)
                    judge(r, 'getobcs parent=%s regional=%s strict=%s verbose=%s' % (p, g, show(strict), show(verbose)), c.reads, strict, n, sc)
    return f
