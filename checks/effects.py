"""C24, C25, C26: what the operations leave alone - the caller's data, the process, standard output, the file system."""
import re
from .grids import *
from . import files as FL
from . import tiles as TL
from . import sources as SRC
from . import search as SE
from . import obcs as OB
from . import output as OU
from . import meta as ME
from . import cli as CL
from sgflow.values import *
from sgflow import arrays as AR
from sgflow.iso import Iso

VAL = [lambda s, k: Model(s, k)] * 2


class Op:
    """one call of a public operation.  run(rep, verbose) -> Scenario; writes(name) tells whether a file may be written"""

    def __init__(self, name, site, run, models=VAL, writes=None, verbose=True, some=False):
        self.name, self.site, self.run, self.models, self.some = name, site, run, models, some and TIER == 'quick'
        self.writes = writes or (lambda n: False)
        self.verbose = verbose


def _nij(I):
    return isym('n:ni', 1), isym('n:nj', 1)


def _read(rep, strict, verbose):
    sc = Scenario(rep)
    ni, nj = FL.ni_nj()
    sc.I.filesizes = {tstr(FL.FILE): mul(num(16), FL.slice_size(ni, nj))}
    sc.call('simplegrid.gridio', 'read_mitgridfile', [FL.FILE, ni, nj], dict(strict=strict, verbose=verbose))
    return sc


def _pair(ea, eb, stitch):
    def f(rep, verbose, strict=FALSE):
        P = TL.Pair(ea, eb)
        f.case = P
        if stitch:
            log = []
            return P.run(rep, 'simplegrid.stitch', 'stitch', strict, verbose, {('simplegrid.addfringe', 'addfringe'): TL.fringe_stub(P, log)})
        return P.run(rep, strict=strict, verbose=verbose)
    return f


def _pair_models(ea, eb):
    return TL.Pair(ea, eb).models()


def _source(kind, files=None, k=0, **kw):
    def f(rep, verbose):
        c = SRC.SourceCase(k, kind, files)

        def extra(I, case):
            I.textshapes = {tstr(x): (c.n0, c.n1) for x in files or ()}
            I.filesizes = {tstr(x): mul(c.n0, c.n1) for x in files or ()}
            d = {'mitgrid_matrices': None, 'ni': case.ni, 'nj': case.nj}
            if kind == 'gridfile':
                d['mitgridfile'] = SRC.GF
            elif files:
                d['xg_file'], d['yg_file'] = files
            return d
        sc = c.run(rep, verbose, extra=extra)
        if c.bad:
            sc.error = sc.error or 'search on unexpected matrices'
        return sc
    return f


def _matrices(k):
    def f(rep, verbose):
        c = RegridCase(k)
        return c.run(rep, verbose)
    return f


def _area(fn):
    def f(rep, verbose):
        sc = Scenario(rep)
        I = sc.I
        n, m = isym('n:na', 2), isym('n:nb', 2)
        sc.call('simplegrid.util', fn, [I.new_arr((n, m, num(3)), Inp('cart'), 'f8', 'the cart argument')])
        return sc
    return f


def _nearest(rep, verbose):
    return SE.run_nearest(rep)


def _cart(rep, verbose):
    sc = Scenario(rep)
    I = sc.I
    n, m = isym('n:na', 1), isym('n:nb', 1)
    sc.call('simplegrid.util', 'lonlat2cart', [I.new_arr((n, m), Inp('lons'), 'f8', 'the lons argument'), I.new_arr((n, m), Inp('lats'), 'f8', 'the lats argument')])
    return sc


def _match(ea, eb):
    def f(rep, verbose):
        t = TL.Tiles(ea, eb)
        sc = TL.run_match(rep, t, ea, eb, True, verbose)
        return sc
    return f


def _obcs(**kw):
    def f(rep, verbose):
        c = OB.Case(**kw)
        return c.run(rep, verbose=verbose)
    return f


def _meta(rep):
    F_ = ME.Files(nd=3, itr=True)
    return F_


def _wrmds(nd=3, itr=True, **kw):
    def f(rep, verbose):
        F_ = ME.Files(nd=nd, itr=itr, **kw)
        sc = Scenario(rep)
        I = sc.I
        F_.bounds(I)
        a = I.new_arr(tuple(F_.dims), Inp('data'), 'f8', 'the arr argument')
        k = {x: I.mklist(v) if isinstance(v, list) else v for x, v in dict(dataprec=F_.dataprec, machineformat=F_.machineformat).items()}
        if F_.itr is not None:
            k['itr'] = F_.itr
        if F_.times:
            k['times'] = I.mklist(F_.times)
            I.owner[k['times'].oid] = 'the times argument'
        if F_.fields:
            k['fields'] = I.mklist(F_.fields)
            I.owner[k['fields'].oid] = 'the fields argument'
        for x in ('dataprec', 'machineformat'):
            if isinstance(k[x], ListRef):
                I.owner[k[x].oid] = 'the %s argument' % x
        sc.call('simplegrid.mds', 'wrmds', [ME.FB, a], k)
        return sc
    return f


TEXTS = {}


def _rdmds(rkw=None, nd=3, itr=True, iters=None, tag='', **kw):
    def f(rep, verbose):
        F_ = ME.Files(nd=nd, itr=itr, **kw)
        key = (nd, itr, tuple(sorted(map(str, kw.items()))))
        if key not in TEXTS:
            keep = (Scenario.reuse, Scenario.edit, Scenario.before, AR.EPOCH[0])
            Scenario.reuse = Scenario.edit = Scenario.before = None
            AR.EPOCH[0] = ''
            w = F_.write(rep)
            TEXTS[key] = ME.written_text(w.I, sstr(F_.base(), '.meta')) if not w.error and w.ret is not DEAD else None
            Scenario.reuse, Scenario.edit, Scenario.before, AR.EPOCH[0] = keep
        sc = Scenario(rep)
        I = sc.I
        if TEXTS[key] is None:
            sc.error = 'metadata text not derived'
            sc.first_event = len(I.events)
            return sc
        base = F_.base()
        F_.bounds(I)
        I.textlines = {tstr(sstr(base, '.meta')): F_.lines(TEXTS[key])}
        I.filesizes = {tstr(sstr(base, '.data')): mul(*F_.dims)}
        I.glob_hook = ME.glob_of([sstr(base, '.meta'), sstr(base, '.data')])
        k = dict(machineformat='b')
        for x, v in (rkw or {}).items():
            k[x] = I.mklist(v) if isinstance(v, list) else v
            if isinstance(v, list):
                I.owner[k[x].oid] = 'the %s argument' % x
        if verbose is not None:
            k['verbose'] = verbose
        args = [ME.FB]
        if F_.itr is not None:
            it = F_.itr
            if iters == 'list':
                it = I.mklist([F_.itr])
                I.owner[it.oid] = 'the itrs argument'
            args.append(it)
        sc.call('simplegrid.mds', 'rdmds', args, k)
        return sc
    return f


def _under(prefix):
    """is the file name below a path given by the caller?"""
    def f(n):
        if not isinstance(n, SStr):
            return False
        p = n.parts
        q = prefix.parts
        return len(p) > len(q) and tuple(p[:len(q)]) == tuple(q) and isinstance(p[len(q)], str) and p[len(q)].startswith('/') and '..' not in ''.join(x for x in p if isinstance(x, str))
    return f


def operations():
    ops = [
        Op('mkgrid', 'simplegrid.mkgrid.mkgrid', lambda r, v: run_mkgrid(r, v), geo_models()[:3]),
    ]
    for k in range(4):
        ops.append(Op('regrid of matrices (%d turns)' % k, 'simplegrid.regrid.regrid', _matrices(k), mesh_models()[:3], some=k != 1))
    ops += [
        Op('regrid of a grid file', 'simplegrid.regrid.regrid', _source('gridfile'), mesh_models()[:3], some=True),
        Op('regrid of a text pair', 'simplegrid.regrid.regrid', _source('csv', SRC.CSV[0]), mesh_models()[:3], some=True),
        Op('regrid of a binary pair', 'simplegrid.regrid.regrid', _source('bin', SRC.BIN[0]), mesh_models()[:3], some=True),
    ]
    prs = TL.PAIRS
    for ea, eb in prs:
        t = '%s-%s' % (EDGE_NAME(ea), EDGE_NAME(eb))
        ops.append(Op('addfringe %s' % t, 'simplegrid.addfringe.addfringe', _pair(ea, eb, False), _pair_models(ea, eb), some=(ea, eb) != prs[0]))
    ops += [Op('stitch %s' % '%s-%s' % (EDGE_NAME(ea), EDGE_NAME(eb)), 'simplegrid.stitch.stitch', _pair(ea, eb, True)) for ea, eb in TL.PAIRS]
    ops += [Op('matchedges %s' % '%s-%s' % (EDGE_NAME(ea), EDGE_NAME(eb)), 'simplegrid.matchedges.matchedges', _match(ea, eb)) for ea, eb in prs]
    ops += [
        Op('nearest', 'simplegrid.util.nearest', _nearest, verbose=False),
        Op('lonlat2cart', 'simplegrid.util.lonlat2cart', _cart, verbose=False),
        Op('squad_uarea', 'simplegrid.util.squad_uarea', _area('squad_uarea'), verbose=False),
        Op('pquad_uarea', 'simplegrid.util.pquad_uarea', _area('pquad_uarea'), verbose=False),
        Op('write_mitgridfile', 'simplegrid.gridio.write_mitgridfile', lambda r, v: FL.run_write(r, v), writes=lambda n: n == FL.FILE),
        Op('write_mitgridfile with fields absent', 'simplegrid.gridio.write_mitgridfile', lambda r, v: FL.run_write(r, v, absent=('XG', 'RAS')), writes=lambda n: n == FL.FILE),
        Op('read_mitgridfile', 'simplegrid.gridio.read_mitgridfile', lambda r, v: _read(r, FALSE, v)),
        Op('read_mitgridfile strict', 'simplegrid.gridio.read_mitgridfile', lambda r, v: _read(r, TRUE, v)),
        Op('mds2mitgrid', 'simplegrid.mds2mitgrid.mds2mitgrid', lambda r, v: OU.RunDir(NAMES).run(r, v)),
        Op('mds2mitgrid of a partial directory', 'simplegrid.mds2mitgrid.mds2mitgrid', lambda r, v: OU.RunDir([n for n in NAMES if n not in ('RAZ', 'DXV', 'RAW')]).run(r, v)),
        Op('wrmds', 'simplegrid.mds.wrmds', _wrmds(), writes=lambda n: _mdsname(n), verbose=False),
        Op('wrmds with times and fields', 'simplegrid.mds.wrmds', _wrmds(nd=4, times=2, fields=['THETA', 'SALT'], dataprec=['float64']), writes=lambda n: _mdsname(n), verbose=False),
        Op('wrmds without iteration number', 'simplegrid.mds.wrmds', _wrmds(nd=2, itr=False), writes=lambda n: _mdsname(n), verbose=False),
        Op('rdmds', 'simplegrid.mds.rdmds', _rdmds()),
        Op('rdmds of a list of iterations', 'simplegrid.mds.rdmds', _rdmds(iters='list')),
        Op('rdmds memory-mapped', 'simplegrid.mds.rdmds', _rdmds(dict(mm=TRUE), itr=False)),
        Op('rdmds reading through a memory map', 'simplegrid.mds.rdmds', _rdmds(dict(usememmap=TRUE), itr=False)),
        Op('rdmds of records', 'simplegrid.mds.rdmds', _rdmds(dict(rec=[ONE, ZERO]), nd=4)),
        Op('rdmds of levels', 'simplegrid.mds.rdmds', _rdmds(dict(lev=[ONE, ZERO]), nd=3)),
        Op('rdmds of a region', 'simplegrid.mds.rdmds', _rdmds(dict(region=[ZERO, ONE, ZERO, ONE]), nd=3)),
    ]
    ob = _under(OB.RDIR)
    for nm, kw in (('getobcs', dict()), ('getobcs with index vectors', dict(vecs={n: 'list' for n in OB.OBV})), ('getobcs with index arrays', dict(vecs={n: 'array' for n in OB.OBV})),
                   ('getobcs of grid files', dict(parent='file', regional='file', tiled=True))):
        ops.append(Op(nm, 'simplegrid.getobcs.getobcs', _obcs(**kw), writes=ob))
    return ops


def _mdsname(n):
    return isinstance(n, SStr) and isinstance(ME.FB, SStr) and tuple(n.parts[:len(ME.FB.parts)]) == tuple(ME.FB.parts) and isinstance(n.parts[-1], str) and re.search(r'\.(data|meta)$', n.parts[-1]) is not None and '/' not in ''.join(x for x in n.parts if isinstance(x, str))


def EDGE_NAME(e):
    return TL.EDGE[e]


# ------------------------------------------------------------------ feasibility
def feasible(I, e, models):
    """True, False or None (not decided) - can the event happen?"""
    if e.pc is TRUE:
        return True
    d = decide(e.pc, I.base_ctx)
    if d is not None:
        return d
    rng = random.Random(SEED)
    syms = int_syms(e.pc) | ctx_syms(I.base_ctx)
    for scale in (4, 9, 40, 3000) if CV.datafree(e.pc) else (4, 4, 9):
        for mk_ in models:
            for _ in range(3):
                ints = sample(I.base_ctx, syms, rng, small=scale)
                if ints is None:
                    continue
                try:
                    if mk_(rng.randint(0, 10 ** 9), ints).ev(e.pc):
                        return True
                except EvalError:
                    pass
    if not CV.datafree(e.pc):
        for mk_ in models:
            ints = sample(I.base_ctx, syms, rng)
            if ints is not None and CV.reach(mk_, rng.randint(0, 10 ** 9), ints, e.pc, {}, True, [CV.Lim.steps]) is not None:
                return True
    return None


def events_of(sc):
    return sc.I.events[getattr(sc, 'first_event', 0):]


def analysed(rep, op, sc, tag):
    if sc.error:
        rep.und(tag + 'analysis', sc.error)
        return False
    return True


# ------------------------------------------------------------------ comparing two results
class Differ:
    def __init__(self, rep, op, tag):
        self.rep, self.op, self.tag = rep, op, tag
        self.iso = Iso()

    def value(self, nm, Ia, a, Ib, b):
        r = self.rep
        if isinstance(a, Arr) and a.ndim == 0:
            a = Ia.scalar(a)
        if isinstance(b, Arr) and b.ndim == 0:
            b = Ib.scalar(b)
        if isinstance(a, (Unk, Choice)) or isinstance(b, (Unk, Choice)):
            if isinstance(a, Choice) and isinstance(b, Choice):
                return self.value(nm, Ia, a.a, Ib, b.a), self.value(nm, Ia, a.b, Ib, b.b)
            return r.und(nm, '%r / %r' % (a, b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.dtype != b.dtype:
                return r.bad(nm, 'element types %s and %s' % (a.dtype, b.dtype), self.op.site)
            if eq_terms(r, nm + ' shape', tuple(a.shape), tuple(b.shape), Ib.base_ctx, self.op.site) == 'bad' or a.ndim != b.ndim:
                return
            if self.iso.arrays(Ia, a, Ib, b):
                return r.ok(nm, 'isomorphic derivations')
            for which in ('mid',) if self.op.some else ('first', 'mid', 'last'):
                ctx = Ib.base_ctx.copy()
                ix = tuple(region(ctx, 'n:x%d' % k, n, which) for k, n in enumerate(b.shape))
                PR.CUR.append(ctx)
                try:
                    compare(r, nm + ' [%s]' % which, Ia.elem(a, ix), Ib.elem(b, ix), ctx, self.op.models, self.op.site)
                except (Unresolvable, Unsupported) as e:
                    r.und(nm, str(e))
                finally:
                    PR.CUR.pop()
            return
        if isinstance(a, DictRef) and isinstance(b, DictRef):
            da, db = dict_of(Ia, a), dict_of(Ib, b)
            ka, kb = sorted(map(repr, da)), sorted(map(repr, db))
            if ka != kb:
                return r.bad(nm + ' keys', '%s / %s' % (ka, kb), self.op.site)
            for k in da:
                self.value('%s[%r]' % (nm, k) if isinstance(k, str) else nm + ' entry', Ia, da[k], Ib, db[k])
            return
        if isinstance(a, (tuple, ListRef)) and type(a) is type(b):
            ia, ib = (x if isinstance(x, tuple) else I.list_items(x) for I, x in ((Ia, a), (Ib, b)))
            if len(ia) != len(ib):
                return r.bad(nm + ' length', '%d / %d' % (len(ia), len(ib)), self.op.site)
            for k, (x, y) in enumerate(zip(ia, ib)):
                self.value('%s[%d]' % (nm, k), Ia, x, Ib, y)
            return
        if isinstance(a, SeqSeg) and isinstance(b, SeqSeg):
            return r.ok(nm, 'structural') if repr(a) == repr(b) else r.und(nm, 'sequences not compared')
        if isterm(a) and isterm(b):
            f = lambda t: ite(t, ONE, ZERO) if isbool(t) else t
            try:
                return compare(r, nm, f(a), f(b), Ib.base_ctx, self.op.models, self.op.site)
            except (Unresolvable, Unsupported) as e:
                return r.und(nm, str(e))
        if is_str(a) and is_str(b) or a is None and b is None or type(a) in (bool, int, float) and type(a) is type(b):
            return r.ok(nm, 'value') if a == b else r.bad(nm, '%r / %r' % (a, b), self.op.site)
        if type(a) is type(b):
            if a is b or repr(a) == repr(b):
                return r.ok(nm, 'structural')
            return r.und(nm, '%r / %r' % (a, b))
        r.bad(nm, '%r / %r' % (a, b), self.op.site)

    def raises(self, nm, Ia, ea, Ib, eb):
        """the same exceptions under the same conditions"""
        r = self.rep
        names = sorted({str(e.data[0]) for e in ea + eb})
        for n in names:
            ca = [e for e in ea if str(e.data[0]) == n]
            cb = [e for e in eb if str(e.data[0]) == n]
            pa, pb = (lor(*[e.pc for e in c]) if c else FALSE for c in (ca, cb))
            s = (cb or ca)[0].site
            if pa is pb:
                r.ok('%s %s' % (nm, n), 'identical conditions')
                continue
            if opaque(pa) or opaque(pb):
                r.und('%s %s' % (nm, n), 'condition not modelled')
                continue
            compare(r, '%s %s' % (nm, n), ite(pb, ONE, ZERO) if isbool(pb) else pb, ite(pa, ONE, ZERO), Ib.base_ctx, self.op.models, s)


def filekey(e):
    d = e.data
    nm = lambda o: o.attrs.get('name') if isinstance(o, ObjV) else o
    if e.kind == 'open':
        return ('open', nm(d[0]), str(d[1]))
    if e.kind == 'close':
        return ('close', nm(d))
    if e.kind == 'tofile':
        return ('tofile', nm(d['target']), d['dtype'], d['order'])
    if e.kind == 'fwrite':
        return ('fwrite', nm(d[0]), repr(d[1]))
    if e.kind == 'memmap':
        return ('memmap',) + tuple(map(str, d))
    return (e.kind, repr(d))


FILE_EVENTS = ('open', 'tofile', 'fwrite', 'memmap', 'mkdir', 'fs')


def wmode(m):
    return m is None or any(c in str(m) for c in 'wax+')


def write_events(sc):
    return [e for e in events_of(sc) if e.kind in ('tofile', 'fwrite', 'mkdir', 'fs') or e.kind == 'open' and wmode(e.data[1])]


# ------------------------------------------------------------------ C24
def private(name):
    return isinstance(name, str) and name.startswith('simplegrid')


def module_state(I):
    """values held by the modules themselves: module variables and everything created while the modules were loaded"""
    return dict(I.heap), {m.name: dict(m.env) for m in I.mods.values()}


def C24(rep):
    def one(r, op):
        tag = op.name + ': '
        S = {}

        def before(I):
            for f in sorted(os.listdir(os.path.join(REPO, 'simplegrid'))):
                if f.endswith('.py') and f != 'setup.py':
                    I.module('simplegrid' + ('' if f == '__init__.py' else '.' + f[:-3]))
            S['h'], S['m'] = module_state(I)
            S['n'] = I.nobj
        # only what exists before the arguments are made belongs to the modules
        orig = Scenario.__init__

        def init(self, *a, **k):
            orig(self, *a, **k)
            if Scenario.reuse is None:
                before(self.I)
        Scenario.__init__ = init
        try:
            sc = op.run(r, FALSE)
        finally:
            Scenario.__init__ = orig
        if not analysed(r, op, sc, tag):
            return
        I = sc.I
        evs = I.events
        found = {}
        for kind, nm in (('mutate', 'arguments are not modified'), ('global_state', 'process-wide settings are not changed')):
            worst = 'ok'
            for e in evs:
                if e.kind != kind or kind == 'global_state' and private(e.data):
                    continue
                f = feasible(I, e, op.models)
                what = 'modifies %s' % e.data if kind == 'mutate' else 'changes %s' % (e.data,)
                if f is True:
                    r.bad(tag + nm, what, e.site)
                    worst = 'bad'
                    break
                if f is None and worst == 'ok':
                    worst = 'und'
                    r.und(tag + nm, what + ' under ' + show(e.pc)[:120])
            if worst == 'ok':
                r.ok(tag + nm, 'effect analysis')
        # does the call leave something behind that a later call could see?
        left = [o for o, c in S['h'].items() if I.heap.get(o) is not c]
        for m in I.mods.values():
            old = S['m'].get(m.name, {})
            for k, v in m.env.items():
                w = old.get(k, UNDEF)
                if v is not w and not (type(v) is type(w) and repr(v) == repr(w) and not isinstance(v, (DictRef, ListRef, Arr, ObjV))):
                    left.append('%s.%s' % (m.name, k))
        if not left:
            r.ok(tag + 'nothing is left behind in module variables', 'effect analysis')
            return
        # it does: a call after a call with other data must give what a first call gives
        AR.EPOCH[0] = 'earlier '
        try:
            s0 = op.run(r, FALSE)
        finally:
            AR.EPOCH[0] = ''
        if s0.error:
            return r.und(tag + 'a later call does not depend on an earlier one', 'earlier call: %s' % s0.error)
        Scenario.reuse = s0.I
        n = len(s0.I.events)
        try:
            s1 = op.run(r, FALSE)
        finally:
            Scenario.reuse = None
        if s1.error:
            return r.und(tag + 'a later call does not depend on an earlier one', 'later call: %s' % s1.error)
        d = Differ(r, op, tag)
        nm = tag + 'result of a call after another call'
        if (s1.ret is DEAD) != (sc.ret is DEAD):
            return r.bad(nm, 'a call that %s when first %s after another call' % (('raises', 'returns') if sc.ret is DEAD else ('returns', 'raises')), op.site)
        if s1.ret is not DEAD:
            d.value(nm, s1.I, s1.ret, I, sc.ret)
        d.raises(nm + ' errors', I, [e for e in evs if e.kind == 'raise'], s1.I, [e for e in s1.I.events[n:] if e.kind == 'raise'])
    parallel(rep, [(op.name, lambda r, op=op: one(r, op)) for op in operations()])


# ------------------------------------------------------------------ C25
def C25(rep):
    def quiet(r, op, tag, sc):
        ev = [e for e in events_of(sc) if e.kind == 'stdout']
        nm = tag + 'nothing is printed'
        und = None
        for e in ev:
            f = feasible(sc.I, e, op.models)
            if f is True:
                return r.bad(nm, 'writes to standard output %s' % (repr(e.data)[:100],), e.site)
            if f is None:
                und = e
        if und is not None:
            return r.und(nm, 'prints under %s' % show(und.pc)[:150])
        r.ok(nm, 'effect analysis')

    def drop(kw):
        kw = dict(kw)
        kw.pop('verbose', None)
        return kw

    def one(r, op):
        a = op.run(r, FALSE)
        tag = op.name + ': '
        if not analysed(r, op, a, tag + 'verbose off '):
            return
        quiet(r, op, tag + 'verbose off: ', a)
        if not op.verbose:
            return
        Scenario.edit = drop
        try:
            c = op.run(r, FALSE)
        finally:
            Scenario.edit = None
        if analysed(r, op, c, tag + 'verbose not given '):
            quiet(r, op, tag + 'verbose not given: ', c)
        b = op.run(r, TRUE)
        if not analysed(r, op, b, tag + 'verbose on '):
            return
        d = Differ(r, op, tag)
        nm = tag + 'verbose on/off: '
        if (a.ret is DEAD) != (b.ret is DEAD):
            ev = [e for e in events_of(b if b.ret is DEAD else a) if e.kind == 'raise']
            r.bad(nm + 'returns', 'raises only with verbose %s' % ('on' if b.ret is DEAD else 'off'), ev[-1].site if ev else op.site)
        elif a.ret is not DEAD:
            d.value(nm + 'result', b.I, b.ret, a.I, a.ret)
        d.raises(nm + 'errors', a.I, [e for e in events_of(a) if e.kind == 'raise'], b.I, [e for e in events_of(b) if e.kind == 'raise'])
        fa, fb = write_events(a), write_events(b)
        ka, kb = [filekey(e) for e in fa], [filekey(e) for e in fb]
        if list(map(str, ka)) != list(map(str, kb)):
            x = next((e for e, k in zip(fb, kb) if str(k) not in set(map(str, ka))), (fb or fa)[0])
            r.bad(nm + 'files', 'the files written differ: %s / %s' % ([str(k)[:80] for k in ka if k not in kb][:3], [str(k)[:80] for k in kb if k not in ka][:3]), x.site)
        else:
            same = True
            for e, f in zip(fa, fb):
                if e.pc is not f.pc:
                    same = False
                    compare(r, nm + 'condition of %s' % e.kind, ite(f.pc, ONE, ZERO), ite(e.pc, ONE, ZERO), a.I.base_ctx, op.models, f.site)
                if e.kind == 'tofile':
                    d.value(nm + 'contents written', b.I, f.data['arr'], a.I, e.data['arr'])
            if same:
                r.ok(nm + 'files', 'event sequence')
    pieces = [(op.name, lambda r, op=op: one(r, op)) for op in operations()]

    def tool(r, t):
        off = lambda name: FALSE if name == 'verbose' else None
        sc = CL.run_cli(r, t)
        op = Op('sg' + t, 'simplegrid.%s.main' % t, None)
        if not analysed(r, op, sc, op.name + ': '):
            return
        v = bapp('arg', T.string('verbose'))
        nm = op.name + ' without -v: nothing is printed'
        for e in events_of(sc):
            if e.kind == 'stdout':
                if e.pc is v or decide(land(e.pc, lnot(v)), sc.I.base_ctx) is False:
                    continue
                if e.pc is TRUE or decide(e.pc, sc.I.base_ctx) is True:
                    return r.bad(nm, 'writes to standard output %s' % (repr(e.data)[:100],), e.site)
                return r.und(nm, 'prints under %s' % show(e.pc)[:150])
        r.ok(nm, 'effect analysis')
    pieces += [('sg' + t, lambda r, t=t: tool(r, t)) for t in CL.TOOLS]
    parallel(rep, pieces)


# ------------------------------------------------------------------ C26
def C26(rep):
    def name_of(o):
        return o.attrs.get('name') if isinstance(o, ObjV) else o

    def judge(r, op, tag, sc):
        I = sc.I
        nm = tag + 'only the files the caller names are written'
        und, bad = None, None
        n = 0
        for e in events_of(sc):
            if e.kind == 'open' and wmode(e.data[1]):
                f, what = name_of(e.data[0]), 'opens %s for writing (mode %r)' % (e.data[0], e.data[1])
            elif e.kind == 'tofile':
                f, what = name_of(e.data['target']), 'writes %s' % (name_of(e.data['target']),)
            elif e.kind == 'memmap' and str(e.data[1]) not in ('r', 'c', 'readonly', 'copyonwrite'):
                f, what = name_of(e.data[0]), 'maps %s writable (mode %r)' % (e.data[0], e.data[1])
            elif e.kind == 'mkdir':
                if op.site.startswith('simplegrid.getobcs') and (e.data == OB.RDIR):
                    n += 1
                    continue
                f, what = name_of(e.data), 'creates directory %s' % (e.data,)
            elif e.kind == 'regridder':
                # xesmf keeps the weights it computes in the file it is given
                f = e.data.attrs['kw'].get('filename')
                if f is None:
                    continue
                what = 'keeps regridding weights in %s' % (f,)
                q = f.parts if isinstance(f, SStr) else ()
                if len(q) > 1 and q[0] == ('sym', 'resultsdir') and isinstance(q[1], str) and q[1].startswith('/'):
                    n += 1
                    continue
                if not isinstance(f, (str, SStr)) or any(x[0] in ('unk', 'opaque') for x in q if not isinstance(x, str)):
                    f = Unk('name')
            elif e.kind == 'fs':
                f, what = None, 'changes the file system: %s' % (e.data,)
            else:
                continue
            n += 1
            if e.kind != 'fs' and isinstance(f, Unk):
                und = und or 'name not resolved'
                continue
            if e.kind in ('open', 'tofile') and op.writes(f) or e.kind == 'mkdir' and op.writes(f):
                continue
            x = feasible(I, e, op.models)
            if x is True:
                bad = (what, e.site)
                break
            if x is None:
                und = und or what + ' under ' + show(e.pc)[:120]
        if bad:
            r.bad(nm, *bad)
        elif und:
            r.und(nm, und)
        else:
            r.ok(nm, 'effect analysis')
        nm = tag + 'files opened for writing are closed'
        k = 0
        for e in events_of(sc):
            if e.kind == 'open' and wmode(e.data[1]) and isinstance(e.data[2], ObjV):
                k += 1
                cell = I.heap.get(e.data[2].oid)
                cl = cell and cell['closed']
                if cl is None:
                    r.und(nm, 'file state unknown')
                elif cl is TRUE or isbool(cl) and decide(cl, I.base_ctx) is True:
                    r.ok(nm, 'typestate')
                elif sc.ret is not DEAD:
                    # closed on every path that opened it?
                    if isbool(cl) and decide(lor(cl, lnot(e.pc)), I.base_ctx) is True:
                        r.ok(nm, 'typestate')
                    else:
                        r.bad(nm, 'the file opened here is still open at return', e.site)

    def one(r, op):
        for v, t in ((FALSE, ''), (TRUE, ' (verbose)')):
            if v is TRUE and not op.verbose:
                continue
            sc = op.run(r, v)
            tag = op.name + t + ': '
            if not sc.error or write_events(sc):
                judge(r, op, tag, sc)
            if sc.error:
                r.und(tag + 'analysis', sc.error)
    parallel(rep, [(op.name, lambda r, op=op: one(r, op)) for op in operations()])
