"""C27: grid fields of an MITgcm run directory."""
from .gridspec import *
from sgflow.values import *

RUN = sstr(('sym', 'rundir'))
HARMLESS = {'itrs': lambda v: isterm(v) and constval(v) == -1, 'rec': lambda v: v is None, 'returnmeta': lambda v: v in (False, FALSE), 'lev': lambda v: v == (),
            'region': lambda v: v is None, 'usememmap': lambda v: True, 'mm': lambda v: True, 'squeeze': lambda v: True, 'verbose': lambda v: True, 'fill_value': lambda v: True,
            'machineformat': lambda v: v in ('b', 'ieee-be', '>'), 'astype': lambda v: isinstance(v, Builtin) and v.name == 'float' or v is None or v in ('f8', 'float64')}


class RunDir:
    """a run directory holding some of the fields; `fail`: {field: (exception, arguments, bases)}"""

    def __init__(self, present, fail=None):
        self.present, self.fail = present, fail or {}
        self.ni, self.nj = isym('n:ni', 1), isym('n:nj', 1)
        self.asked = []

    def rdmds(self, I, env, node):
        a = dict(env)
        fn = a.pop('fnamearg', None)
        name = fn.parts[-1].split('/')[-1] if isinstance(fn, SStr) and isinstance(fn.parts[-1], str) else None
        if not (isinstance(fn, SStr) and fn.parts[0] == ('sym', 'rundir') and len(fn.parts) == 2 and fn.parts[1].lstrip('/') == name) or name is None:
            raise Unsupported('read of %r' % (fn,), node)
        for k, v in a.items():
            f = HARMLESS.get(k)
            if f is None and isinstance(v, DictRef) and not dict_of(I, v) or isinstance(v, (list, tuple)) and not v:
                continue
            if f is None or not f(v):
                raise Unsupported('read with %s=%r' % (k, v), node)
        self.asked.append(name)
        if name in self.fail:
            x, args, bases = self.fail[name]
            e = Exc(x, args)
            e.bases = bases
            I.do_raise(x, args, node, e)
        if name not in self.present:
            I.do_raise('IOError', (sstr('No files found for ', fn, '.meta'),), node)
        return I.lam_arr((self.nj, self.ni), lambda ix: atom(mk('app', 'in', EPOCH[0] + 'run:' + name, *ix)))

    def run(self, rep, verbose=FALSE):
        sc = Scenario(rep, {('simplegrid.mds', 'rdmds'): self.rdmds})
        sc.call('simplegrid.mds2mitgrid', 'mds2mitgrid', [RUN], dict(verbose=verbose))
        return sc


def converted(rep, tag, R, sc, regs=REG):
    site = 'simplegrid.mds2mitgrid.mds2mitgrid'
    if sc.error:
        return rep.und(tag + 'analysis', sc.error)
    if sc.ret is DEAD:
        ev = sc.events('raise')
        return rep.bad(tag + 'returns', 'raises %s' % ([e.data[0] for e in ev],), ev[0].site if ev else site)
    if not isinstance(sc.ret, tuple) or len(sc.ret) != 3 or not isinstance(sc.ret[0], DictRef):
        return rep.und(tag + 'result', repr(sc.ret)) if isinstance(sc.ret, (Unk, Choice)) else rep.bad(tag + 'result', repr(sc.ret), site)
    I = sc.I
    d = dict_of(I, sc.ret[0])
    for n in NAMES:
        nm = '%s%s' % (tag, n)
        v = d.get(n, UNDEF)
        if n not in R.present:
            if v is None:
                rep.ok(nm + ' is empty', 'value')
            elif isinstance(v, (Unk, Choice)):
                rep.und(nm + ' is empty', repr(v))
            else:
                rep.bad(nm + ' is empty', 'a field without files is %r' % (v,), site)
            continue
        if isinstance(v, Choice):
            v = d[n] = only_arrays(rep, nm, v, I, [lambda s, i: Model(s, i)] * 3, site)
        if not isinstance(v, Arr):
            rep.und(nm, repr(v)) if isinstance(v, (Unk, Choice)) else rep.bad(nm + ' is converted', 'a field with files is %r' % (v,), site)
            continue
        eq_terms(rep, nm + ' shape', tuple(v.shape), shape_of(n, R.ni, R.nj), I.base_ctx, site)
    elem_obligations(rep, I, d, lambda n, i, j: ite(land(lt(i, R.ni), lt(j, R.nj)), atom(mk('app', 'in', 'run:' + n, j, i)), ZERO),
                     R.present, R.ni, R.nj, [lambda s, i: Model(s, i)] * 3, tag, regs=regs)
    want = (R.ni, R.nj) if R.present else (ZERO, ZERO)
    g = tuple(I.scalar(x) if isinstance(x, Arr) and x.ndim == 0 else x for x in sc.ret[1:])
    if all(isterm(x) for x in g):
        if R.present:
            eq_terms(rep, tag + 'tracer counts', g, want, I.base_ctx, site)
    else:
        rep.und(tag + 'tracer counts', repr(g)) if any(isinstance(x, (Unk, Choice)) for x in g) else rep.bad(tag + 'tracer counts', repr(g), site)
    extra = [k for k in d if k not in NAMES]
    if extra:
        rep.bad(tag + 'no other fields', repr(extra), site)


FAILS = [('ValueError', ('Meta files not compatible',), ('Exception',)), ('KeyError', ('dimList',), ()), ('AssertionError', (), ()), ('ParseError', ('meta',), ('ValueError', 'Exception')),
         ('PermissionError', (num(13), 'Permission denied'), ()), ('IsADirectoryError', (num(21), 'Is a directory'), ()), ('OSError', (num(5), 'Input/output error'), ()),
         ('UnicodeDecodeError', (), ()), ('TypeError', (), ()), ('MemoryError', (), ())]


def C27(rep):
    ps = []

    def good(tag, present, regs=REG):
        def fn(r):
            R = RunDir(present)
            converted(r, tag + ': ', R, R.run(r), regs)
        ps.append((tag, fn))
    good('every field present', NAMES)
    good('no field present', ())
    for n in NAMES:
        rest = tuple(x for x in NAMES if x != n)
        good('%s absent' % n, rest, ('any',))
        good('only %s present' % n, (n,), REG if TIER != 'quick' else ('any',))
    rng = random.Random(SEED)
    for k in range(4 if TIER == 'quick' else 24):
        sub_ = tuple(x for x in NAMES if rng.random() < .5)
        good('only %s present' % ', '.join(sub_), sub_, ('any',))

    def faults(n, which):
        def fn(r):
            for f in which:
                nm = 'a %s while reading %s is reported' % (f[0], n)
                R = RunDir(NAMES, {n: f})
                sc = R.run(r)
                ev = sc.events('raise')
                if sc.error:
                    r.und(nm, sc.error)
                elif sc.ret is DEAD and ev:
                    r.ok(nm, 'path enumeration')
                elif not R.asked or n not in R.asked:
                    r.und(nm, 'the field is not read')
                else:
                    r.bad(nm, 'the failure is turned into a result', 'simplegrid.mds2mitgrid.mds2mitgrid')
        return fn
    for n in NAMES:
        ps.append(('faults ' + n, faults(n, FAILS if n in ('XC', 'DYG', 'RAZ') or TIER != 'quick' else FAILS[:2])))

    def dflt(r):
        """the real reader announces absent files with an error that is not mistaken for another failure"""
        R = RunDir(())
        sc = Scenario(r)
        sc.I.glob_hook = lambda I, pattern, node: I.mklist([])
        sc.call('simplegrid.mds2mitgrid', 'mds2mitgrid', [RUN], {})
        converted(r, 'empty directory with the real reader: ', R, sc)
    ps.append(('empty directory', dflt))
    parallel(rep, ps)
