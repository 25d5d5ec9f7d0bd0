"""C23: command-line tools; C03 (forwarding part): strict mode reaches every grid file that is read."""
from .grids import *
from . import tiles as TL
from . import sources as SRC

INT, FLOAT, STR, FLAG, INTS = 'int', 'float', 'str', 'flag', 'ints'
CORNERS = {k: FLOAT for k in ('lon1', 'lat1', 'lon2', 'lat2')}
SCALES = {'lon_subscale': INT, 'lat_subscale': INT}
TILES2 = {'tilea': STR, 'nia': INT, 'nja': INT, 'tileb': STR, 'nib': INT, 'njb': INT}
SV = {'strict': FLAG, 'verbose': FLAG}
OBCS = {'OB_Jnorth': INTS, 'OB_Jsouth': INTS, 'OB_Ieast': INTS, 'OB_Iwest': INTS}
TOOLS = {
    'mkgrid': dict(CORNERS, **SCALES, verbose=FLAG),
    'regrid': dict(CORNERS, **SCALES, **SV, mitgridfile=STR, xg_file=STR, yg_file=STR, ni=INT, nj=INT),
    'addfringe': dict(TILES2, **SV),
    'stitch': dict(TILES2, **SV),
    'getobcs': dict(SV, **OBCS, parent_mitgridfile=STR, ni_parent=INT, nj_parent=INT, regional_mitgridfile=STR, ni_regional=INT, nj_regional=INT,
                    parent_resultsdir=STR, resultsdir=STR),
}
OPTIONAL = {'mkgrid': ('verbose',), 'regrid': ('mitgridfile', 'xg_file', 'yg_file', 'strict', 'verbose'), 'addfringe': ('strict', 'verbose'), 'stitch': ('strict', 'verbose'),
            'getobcs': ('strict', 'verbose', 'resultsdir') + tuple(OBCS)}


def want_value(I, name, ty):
    if ty == INT:
        return isym('n:arg:' + name)
    if ty == FLOAT:
        return sym('f:arg:' + name)
    if ty == FLAG:
        return bapp('arg', T.string(name))
    return None


def flat_env(I, env):
    kw = {}
    for k, v in env.items():
        if isinstance(v, DictRef):
            d = dict_of(I, v)
            if all(isinstance(x, str) for x in d):
                kw.update(d)
                continue
        kw[k] = v
    return kw


def run_cli(rep, tool, hook=None, fail=False):
    log, writes = [], []
    ops = {}

    def op(I, env, node):
        log.append((flat_env(I, env), land(*I.pcs), I.site(node)))
        if fail:
            I.do_raise('ValueError', ('planned',), node)
        g = I.mkdict({n: I.new_arr(shape_of(n, isym('n:outni', 1), isym('n:outnj', 1)), Inp('out:' + n)) for n in NAMES})
        ops['grid'] = g
        if tool == 'getobcs':
            return None
        if tool == 'addfringe':
            return (num(2), num(3), g)
        return (g, isym('n:outni', 1), isym('n:outnj', 1))

    def wr(I, env, node):
        writes.append((list(env.values()), land(*I.pcs), I.site(node), len(log)))
        return None
    sc = Scenario(rep, {('simplegrid.' + tool, tool): op, ('simplegrid.gridio', 'write_mitgridfile'): wr})
    if hook:
        sc.I.arg_hook = hook
    sc.call('simplegrid.' + tool, 'main', [])
    sc.log, sc.writes, sc.ops = log, writes, ops
    return sc


def same(I, got, name, ty):
    """is the value the command received for this option the value the option was given?"""
    if isinstance(got, Arr) and got.ndim == 0:
        got = I.scalar(got)
    w = want_value(I, name, ty)
    if w is not None:
        return got is w
    if ty == STR:
        return isinstance(got, SStr) and tuple(got.parts) == (('arg', name),)
    if ty == INTS:
        if not isinstance(got, ListRef):
            return False
        it = I.list_items(got)
        return len(it) == 1 and isinstance(it[0], SeqSeg) and isterm(it[0].val) and any(
            t.kind == 'app' and t.args[0] == 'argitem' and t.args[1] is T.string(name) for t in subterms(it[0].val)) and any(
            t.kind == 'app' and t.args[0] == 'int' for t in subterms(it[0].val))
    return False


def tool_obligations(rep, tool):
    site0 = 'simplegrid.%s.main' % tool
    cmd = 'sg%s ' % tool
    sc = run_cli(rep, tool)
    I = sc.I
    if sc.error:
        return rep.und(cmd + 'analysis', sc.error)
    specs = next((e.data for e in I.events if e.kind == 'parse_args'), None)
    if specs is None:
        return rep.und(cmd + 'options', 'parse_args is not called')
    by = {s['dest']: s for s in specs}
    # the options exist, have the right type and are optional where documented
    opts = dict(TOOLS[tool])
    if tool != 'getobcs':
        opts['outfile'] = STR
    for o, ty in opts.items():
        s = by.get(o)
        if s is None or '--' + o not in s['names'] and '--' + o not in s['long']:
            rep.bad(cmd + '--%s exists' % o, 'the parser has no option --%s' % o, 'simplegrid.%s.create_parser' % tool)
            continue
        if ty == FLAG:
            good = s['action'] == 'store_true'
            why = 'is not a plain on/off option (action %r)' % (s['action'],)
        elif ty == INTS:
            n = s['nargs']
            good = s['type'] == 'int' and (n in ('+', '*'))
            why = 'type %s, nargs %r' % (s['type'], n)
        else:
            good = (s['type'] or 'str') == ty and s['nargs'] is None and s['action'] in (None, 'store') and s['choices'] is None
            why = 'type %s, nargs %r, action %r, choices %r' % (s['type'], s['nargs'], s['action'], s['choices'])
        if s['type'] == '?':
            rep.und(cmd + '--%s has type %s' % (o, ty), 'converter not modelled')
        elif good:
            rep.ok(cmd + '--%s has type %s' % (o, ty), 'parser table')
        else:
            rep.bad(cmd + '--%s has type %s' % (o, ty), why, 'simplegrid.%s.create_parser' % tool)
        if o in OPTIONAL[tool]:
            d = s['default']
            if s['required']:
                rep.bad(cmd + '--%s may be left out' % o, 'is required', 'simplegrid.%s.create_parser' % tool)
            elif s['has_default'] and d is not None and not (ty == FLAG and d is FALSE):
                rep.bad(cmd + '--%s may be left out' % o, 'has default %r of its own' % (d,), 'simplegrid.%s.create_parser' % tool)
            else:
                rep.ok(cmd + '--%s may be left out' % o, 'parser table')
    for s in specs:
        if s['required'] and s['dest'] not in opts:
            rep.bad(cmd + 'requires nothing else', 'requires %s' % (s['names'],), 'simplegrid.%s.create_parser' % tool)
    if sc.ret is DEAD:
        ev = sc.events('raise')
        return rep.bad(cmd + 'runs the operation', 'every path raises %s' % [e.data[:2] for e in ev][:2], ev[0].site if ev else site0)
    if not sc.log:
        return rep.und(cmd + 'runs the operation', 'the operation is not called')
    cond = lor(*[c for _, c, _ in sc.log])
    if cond is TRUE or decide(cond) is True:
        rep.ok(cmd + 'always runs the operation', 'path conditions')
    else:
        rep.bad(cmd + 'always runs the operation', 'only when %s' % show(cond)[:200], sc.log[0][2])
    for o, ty in TOOLS[tool].items():
        for env, c, site in sc.log:
            nm = cmd + 'passes --%s on' % o
            if o not in env:
                rep.bad(nm, 'the operation is called without %s' % o, site)
            elif same(I, env[o], o, ty):
                rep.ok(nm, 'value numbers')
            elif isinstance(env[o], (Unk, Choice)) or isterm(env[o]) and opaque(env[o]):
                rep.und(nm, repr(env[o]))
            else:
                rep.bad(nm, '%s receives %s' % (o, show(env[o])[:120] if isterm(env[o]) else repr(env[o])[:120]), site)
    for env, c, site in sc.log:
        extra = [k for k, v in env.items() if k not in TOOLS[tool] and v is not None]
        if extra:
            rep.und(cmd + 'passes nothing else', 'also passes %s' % extra)
    # options left out reach the operation as None
    left = [o for o in OPTIONAL[tool] if TOOLS[tool][o] not in (FLAG,)]
    if left:
        hook = lambda I_, s: (None,) if s['dest'] in left and not s['has_default'] else ((s['default'],) if s['dest'] in left else None)
        sc2 = run_cli(rep, tool, hook)
        for o in left:
            nm = cmd + 'without --%s the operation sees no value' % o
            if sc2.error or not sc2.log:
                rep.und(nm, sc2.error or 'operation not called')
            elif any(env.get(o) is not None for env, _, _ in sc2.log):
                rep.bad(nm, 'receives %r' % (sc2.log[0][0].get(o),), sc2.log[0][2])
            else:
                rep.ok(nm, 'value numbers')
    if tool == 'getobcs':
        return failing(rep, tool, cmd)
    nm = cmd + 'writes the result'
    if not sc.writes:
        rep.bad(nm, 'the grid is not written', site0)
    else:
        cond = lor(*[c for _, c, _, _ in sc.writes])
        if not (cond is TRUE or decide(cond) is True):
            rep.bad(nm + ' always', 'only when %s' % show(cond)[:200], sc.writes[0][2])
        for a, c, site, n in sc.writes:
            if len(a) < 4:
                rep.und(nm, 'writer called with %d arguments' % len(a))
                continue
            cnt = (isym('n:arg:nia'), isym('n:arg:nja')) if tool == 'addfringe' else (isym('n:outni', 1), isym('n:outnj', 1))
            if not same(I, a[0], 'outfile', STR):
                rep.bad(nm + ' to the named file', 'writes to %r' % (a[0],), site)
            else:
                rep.ok(nm + ' to the named file', 'value numbers')
            if not (isinstance(a[1], DictRef) and a[1].oid == sc.ops['grid'].oid):
                rep.bad(nm + ': the returned grid', 'writes %r' % (a[1],), site)
            else:
                rep.ok(nm + ': the returned grid', 'object identity')
            if eq_terms(rep, nm + ' with its cell counts', (a[2], a[3]), cnt, I.base_ctx, site) is None:
                pass
        if len(sc.writes) > 1 and all(c is TRUE for _, c, _, _ in sc.writes):
            rep.bad(nm + ' once', 'written %d times' % len(sc.writes), sc.writes[1][2])
    # the returned grid is written unchanged
    if 'grid' in sc.ops and sc.writes:
        d = dict_of(I, sc.ops['grid'])
        ch = [n for n in NAMES if not (isinstance(d.get(n), Arr) and isinstance(I.heap[d[n].oid], Inp))]
        rep.bad(nm + ' unchanged', 'fields %s are modified first' % ch, site0) if ch else rep.ok(nm + ' unchanged', 'object identity')
    failing(rep, tool, cmd)


def failing(rep, tool, cmd):
    sc = run_cli(rep, tool, fail=True)
    nm = cmd + 'writes nothing when the operation fails'
    if sc.error:
        return rep.und(nm, sc.error)
    ev = [e for e in sc.events('open') if any(x in str(e.data[1]) for x in 'wax+')] + sc.events('fs', 'mkdir')
    if sc.writes:
        rep.bad(nm, 'the grid writer is called', sc.writes[0][2])
    elif ev:
        rep.bad(nm, 'creates %r' % (ev[0].data[0],), ev[0].site)
    else:
        rep.ok(nm, 'path enumeration')
    if sc.ret is not DEAD:
        rep.bad(cmd + 'reports the failure', 'main returns normally when the operation raises ValueError', 'simplegrid.%s.main' % tool)
    else:
        rep.ok(cmd + 'reports the failure', 'path enumeration')


def entry_points(rep):
    import ast as A
    p = os.path.join(REPO, 'setup.py')
    try:
        tree = A.parse(open(p).read())
    except Exception as e:
        return rep.und('console scripts', str(e))
    have = {}
    for n in A.walk(tree):
        if isinstance(n, A.Constant) and isinstance(n.value, str) and '=' in n.value and ':' in n.value:
            a, _, b = n.value.partition('=')
            have[a.strip()] = b.strip()
    for t in TOOLS:
        w = 'simplegrid.%s:main' % t
        if 'sg' + t not in have:
            rep.und('sg%s is installed' % t, 'no console script found in setup.py')
        elif have['sg' + t] != w:
            rep.bad('sg%s is installed' % t, 'runs %s' % have['sg' + t], 'setup.py')
        else:
            rep.ok('sg%s is installed' % t, 'setup.py entry point')


def C23(rep):
    parallel(rep, [('sg' + t, lambda r, t=t: tool_obligations(r, t)) for t in TOOLS] + [('entry', entry_points)])


# ------------------------------------------------------------------ C03
def strict_forwarding(rep):
    def judge(r, tag, reads, strict, n, sc):
        if sc.error and len(reads) < n:
            return r.und(tag, sc.error)
        if len(reads) < n:
            return r.und(tag, 'only %d of %d grid files are read through the reader' % (len(reads), n))
        for k, (env, site) in enumerate(reads):
            s = env.get('strict')
            nm = '%s, grid file %d' % (tag, k + 1)
            if s is strict:
                r.ok(nm, 'value numbers')
            elif isinstance(s, (Unk, Choice)):
                r.und(nm, repr(s))
            else:
                v = s if s in (TRUE, FALSE) else None
                if s is None:
                    v = FALSE
                elif isterm(s) and isnum(s) and constval(s) is not None:
                    v = TRUE if constval(s) else FALSE
                r.ok(nm, 'value numbers') if v is strict else r.bad(nm, 'the reader receives strict=%s' % (show(s) if isterm(s) else s,), site)

    def regrid(r):
        for strict in (TRUE, FALSE):
            for verbose in (TRUE, FALSE):
                c = SRC.SourceCase(0, 'gridfile')
                sc = c.run(r, verbose, strict, extra=lambda I, case: dict(mitgrid_matrices=None, mitgridfile=SRC.GF, ni=case.ni, nj=case.nj))
                judge(r, 'regrid strict=%s verbose=%s' % (show(strict), show(verbose)), c.reads, strict, 1, sc)

    def tiles(mod, n):
        def f(r):
            for strict in (TRUE, FALSE):
                for verbose in (TRUE, FALSE):
                    P = TL.Pair(2, 3)
                    sc = P.run(r, 'simplegrid.' + mod, mod, strict, verbose, {('simplegrid.computegrid', 'tomitgrid'): lambda I, env, node: P.grid(I, 'new', P.na)})
                    judge(r, '%s strict=%s verbose=%s' % (mod, show(strict), show(verbose)), P.reads, strict, n, sc)
        return f
    from . import files
    from . import obcs
    ps = [('reader', lambda r: files.check_strict_reader(r)), ('regrid', regrid), ('addfringe', tiles('addfringe', 2)), ('stitch', tiles('stitch', 2)), ('getobcs', obcs.strict_reads(judge))]

    def cmd(t):
        def f(r):
            sc = run_cli(r, t)
            nm = 'sg%s passes --strict on' % t
            if sc.error or not sc.log:
                return r.und(nm, sc.error or 'operation not called')
            for env, c, site in sc.log:
                s = env.get('strict')
                if same(sc.I, s, 'strict', FLAG):
                    r.ok(nm, 'value numbers')
                elif isinstance(s, (Unk, Choice)):
                    r.und(nm, repr(s))
                else:
                    r.bad(nm, 'strict receives %s' % (show(s) if isterm(s) else repr(s)), site)
        return f
    ps += [('sg' + t, cmd(t)) for t in TOOLS if t != 'mkgrid']
    parallel(rep, ps)
