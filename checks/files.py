"""C01, C02, C03: the grid file format."""
from .gridspec import *

FILE = sstr(('sym', 'gridfile'))


def ni_nj():
    return isym('n:ni', 1), isym('n:nj', 1)


def slice_size(ni, nj):
    return mul(add(ni, ONE), add(nj, ONE))


def stream_of(I, path):
    """byte stream written to one path: list of (array, dtype, order, count)"""
    out = []
    names = set()
    opened = {}
    for e in I.events:
        if e.kind == 'open':
            opened[id(e.data[2])] = e
        if e.kind == 'tofile':
            t = e.data['target']
            nm = t.attrs['name'] if isinstance(t, ObjV) else t
            names.add(nm if isinstance(nm, str) else repr(nm))
            if nm == path:
                if e.inloop:
                    raise Unsupported('write inside a symbolic loop')
                out.append(e)
        if e.kind == 'fwrite':
            raise Unsupported('raw write')
    return out


def linear_elem(I, a, order, k):
    """element number k of the flattened array"""
    ix = []
    if order == 'F':
        dims = list(range(a.ndim))
    else:
        dims = list(reversed(range(a.ndim)))
    pos = [None] * a.ndim
    r = k
    for d in dims[:-1]:
        n = a.shape[d]
        q = fdiv(r, n)
        pos[d] = sub(r, mul(n, q))
        r = q
    if a.ndim:
        pos[dims[-1]] = r
    return I.elem(a, tuple(pos))


def run_write(rep, verbose=FALSE, dicter=None, absent=()):
    sc = Scenario(rep)
    I = sc.I
    ni, nj = ni_nj()
    sc.ni, sc.nj = ni, nj
    d = {n: I.new_arr(shape_of(n, ni, nj), Inp(n), owner="the griddata argument ['%s']" % n) for n in NAMES}
    d.update({n: None for n in absent})
    sc.dref = I.mkdict(d)
    I.owner[sc.dref.oid] = 'the griddata argument'
    sc.call('simplegrid.gridio', 'write_mitgridfile', [FILE, sc.dref, ni, nj], dict(verbose=verbose))
    return sc


def value_model(seed, ints):
    return Model(seed, ints)


def check_write(rep, absent=()):
    tag = '' if not absent else 'with %s left empty, ' % ' and '.join(absent)
    sc = run_write(rep, absent=absent)
    if sc.error:
        return rep.und(tag + 'writer', sc.error)
    if sc.ret is DEAD:
        return rep.bad(tag + 'writer returns', 'every path raises')
    if absent:
        for e in raise_events(sc.I):
            if decide(e.pc) is True:
                rep.bad(tag + 'writer returns', 'raises', e.site)
    I, ni, nj = sc.I, sc.ni, sc.nj
    try:
        evs = stream_of(I, FILE)
    except Unsupported as e:
        return rep.und(tag + 'stream', e.why)
    opens = [e for e in I.events if e.kind == 'open' and e.data[0] == FILE]
    site = evs[0].site if evs else ''
    if not evs:
        other = [e for e in I.events if e.kind in ('tofile', 'open')]
        return rep.bad(tag + 'writes the named file', 'no array is written to the named file (other file events: %s)' % [repr(e.data)[:60] for e in other][:3])
    writers = [e for e in opens if any(c in str(e.data[1]) for c in 'wax+')]
    if any('a' in str(e.data[1]) or '+' in str(e.data[1]) and 'w' not in str(e.data[1]) for e in writers):
        rep.bad(tag + 'file is truncated when opened', 'opened with mode %r' % writers[0].data[1], writers[0].site)
    elif writers and any('b' not in str(e.data[1]) for e in writers):
        rep.bad(tag + 'file is opened in binary mode', 'opened with mode %r' % writers[0].data[1], writers[0].site)
    else:
        rep.ok(tag + 'file is opened for binary writing from the start')
    if len([1 for e in writers]) > 1:
        rep.bad(tag + 'file opened once', 'opened for writing %d times' % len(writers), writers[1].site)
    if not writers and len(evs) > 1:
        rep.bad(tag + 'records follow each other', 'each record overwrites the file', evs[1].site)
    # types
    badt = [e for e in evs if e.data['dtype'] != '>f8']
    if badt:
        rep.bad(tag + 'entries are big-endian 8-byte floats', 'written with type %s' % badt[0].data['dtype'], badt[0].site)
    else:
        rep.ok(tag + 'entries are big-endian 8-byte floats')
    for e in I.events:
        if e.kind == 'fseek':
            rep.und(tag + 'sequential', 'seeks in the output')
            return
    # lengths
    S = slice_size(ni, nj)
    base = []
    tot = ZERO
    for e in evs:
        n = ONE
        for x in e.data['arr'].shape:
            n = mul(n, x)
        base.append((tot, n))
        tot = add(tot, n)
    if eq_terms(rep, tag + 'file holds sixteen records of (ni+1)*(nj+1) entries', (tot,), (mul(num(16), S),), I.base_ctx, site) == 'bad':
        return
    # conditions
    for e in evs:
        if e.pc is not TRUE:
            d = decide(e.pc)
            if d is not True:
                rep.bad(tag + 'every record is always written', 'written only when %s' % show(e.pc), e.site)
                break
    else:
        rep.ok(tag + 'every record is always written')
    models = [value_model] * 3
    for idx, name in enumerate(NAMES):
        if absent and name not in absent and NAMES[(idx + 1) % 16] not in absent:
            continue
        for ri in REG:
            for rj in REG:
                nm = tag + 'record %d (%s) entry [%s,%s]' % (idx, name, ri, rj)
                ctx = I.base_ctx.copy()
                i = region(ctx, 'n:i', add(ni, ONE), ri)
                j = region(ctx, 'n:j', add(nj, ONE), rj)
                PR.CUR.append(ctx)
                try:
                    k = add(mul(num(idx), S), i, mul(add(ni, ONE), j))
                    code = None
                    for e, (b, n) in zip(evs, base):
                        r = sub(k, b)
                        if decide(land(le(ZERO, r), lt(r, n)), ctx) is True:
                            code = linear_elem(I, e.data['arr'], e.data['order'], r)
                            st = e.site
                            break
                    if code is None:
                        # offsets not decided symbolically: position falls in no single event
                        rep.und(nm, 'entry position not located')
                        continue
                    di, dj = DI[name], DJ[name]
                    inside = land(lt(i, add(ni, num(di))), lt(j, add(nj, num(dj))))
                    spec = ite(inside, app('nan') if name in absent else atom(mk('app', 'in', name, i, j)), ZERO)
                    compare(rep, nm, code, spec, ctx, models, site=st)
                except (Unresolvable, Unsupported) as ex:
                    rep.und(nm, str(ex))
                finally:
                    PR.CUR.pop()
    close_obligation(rep, I, tag + 'the file is closed when the writer returns')


def close_obligation(rep, I, nm):
    n = 0
    for e in I.events:
        if e.kind == 'open' and isinstance(e.data[2], ObjV) and any(c in str(e.data[1]) for c in 'wax+'):
            n += 1
            cell = I.heap.get(e.data[2].oid)
            c = cell and cell['closed']
            if c is None:
                rep.und(nm, 'file state unknown')
            elif c is TRUE:
                rep.ok(nm, 'typestate')
            else:
                d = decide(c) if isbool(c) else None
                if d is True:
                    rep.ok(nm, 'typestate')
                else:
                    rep.bad(nm, 'the file opened at %s is still open at return%s' % (e.site, '' if c is FALSE else ' unless ' + show(c)), e.site)
    return n


# ------------------------------------------------------------------ reader
def run_read(rep, strict=FALSE, verbose=FALSE):
    sc = Scenario(rep)
    I = sc.I
    ni, nj = ni_nj()
    sc.ni, sc.nj = ni, nj
    I.filesizes = {tstr(FILE): mul(num(16), slice_size(ni, nj))}
    sc.call('simplegrid.gridio', 'read_mitgridfile', [FILE, ni, nj], dict(strict=strict, verbose=verbose))
    return sc


def file_at(ni, nj, name, i, j):
    k = add(mul(num(NAMES.index(name)), slice_size(ni, nj)), i, mul(add(ni, ONE), j))
    return atom(mk('app', 'file', tstr(FILE), T.string('>f8'), k))


def check_read(rep, strict=FALSE, tag=''):
    sc = run_read(rep, strict)
    if sc.error:
        return rep.und(tag + 'reader', sc.error)
    if sc.ret is DEAD:
        return rep.bad(tag + 'reader returns', 'every path raises')
    I, ni, nj = sc.I, sc.ni, sc.nj
    if not isinstance(sc.ret, DictRef):
        if isinstance(sc.ret, (Unk, Choice)):
            return rep.und(tag + 'reader result', repr(sc.ret))
        return rep.bad(tag + 'reader result', 'returns %r' % (sc.ret,))
    d = dict_of(I, sc.ret)
    shape_obligations(rep, I, d, ni, nj, tag)
    elem_obligations(rep, I, d, lambda n, i, j: file_at(ni, nj, n, i, j), NAMES, ni, nj, [value_model] * 3, tag)


def raise_events(I, name=None):
    out = []
    for e in I.events:
        if e.kind == 'raise' and (name is None or e.data[0] == name):
            out.append(e)
    return out


def check_strict_reader(rep):
    sc = run_read(rep, TRUE)
    if sc.error:
        return rep.und('strict reader', sc.error)
    I, ni, nj = sc.I, sc.ni, sc.nj
    evs = [e for e in I.events if e.kind == 'raise']
    rt = [e for e in evs if e.data[0] == 'RuntimeError']
    other = [e for e in evs if e.data[0] != 'RuntimeError']
    err = {'n': None}

    def fires(seed, ni_, nj_, nz):
        """does some RuntimeError condition hold for a file whose only nonzero padding entries are nz: {(name, i, j): value}?"""
        S = (ni_ + 1) * (nj_ + 1)

        def filef(key, dt, k):
            k = int(k)
            f, p = divmod(k, S)
            if not (0 <= f < 16) or dt != 's:>f8':
                return h01(seed, 'junk', dt, k) + .1
            j, i = divmod(p, ni_ + 1)
            nm = NAMES[f]
            pad = i >= ni_ + DI[nm] or j >= nj_ + DJ[nm]
            if not pad:
                return h01(seed, nm, i, j) - .5
            return nz.get((nm, i, j), 0.0)
        M = Model(seed, {'n:ni': ni_, 'n:nj': nj_}, fn={'file': filef})
        for e in rt:
            if M.ev(e.pc):
                return e
        for e in other:
            if M.ev(e.pc):
                err['n'] = e
        return None
    rng = random.Random(SEED)
    for name in NAMES:
        di, dj = DI[name], DJ[name]
        pads = []
        for ni_, nj_ in ((3, 4), (1, 1), (4, 2)):
            for i in range(ni_ + 1):
                for j in range(nj_ + 1):
                    if i >= ni_ + di or j >= nj_ + dj:
                        pads.append((ni_, nj_, i, j))
        if not pads:
            rep.ok('strict %s (no padding)' % name)
            continue
        missed = None
        try:
            cases = []
            for ni_, nj_, i, j in pads:
                for v in (rng.random() + .1, -rng.random() - .1, 1e-13, -1e-13, 5e-324, 1e300):
                    cases.append((ni_, nj_, {(name, i, j): v}))
            # several nonzero entries whose sum, or sum over a row, column or corner, is zero
            for ni_, nj_ in ((3, 4), (1, 1), (4, 2)):
                here = [(i, j) for a, b, i, j in pads if (a, b) == (ni_, nj_)]
                for _ in range(3):
                    if len(here) > 1:
                        x, y = rng.sample(here, 2)
                        v = rng.random() + .1
                        cases.append((ni_, nj_, {(name,) + x: v, (name,) + y: -v}))
                    cases.append((ni_, nj_, {(name,) + x: rng.random() - .5 for x in here}))
            for ni_, nj_, nz in cases:
                rep.models += 1
                if fires(rng.randint(0, 9 ** 9), ni_, nj_, nz) is None:
                    missed = (ni_, nj_, nz)
                    break
        except EvalError as e:
            rep.und('strict %s' % name, str(e))
            continue
        if missed:
            rep.bad('strict rejects nonzero padding of %s' % name, 'for ni=%d, nj=%d, nonzero padding %s is trimmed but no RuntimeError condition holds' % (missed[0], missed[1], ', '.join('%s[%d,%d]=%r' % (k + (v,)) for k, v in list(missed[2].items())[:3])), rt[0].site if rt else '')
        else:
            rep.ok('strict rejects nonzero padding of %s' % name, 'raise condition evaluated on padding positions')
    try:
        hit = None
        for ni_, nj_ in ((3, 4), (1, 1), (2, 5)):
            hit = hit or fires(rng.randint(0, 9 ** 9), ni_, nj_, {})
        if hit is not None:
            rep.bad('strict accepts clean padding', 'RuntimeError condition holds on a clean file', hit.site)
        else:
            rep.ok('strict accepts clean padding', 'raise condition evaluated')
        if err['n'] is not None:
            rep.bad('only RuntimeError is raised', '%s raised' % err['n'].data[0], err['n'].site)
    except EvalError as e:
        rep.und('strict clean', str(e))
    # strict off
    sc = run_read(rep, FALSE)
    if sc.error:
        return rep.und('non-strict reader', sc.error)
    evs = [e for e in sc.I.events if e.kind == 'raise']
    hit = None
    try:
        for e in evs:
            for k in range(6):
                M = Model(k, {'n:ni': 2 + k % 3, 'n:nj': 2 + k % 2})
                if M.ev(e.pc):
                    hit = e
    except EvalError as ex:
        return rep.und('non-strict never fails on padding', str(ex))
    if hit or sc.ret is DEAD:
        rep.bad('non-strict never fails on padding', 'raises %s without strict' % (hit.data[0] if hit else '?'), hit.site if hit else '')
    else:
        rep.ok('non-strict never fails on padding', 'raise conditions')
