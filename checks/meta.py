"""C32, C33: MITgcm meta/data files."""
from .gridspec import *
from sgflow.values import *
from sgflow import strsym
import re
import fnmatch

MFILE = sstr(('sym', 'metafile'))


def tok(cls, name):
    return ('tok', cls, name)


def L(*parts):
    return sstr(*parts)


def number(t):
    """value of the text of an integer / real token"""
    v = sstr(t)
    return atom(mk('app', 'size', mk('app', 'intof', tstr(v)))) if t[1] == 'int' else atom(mk('app', 'floatof', tstr(v)))


i1, i2, i3, i4, i5, i6 = [tok('int', 'i%d' % k) for k in range(1, 7)]
r1, r2 = tok('float', 'r1'), tok('float', 'r2')
k1, k2, k3 = [tok('word', 'k%d' % k) for k in range(1, 4)]
n1, n2, n3 = [tok('name', 'n%d' % k) for k in range(1, 4)]
S = sstr

# well-formed pieces: (lines, {key: values})
GOOD = {
    'one integer': ([L(' ', k1, ' = [ ', i1, ' ];\n')], {S(k1): [number(i1)]}),
    'integers separated by commas': ([L(k1, ' = [ ', i1, ', ', i2, ',', i3, ' ];\n')], {S(k1): [number(i) for i in (i1, i2, i3)]}),
    'integers on several lines': ([L(' ', k1, ' = [\n'), L('    ', i1, ',  ', i2, ', ', i3, ',\n'), L(' ', i4, ', ', i5, ', ', i6, '\n'), ' ];\n'],
                                  {S(k1): [number(i) for i in (i1, i2, i3, i4, i5, i6)]}),
    'reals separated by blanks': ([L(' ', k1, ' = [  ', r1, '  ', r2, ' ];\n')], {S(k1): [number(r1), number(r2)]}),
    'a quoted string': ([L(' ', k1, " = [ '", n1, "' ];\n")], {S(k1): [S(n1)]}),
    'a braced string': ([L(' ', k1, " = { '", n1, "' };\n")], {S(k1): [S(n1)]}),
    'braced strings on several lines': ([L(' ', k1, ' = {\n'), L(" '", n1, "  ' '", n2, " '\n"), L(" '", n3, "'\n"), ' };\n'], {S(k1): [S(n1), S(n2), S(n3)]}),
    'no blanks': ([L(k1, '=[', i1, '];\n')], {S(k1): [number(i1)]}),
    'comments and empty lines': (['// heading\n', '\n', L(k1, ' = [ ', i1, ' ];  // one\n'), '/* two */\n', L(' ', k2, ' = [ ', i2, ' /* three */];\n'), '   \n'],
                                 {S(k1): [number(i1)], S(k2): [number(i2)]}),
    'several assignments': ([L(' ', k1, ' = [ ', i1, ' ];\n'), L(' ', k2, " = { '", n1, "' };\n"), L(' ', k3, ' = [\n'), L(' ', i2, ',\n'), L(i3, '\n'), ' ];\n'],
                            {S(k1): [number(i1)], S(k2): [S(n1)], S(k3): [number(i2), number(i3)]}),
}
BAD = {}
for _c in ('junk', 'junk-e', 'junk-dot'):
    _j = tok(_c, 'j')
    _w = {'junk': 'a word', 'junk-e': 'a word with an exponent letter', 'junk-dot': 'a word with a dot'}[_c]
    BAD['unparsable item (%s, alone)' % _w] = [L(' ', k1, ' = [ ', _j, ' ];\n')]
    BAD['unparsable item (%s, first)' % _w] = [L(' ', k1, ' = [ ', _j, ', ', i1, ' ];\n')]
    BAD['unparsable item (%s, last)' % _w] = [L(' ', k1, ' = [ ', i1, ', ', i2, ' ', _j, ' ];\n')]
    BAD['unparsable item (%s, other line)' % _w] = [L(' ', k1, ' = [\n'), L(i1, ',\n'), L(_j, ', ', i2, '\n'), ' ];\n']
    if _c != 'junk-dot':
        BAD['not an assignment (%s)' % _w] = [L(' ', tok('word' if _c == 'junk' else 'name', 'j'), '\n')]
BAD['unparsable item (quote not closed)'] = [L(' ', k1, " = [ '", tok('word', 'j'), ' ];\n')]
BAD['unparsable item (quote not opened)'] = [L(' ', k1, " = [ ", tok('word', 'j'), "' ];\n")]
BAD['unparsable item (nothing between commas)'] = [L(' ', k1, ' = [ ', i1, ',, ', i2, ' ];\n')]
BAD['not an assignment (closing bracket only)'] = [' ];\n']
BAD['not an assignment (closing brace only)'] = [' }\n']
BAD['not an assignment (semicolon only)'] = [' ;\n']
BAD['not an assignment (closing bracket after an assignment)'] = [L(' ', k1, ' = [ ', i1, ' ];\n'), ' ];\n']
BAD['not an assignment (closing brace after an assignment)'] = [L(' ', k1, " = { '", n1, "' };\n"), '};\n']
BAD['not an assignment (semicolon after an assignment)'] = [L(' ', k1, ' = [ ', i1, ' ];\n'), ';\n']
BAD['not an assignment (number only)'] = [L(' ', i1, ',\n')]
BAD['not an assignment (number after an assignment)'] = [L(' ', k1, ' = [ ', i1, ' ];\n'), L(i2, ' ];\n')]
BAD['not an assignment (text before the name)'] = [L(' -', k1, ' = [ ', i1, ' ];\n')]
BAD['not an assignment (dotted name)'] = [L(' ', k1, '.', k2, ' = [ ', i1, ' ];\n')]
BAD['not an assignment (text after the semicolon)'] = [L(' ', k1, ' = [ ', i1, ' ]; ', k2, '\n')]
for _c, _w in (('unit', 'a number followed by letters'), ('sign', 'a number with a stray sign'), ('exp', 'a number with an incomplete exponent')):
    _j = tok(_c, 'j')
    BAD['unparsable item (%s, alone)' % _w] = [L(' ', k1, ' = [ ', _j, ' ];\n')]
    BAD['unparsable item (%s, first)' % _w] = [L(' ', k1, ' = [ ', _j, ', ', i1, ' ];\n')]
    BAD['unparsable item (%s, last)' % _w] = [L(' ', k1, ' = [ ', i1, ', ', i2, ' ', _j, ' ];\n')]
BAD['not an assignment (bracket only)'] = [L(' [ ', i1, ' ];\n')]
BAD['not an assignment (other operator)'] = [L(' ', k1, ' : [ ', i1, ' ];\n')]
BAD['not an assignment (two names)'] = [L(' ', k1, ' ', k2, ' = [ ', i1, ' ];\n')]
BAD['no opening bracket (number)'] = [L(' ', k1, ' = ', i1, ';\n')]
BAD['no opening bracket (string)'] = [L(' ', k1, " = '", n1, "';\n")]
BAD['no opening bracket (closing bracket present)'] = [L(' ', k1, ' = ', i1, ' ];\n')]
BAD['no opening bracket (no value)'] = [L(' ', k1, ' =\n')]
BAD['no opening bracket (no value, blanks)'] = [L(' ', k1, ' =    \n')]
BAD['no opening bracket (parenthesis)'] = [L(' ', k1, ' = ( ', i1, ' );\n')]
BAD['no closing bracket (items follow)'] = [L(' ', k1, ' = [ ', i1, ';\n')]
BAD['no closing bracket (nothing follows)'] = [L(' ', k1, ' = [\n')]
BAD['no closing brace'] = [L(' ', k1, " = { '", n1, "'\n")]
BAD['other closing bracket ]'] = [L(' ', k1, " = { '", n1, "' ];\n")]
BAD['other closing bracket }'] = [L(' ', k1, ' = [ ', i1, ' };\n')]
BAD['no semicolon (bracket)'] = [L(' ', k1, ' = [ ', i1, ' ]\n')]
BAD['no semicolon (brace)'] = [L(' ', k1, " = { '", n1, "' }\n")]
BAD['no semicolon (several lines)'] = [L(' ', k1, ' = [\n'), L(i1, ',\n'), L(i2, '\n'), ' ]\n']
BAD['no semicolon (braces, several lines)'] = [L(' ', k1, ' = {\n'), L(" '", n1, "' '", n2, "'\n"), ' }\n']
BAD['no semicolon (text after the bracket)'] = [L(' ', k1, ' = [ ', i1, ' ] ', tok('word', 'j'), '\n')]
o1, o2 = tok('word', 'o1'), tok('word', 'o2')
BEFORE = [L(' ', o1, ' = [ ', tok('int', 'before'), ' ];\n'), L(' ', tok('word', 'o3'), " = { '", tok('name', 'before'), "' };\n")]
AFTER = {
    'last': [],
    'before a bracket': [L(' ', o2, ' = [ ', tok('int', 'after'), ' ];\n')],
    'before a brace': [L(' ', o2, " = { '", tok('name', 'after'), "' };\n")],
    'before other lines': [L(' ', o2, " = {\n"), L(" '", tok('name', 'after'), "'\n"), ' };\n', L(' ', tok('word', 'o4'), ' = [ ', tok('int', 'after2'), ' ];\n')],
}


def run_parse(rep, lines, fn='parsemeta', aslist=False):
    sc = Scenario(rep)
    I = sc.I
    I.textlines = {tstr(MFILE): list(lines)}
    sc.call('simplegrid.mds', fn, [I.mklist(lines) if aslist else MFILE])
    return sc


def show_lines(lines):
    return repr([''.join(p if isinstance(p, str) else '<%s>' % p[1] for p in (l.parts if isinstance(l, SStr) else (l,))) for l in lines])


def parse_error(e):
    """ParseError: an exception class of the package derived from ValueError"""
    return e.data[0] == 'ParseError' and 'ValueError' in e.data[3]


def same_value(I, got, want):
    if isinstance(got, Arr) and got.ndim == 0:
        got = I.scalar(got)
    return got is want or is_str(want) and is_str(got) and got == want


def C33(rep):
    ps = []

    def good(tag, lines, want, aslist):
        def fn(r):
            sc = run_parse(r, lines, aslist=aslist)
            nm = 'accepted: ' + tag
            if sc.error:
                return r.und(nm, sc.error)
            if sc.ret is DEAD:
                ev = sc.events('raise')
                return r.bad(nm, 'the text %s is rejected (%s)' % (show_lines(lines), [e.data[0] for e in ev]), ev[-1].site if ev else '')
            if not isinstance(sc.ret, DictRef):
                return r.und(nm, repr(sc.ret))
            d = dict_of(sc.I, sc.ret)
            for k, vs in want.items():
                got = d.get(k, UNDEF)
                if got is UNDEF:
                    if any(isinstance(x, SStr) and not strsym.known(x) for x in d):
                        r.und(nm, 'keys not resolved')
                        continue
                    r.bad(nm, 'no value for a key of %s' % show_lines(lines), 'simplegrid.mds.parsemeta')
                    continue
                if isinstance(got, (ListRef, tuple)):
                    try:
                        g = list(sc.I.lib.seq_items(sc.I, got))
                    except Unsupported as e:
                        r.und(nm, e.why)
                        continue
                    if len(g) == len(vs) and all(same_value(sc.I, x, y) for x, y in zip(g, vs)):
                        r.ok(nm, 'identical values')
                    elif any(isinstance(x, (Unk, Choice)) or isinstance(x, SStr) and not strsym.known(x) or isterm(x) and opaque(x) for x in g):
                        r.und(nm, repr(g))
                    else:
                        r.bad(nm, 'value %r instead of %r for %s' % ([show(x) if isterm(x) else x for x in g], [show(x) if isterm(x) else x for x in vs], show_lines(lines)), 'simplegrid.mds.parsemeta')
                else:
                    r.und(nm, repr(got)) if isinstance(got, (Unk, Choice, ObjV)) else r.bad(nm, 'value %r' % (got,), 'simplegrid.mds.parsemeta')
        ps.append((tag, fn))

    def bad(tag, lines):
        def fn(r):
            sc = run_parse(r, lines)
            nm = 'rejected: ' + tag
            ev = sc.events('raise')
            if sc.error:
                return r.und(nm, sc.error)
            if sc.ret is not DEAD:
                if ev and not all(decide(e.pc) is False for e in ev):
                    return r.und(nm, 'raises under a condition not decided')
                return r.bad(nm, 'the text %s is accepted' % show_lines(lines), 'simplegrid.mds.parsemeta')
            wrong = [e for e in ev if not parse_error(e)]
            if wrong:
                return r.bad(nm, 'the text %s raises %s instead of ParseError' % (show_lines(lines), wrong[0].data[0]), wrong[0].site)
            r.ok(nm, 'path enumeration')
        ps.append((tag, fn))
    for tag, (lines, want) in GOOD.items():
        good(tag, lines, want, False)
        good(tag + ' (given as lines)', lines, want, True)
        w2 = dict(want)
        w2[S(o1)] = [number(tok('int', 'before'))]
        w2[S(o2)] = [S(tok('name', 'after'))]
        good(tag + ' (between others)', BEFORE + lines + AFTER['before a brace'], w2, False)
    for tag, lines in BAD.items():
        for where, after in AFTER.items():
            bad('%s, %s' % (tag, where), lines + after)
            if TIER != 'quick' or where == 'before a bracket':
                bad('%s, after others, %s' % (tag, where), BEFORE + lines + after)
    parallel(rep, group(ps, 24))


def each(r, part):
    depth, start = len(PR.CUR), cur()
    for name, f in part:
        del PR.CUR[depth:]
        PR.CUR[-1] = start.copy()       # what one part assumes about its symbols is not known to the next
        try:
            f(r)
        except (Unsupported, Unresolvable) as e:
            r.und(name, str(e))


def group(ps, n):
    """few pieces with many small parts"""
    out = []
    for k in range(n):
        part = ps[k::n]
        if part:
            out.append((part[0][0], lambda r, part=part: each(r, part)))
    return out


# --------------------------------------------------------------------------- C32
FB = sstr(('sym', 'fbase'))
PREFIX = {'ieee-be': '>', 'b': '>', '>': '>', 'ieee-le': '', 'l': '', '<': ''}
SUFFIX = {'float32': 'f4', 'float64': 'f8'}


class Files:
    """one array written by wrmds: symbolic sizes, contents, iteration number and times"""

    def __init__(self, nd=3, itr=False, digits=3, big=False, rec=False, wkw=None, times=0, fields=None, simulation=None, machineformat='b', dataprec='float64', extra=()):
        self.names = ['nrec', 'nz', 'ny', 'nx'][-nd:] if nd <= 4 else ['n%d' % k for k in range(nd - 4)] + ['nrec', 'nz', 'ny', 'nx']
        self.nd, self.digits, self.big = nd, digits, big
        self.dims = [isym('n:' + k, 2) for k in self.names]
        self.itr = isym('n:itr', 0) if itr else None
        self.times = [sym('f:t%d' % k) for k in range(times)]
        self.fields, self.simulation, self.machineformat, self.dataprec, self.wkw = fields, simulation, machineformat, dataprec, wkw or {}
        self.rec = self.dims[:max(0, nd - 3)]
        self.core = self.dims[max(0, nd - 3):]

    def bounds(self, I):
        for d in self.dims:
            if self.big and d is self.dims[-1]:
                I.base_ctx.bound(single_atom(d), num(10000), num(10 ** 9))
            else:
                I.base_ctx.bound(single_atom(d), TWO, num(9999))
        if self.itr is not None:
            I.base_ctx.bound(single_atom(self.itr), num(10 ** (self.digits - 1) if self.digits > 1 else 0), num(10 ** self.digits - 1))

    def base(self):
        return FB if self.itr is None else sstr(FB, '.', SStr([('num', self.itr, '010d')]))

    def write(self, rep):
        sc = Scenario(rep)
        I = sc.I
        self.bounds(I)
        a = I.new_arr(tuple(self.dims), Inp('data'))
        kw = {k: I.mklist(v) if isinstance(v, list) else v for k, v in dict(dataprec=self.dataprec, machineformat=self.machineformat).items()}
        if self.itr is not None:
            kw['itr'] = self.itr
        if self.times:
            kw['times'] = I.mklist(self.times) if len(self.times) > 1 else self.times[0]
        if self.fields is not None:
            kw['fields'] = I.mklist(self.fields)
        if self.simulation is not None:
            kw['simulation'] = self.simulation
        for k, v in self.wkw.items():
            kw[k] = I.mklist(v) if isinstance(v, list) else v
        sc.call('simplegrid.mds', 'wrmds', [FB, a], kw)
        return sc

    def expand(self, s):
        """text with the padding of every number written out: each integer has `digits` digits"""
        out = []
        for p in (s.parts if isinstance(s, SStr) else (s,)):
            if isinstance(p, str):
                out.append(p)
                continue
            if p[0] != 'num':
                raise Unsupported('text %r in the metadata' % (p,))
            sp = p[2] or 'd'
            m = re.match(r'^([<>]?)(0?)(\d*)(d?)$', sp)
            if m:
                w = int(m.group(3) or 0)
                n = self.digits
                if self.big and p[1] is self.dims[-1]:
                    n = max(5, n)
                elif p[1] in self.dims:
                    n = min(n, 4)
                if m.group(2):
                    if n > w:
                        n = w
                    out.append('0' * (w - n))
                    out.append(('digits', p[1], n))
                    continue
                pad = ' ' * max(0, w - n)
                out += [('digits', p[1], n), pad] if m.group(1) == '<' else [pad, ('digits', p[1], n)]
                continue
            m = re.match(r'^(\d*)(\.\d+)?([EeGgf]?)$', sp)
            if m:
                out += ['  ' if m.group(1) else '', ('real', p[1])]
                continue
            raise Unsupported('number format %r' % sp)
        return sstr(*out)

    def lines(self, text):
        out, cur_ = [], []
        text = self.expand(text)
        for p in (text.parts if isinstance(text, SStr) else (text,)):
            if isinstance(p, str):
                while '\n' in p:
                    h, p = p.split('\n', 1)
                    out.append(sstr(*cur_, h + '\n'))
                    cur_ = []
            if p != '':
                cur_.append(p)
        if cur_:
            out.append(sstr(*cur_))
        return out

    def elem_index(self, ix):
        k = ZERO
        for i, n in zip(ix, self.dims):
            k = add(i, mul(n, k))
        return k

    def dtype(self):
        f = self.machineformat[0] if isinstance(self.machineformat, list) else self.machineformat
        p = self.dataprec[0] if isinstance(self.dataprec, list) else self.dataprec
        return PREFIX[f] + SUFFIX[p]


def written_text(I, path):
    out = []
    for e in I.events:
        if e.kind == 'fwrite':
            o, v = e.data
            if e.pc is not TRUE or e.inloop:
                raise Unsupported('metadata written conditionally')
            if o.attrs['name'] != path:
                continue
            if isinstance(v, (ListRef, tuple)):
                v = sstr(*I.lib.seq_items(I, v))
            if not is_str(v):
                raise Unsupported('metadata text %r' % (v,))
            out.append(v)
    return sstr(*out)


def check_written(rep, tag, F_, sc):
    """data file and name of metadata file; returns the metadata text"""
    I = sc.I
    site = 'simplegrid.mds.wrmds'
    if sc.error:
        rep.und(tag + 'analysis', sc.error)
        return None
    if sc.ret is DEAD:
        ev = sc.events('raise')
        rep.bad(tag + 'is written', 'raises %s' % [e.data[0] for e in ev], ev[-1].site if ev else site)
        return None
    want = sstr(F_.base(), '.data')
    evs = [e for e in I.events if e.kind == 'tofile']
    nm = lambda e: e.data['target'].attrs['name'] if isinstance(e.data['target'], ObjV) else e.data['target']
    here = [e for e in evs if nm(e) == want]
    if not here:
        rep.bad(tag + 'data file name', 'the data go to %s instead of %s' % ([repr(nm(e)) for e in evs], want), evs[0].site if evs else site)
        return None
    if len(here) > 1:
        rep.und(tag + 'data', 'written in pieces')
        return None
    e = here[0]
    rep.ok(tag + 'data file name', 'value')
    if e.data['dtype'] == F_.dtype():
        rep.ok(tag + 'data type', 'event')
    else:
        rep.bad(tag + 'data type', 'written as %s, required %s' % (e.data['dtype'], F_.dtype()), e.site)
    a = e.data['arr']
    tot = ONE
    for d in a.shape:
        tot = mul(tot, d)
    if eq_terms(rep, tag + 'number of entries', (tot,), (mul(*F_.dims),), I.base_ctx, e.site) != 'bad':
        ctx = I.base_ctx.copy()
        ix = [region(ctx, 'n:x%d' % k, n, 'any') for k, n in enumerate(F_.dims)]
        PR.CUR.append(ctx)
        try:
            if tuple(a.shape) == tuple(F_.dims) and e.data['order'] != 'F':
                code = I.elem(a, tuple(ix))
            else:
                from .files import linear_elem
                code = linear_elem(I, a, e.data['order'], F_.elem_index(ix))
            compare(rep, tag + 'data in row-major order', code, atom(mk('app', 'in', 'data', *ix)), ctx, [lambda s, i: Model(s, i)] * 3, site=e.site, rtol=1e-9 if '8' in str(F_.dtype()) else 1e-6)
        except (Unresolvable, Unsupported) as ex:
            rep.und(tag + 'data in row-major order', str(ex))
        finally:
            PR.CUR.pop()
    mname = sstr(F_.base(), '.meta')
    opens = [x for x in I.events if x.kind == 'open' and any(c in str(x.data[1]) for c in 'wax+')]
    if not [x for x in opens if x.data[0] == mname]:
        rep.bad(tag + 'metadata file name', 'the metadata go to %s instead of %s' % ([repr(x.data[0]) for x in opens], mname), opens[0].site if opens else site)
        return None
    rep.ok(tag + 'metadata file name', 'value')
    return written_text(I, mname)


def glob_of(files):
    def hook(I, pat, node):
        out = []
        for f in files:
            r = strsym.run(lambda p, x: fnmatch.fnmatchcase(x, p), pat, f)
            if r is True:
                out.append(f)
            elif r is not False:
                raise Unsupported('pattern %r' % (pat,), node)
        return I.mklist(out)
    return hook


def listed(I, v):
    v = v if not isinstance(v, Arr) or v.ndim else I.scalar(v)
    if isinstance(v, (ListRef, tuple)):
        return [listed(I, x) for x in I.lib.seq_items(I, v)]
    if isterm(v):
        try:
            return resolve(v, I.base_ctx)[0]
        except (Unresolvable, RecursionError):
            pass
    return v


def read_back(rep, tag, F_, text, rkw=None, want_shape=None, index=None):
    """the reader applied to what the writer wrote"""
    site = 'simplegrid.mds.rdmds'
    base = F_.base()
    sc = Scenario(rep)
    I = sc.I
    F_.bounds(I)
    I.textlines = {tstr(sstr(base, '.meta')): F_.lines(text)}
    I.filesizes = {tstr(sstr(base, '.data')): mul(*F_.dims)}
    I.glob_hook = glob_of([sstr(base, '.meta'), sstr(base, '.data')])
    kw = dict(machineformat=F_.machineformat if not isinstance(F_.machineformat, list) else F_.machineformat[0], returnmeta=TRUE)
    rkw = dict(rkw or {})
    for k, v in rkw.items():
        kw[k] = I.mklist(v) if isinstance(v, list) else v
    sc.call('simplegrid.mds', 'rdmds', [FB] + ([] if F_.itr is None else [F_.itr]), kw)
    if sc.error:
        return rep.und(tag + 'read back', sc.error)
    if sc.ret is DEAD:
        ev = sc.events('raise')
        return rep.bad(tag + 'read back', 'raises %s(%s)' % (ev[-1].data[:2] if ev else ('?', '')), ev[-1].site if ev else site)
    r = sc.ret
    if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Arr) and isinstance(r[2], DictRef)):
        return rep.und(tag + 'read back', repr(r))
    a = r[0]
    shape = tuple(F_.dims) if want_shape is None else want_shape
    live = [e for e in sc.events('raise') if decide(e.pc, I.base_ctx) is not False]
    for e in live:
        rep.und(tag + 'read back without error', 'raises %s when %s' % (e.data[0], show(e.pc)[:100])) if not e.data[2] else None
    if eq_terms(rep, tag + 'shape read back', tuple(a.shape), shape, I.base_ctx, site) != 'bad' and len(a.shape) == len(shape):
        ctx = I.base_ctx.copy()
        ix = [region(ctx, 'n:x%d' % k, n, 'any') for k, n in enumerate(shape)]
        PR.CUR.append(ctx)
        try:
            code = I.elem(a, tuple(ix))
            full = list(ix) if index is None else index(ix)
            spec = atom(mk('app', 'file', tstr(sstr(base, '.data')), T.string(F_.dtype()), F_.elem_index(full)))
            compare(rep, tag + 'entries read back', code, spec, ctx, [lambda s, i: Model(s, i)] * 3, site=site)
        except (Unresolvable, Unsupported) as ex:
            rep.und(tag + 'entries read back', str(ex))
        finally:
            PR.CUR.pop()
    d = dict_of(I, r[2])
    lit = ''.join(p if isinstance(p, str) else '0' for p in (text.parts if isinstance(text, SStr) else (text,)))
    keys = set(re.findall(r'(?m)^ *(\w+) *=', lit))
    need = {'nDims', 'dimList', 'dataprec', 'nrecords'} | ({'timeStepNumber'} if F_.itr is not None else set()) | ({'timeInterval'} if F_.times else set())
    need |= ({'nFlds', 'fldList'} if F_.fields is not None else set()) | ({'simulation'} if F_.simulation is not None else set())
    if need <= keys:
        rep.ok(tag + 'metadata keys', 'value')
    else:
        rep.bad(tag + 'metadata keys', 'no assignment to %s in the metadata text (assigned: %s)' % (sorted(need - keys), sorted(keys)), 'simplegrid.mds.wrmds')
    nrec = ONE
    for x in F_.rec:
        nrec = mul(nrec, x)
    want = {'ndims': [num(len(F_.core))], 'dimlist': list(reversed(F_.core)), 'dataprec': [F_.dataprec if isinstance(F_.dataprec, str) else F_.dataprec[0]], 'nrecords': [nrec]}
    if F_.itr is not None:
        want['timestepnumber'] = [F_.itr]
    if F_.times:
        want['timeinterval'] = [F_.times]
    if F_.fields is not None:
        want['fldlist'] = list(F_.fields)
        want['nflds'] = [num(len(F_.fields))]
    if F_.simulation is not None:
        want['simulation'] = [F_.simulation]
    for k, v in want.items():
        nm = '%smetadata %s read back' % (tag, k)
        if k not in d:
            rep.bad(nm, 'missing (keys %s)' % sorted(map(str, d)), site)
            continue
        try:
            g = listed(I, d[k])
        except Unsupported as e:
            rep.und(nm, e.why)
            continue
        if g == v:
            rep.ok(nm, 'identical values')
        elif re.search(r'Unk|Choice|\?', repr(g)):
            rep.und(nm, repr(g))
        else:
            rep.bad(nm, '%r instead of %r' % (g, v), site)


def C32(rep):
    ps = []

    def trip(tag, rkw=None, want_shape=None, index=None, **kw):
        def fn(r):
            F_ = Files(**kw)
            sc = F_.write(r)
            try:
                text = check_written(r, tag + ': ', F_, sc)
                if text is not None:
                    read_back(r, tag + ': ', F_, text, rkw, want_shape and want_shape(F_), index and (lambda ix: index(F_, ix)))
            except Unsupported as e:
                r.und(tag, e.why)
        ps.append((tag, fn))
    for mf in PREFIX:
        for dp in SUFFIX:
            trip('%s %s' % (mf, dp), machineformat=mf, dataprec=dp)
    for nd in (2, 3, 4, 5):
        for itr in (False, True):
            if nd < 5:
                trip('%d dimensions%s' % (nd, ', iteration number' if itr else ''), nd=nd, itr=itr)
            else:
                trip('%d dimensions%s' % (nd, ', iteration number' if itr else ''), nd=nd, itr=itr, want_shape=lambda F_: (mul(F_.dims[0], F_.dims[1]),) + tuple(F_.dims[2:]),
                     index=lambda F_, ix: [fdiv(ix[0], F_.dims[1]), sub(ix[0], mul(F_.dims[1], fdiv(ix[0], F_.dims[1])))] + ix[1:])
    for dg in (1, 2, 4, 5, 7, 10):
        trip('numbers of %d digits' % dg, nd=4, digits=dg, itr=True, times=1)
        trip('numbers of %d digits, large horizontal size' % dg, nd=4, digits=dg, big=True, itr=True)
    for n in (1, 2, 3):
        trip('%d times' % n, times=n, itr=True)
    for n in (1, 2, 19, 20, 21, 40, 45):
        trip('%d fields' % n, fields=['F%d' % k for k in range(n)], itr=True)
    trip('long field names', fields=['ETAN', 'ABCDEFGH', 'ABCDEFGHIJKL', 'a b'])
    trip('simulation name', simulation='my run', itr=True)
    trip('values given as lists', wkw={}, dataprec=['float32'], machineformat='l')
    trip('file precision kept', rkw={'astype': None}, dataprec='float32')
    trip('memory map', rkw={'usememmap': TRUE}, itr=True)
    trip('memory map (mm)', rkw={'mm': TRUE}, dataprec='float32', nd=4)
    trip('one record', rkw={'rec': ONE}, nd=4, want_shape=lambda F_: tuple(F_.dims[1:]), index=lambda F_, ix: [ONE] + ix)
    trip('chosen records', rkw={'rec': [ONE, ZERO]}, nd=4, want_shape=lambda F_: (TWO,) + tuple(F_.dims[1:]),
         index=lambda F_, ix: [ite(eq0(ix[0]), ONE, ZERO)] + ix[1:])
    trip('last record', rkw={'rec': num(-1)}, nd=4, want_shape=lambda F_: tuple(F_.dims[1:]), index=lambda F_, ix: [sub(F_.dims[0], ONE)] + ix)
    for rname in ('1', '2', '3', '4'):
        pass

    def unknown(r):
        for bad_ in ('big', 'native', '=', 'B', 'L', 'be', 'ieee', 'ieee-BE', '', sstr(tok('word', 'fmt'))):
            nm = 'the reader rejects the byte order %r' % (bad_ if isinstance(bad_, str) else 'any other word',)
            F_ = Files()
            sc = Scenario(r)
            I = sc.I
            I.textlines = {tstr(sstr(FB, '.meta')): [' nDims = [ 2 ];\n', ' dimList = [ 3, 1, 3, 4, 1, 4 ];\n', " dataprec = [ 'float32' ];\n", ' nrecords = [ 1 ];\n']}
            I.filesizes = {tstr(sstr(FB, '.data')): num(12)}
            I.glob_hook = glob_of([sstr(FB, '.meta'), sstr(FB, '.data')])
            sc.call('simplegrid.mds', 'rdmds', [FB], dict(machineformat=bad_))
            verdict(r, nm, sc, 'simplegrid.mds.rdmds')
        for bad_ in ('float16', 'f4', 'f8', 'double', 'real*8', 'Float32', 'float128', 'int32', '', 'float', sstr(tok('word', 'prec'))):
            nm = 'the writer rejects the precision %r' % (bad_ if isinstance(bad_, str) else 'any other word',)
            F_ = Files(dataprec=bad_)
            sc = F_.write(r)
            verdict(r, nm, sc, 'simplegrid.mds.wrmds')
    ps.append(('unknown names', unknown))

    def scan(r):
        for n, tiled in ((0, False), (1, False), (3, False), (2, True), (1, True)):
            its = [isym('n:it%d' % k, 0) for k in range(n)]
            nm = 'iteration numbers of %d files%s' % (n, ' of tiles' if tiled else '')
            sc = Scenario(r)
            I = sc.I
            sfx = '.001.001' if tiled else ''
            I.glob_hook = glob_of([sstr(FB, '.', SStr([('num', it, '010d')]), sfx, x) for it in its for x in ('.meta', '.data')][::-1] + [sstr(FB, '.meta'), sstr(FB, '.0000000012345.meta')])
            for x, a in enumerate(its):
                for b in its[x + 1:]:
                    I.base_ctx.fact(sub(sub(b, a), ONE))
            sc.call('simplegrid.mds', 'scanforfiles', [FB], {})
            if sc.error:
                r.und(nm, sc.error)
            elif sc.ret is DEAD:
                r.bad(nm, 'raises', 'simplegrid.mds.scanforfiles')
            else:
                try:
                    g = listed(I, sc.ret)
                except Unsupported as e:
                    r.und(nm, e.why)
                    continue
                if g == its:
                    r.ok(nm, 'identical values')
                elif not isinstance(g, list) or any(isinstance(x, (Unk, Choice)) or isterm(x) and opaque(x) for x in g):
                    r.und(nm, repr(g))
                else:
                    r.bad(nm, '%r instead of %r' % (g, its), 'simplegrid.mds.scanforfiles')
    ps.append(('iteration numbers', scan))
    parallel(rep, group(ps, 24))


def verdict(r, nm, sc, site):
    ev = sc.events('raise')
    if sc.error:
        r.und(nm, sc.error)
    elif sc.ret is not DEAD:
        if ev and any(decide(e.pc) is not False for e in ev):
            return r.und(nm, 'raises under a condition not decided')
        r.bad(nm, 'is accepted', site)
    elif all(e.data[0] == 'ValueError' for e in ev):
        w = [e for e in sc.I.events if e.kind == 'tofile' or e.kind == 'open' and 'w' in str(e.data[1])]
        r.ok(nm, 'path enumeration')
    else:
        r.bad(nm, 'raises %s' % [e.data[0] for e in ev], ev[-1].site)
