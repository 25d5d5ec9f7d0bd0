"""Edge matching, fringe augmentation, joining (C18-C22, tile part of C04)."""
import math
from .gridspec import *
from sgflow.eval import gc_dist, R_EARTH
from sgflow import lib as LIB

N_, S_, E_, W_ = 0, 1, 2, 3
EDGE = 'NSEW'
PAIRS = [(N_, S_), (S_, N_), (E_, W_), (W_, E_)]
OPP = {N_: S_, S_: N_, E_: W_, W_: E_}
# corner names as (row end, column end): 0 = first, 1 = last
ENDS = {W_: ((0, 0), (0, 1)), E_: ((1, 0), (1, 1)), S_: ((0, 0), (1, 0)), N_: ((0, 1), (1, 1))}


def line(n0, n1, edge, k, inner=0):
    """index pair of point k on an edge line (inner=1: the next line of points)"""
    i = num(inner)
    if edge == W_:
        return i, k
    if edge == E_:
        return sub(n0, add(ONE, i)), k
    if edge == S_:
        return k, i
    return k, sub(n1, add(ONE, i))


def line_len(n0, n1, edge):
    return n1 if edge in (E_, W_) else n0


class Tiles:
    """two tiles whose corner points are given; every other point by bilinear interpolation"""

    def __init__(self, ea, eb, flip=False, wa=4.0, wb=4.0, perturb=None, apart=None, lon0=20.0, turn=0.0):
        """tile b's edge eb lies on tile a's edge ea; perturb: (which end, factor of the tolerance)"""
        A = {(0, 0): (lon0, 10.0), (1, 0): (lon0 + wa, 10.3), (1, 1): (lon0 + 1.1 * wa, 10.2 + wa), (0, 1): (lon0 - .1 * wa, 10.0 + .9 * wa)}
        p, q = [A[c] for c in ENDS[ea]]
        # outward normal of a's edge
        ox, oy = {W_: (-1, 0), E_: (1, 0), S_: (0, -1), N_: (0, 1)}[ea]
        B = {}
        f0, f1 = ENDS[eb]
        if flip:
            f0, f1 = f1, f0
        B[f0], B[f1] = p, q
        g0, g1 = [c for c in ((0, 0), (0, 1), (1, 0), (1, 1)) if c not in ENDS[eb]]
        # the two other corners lie outwards, each next to its neighbour
        for c in (g0, g1):
            nb = [x for x in (f0, f1) if sum(u != v for u, v in zip(c, x)) == 1][0]
            x, y = B[nb]
            B[c] = (x + ox * wb + .07 * wb * (nb == f0), y + oy * wb + .05 * wb * (nb == f0))
        if apart:
            B = {c: (x + ox * apart, y + oy * apart) for c, (x, y) in B.items()}
        # the second tile's longitudes may follow another convention
        B = {c: (x + turn, y) for c, (x, y) in B.items()}
        self.A, self.B = A, B
        d = lambda T, u, v: gc_dist(*T[u], *T[v])
        self.diag = sum(d(T, *c) for T in (A, B) for c in (((0, 0), (1, 1)), ((1, 0), (0, 1)))) / 4
        for end, f in perturb or ():
            c = (f0, f1)[end]
            x, y = B[c]
            B[c] = (x, y + math.degrees(f * 1e-6 * self.diag / R_EARTH))

    def at(self, name, i, j, n0, n1):
        T = self.A if name[0] == 'a' else self.B
        k = 0 if name[1] == 'X' else 1
        u = i / (n0 - 1)
        v = j / (n1 - 1)
        if (u in (0, 1)) and (v in (0, 1)):
            return T[(int(u), int(v))][k]
        return sum(T[(a, b)][k] * (u if a else 1 - u) * (v if b else 1 - v) for a in (0, 1) for b in (0, 1))

    def model(self, sizes, names, seed=0, default=None):
        """names: input array name -> ('aX' | 'aY' | 'bX' | 'bY')"""
        def inp(name, *ix):
            r = names.get(str(name).split('earlier ')[-1])
            if r is None or len(ix) != 2:
                return default(name, *ix) if default else None
            n0, n1 = sizes[r[0]]
            return self.at(r, ix[0], ix[1], n0, n1)
        return inp


def has_dist(c):
    return any(t.kind == 'app' and t.args[0] == 'dist' for t in subterms(c))


def mk_oracle(tiles, names, ints, sizes):
    M = Model(7, dict(ints), tiles.model(sizes, names))

    def oracle(c):
        if opaque(c):
            return None
        if not has_dist(c):
            # corner points compared in another way than by their distance
            reads = [t for t in subterms(c) if t.kind == 'app' and t.args[0] == 'in']
            if not reads or any(t.args[1] not in names for t in reads) or any(t.kind == 'exists' for t in subterms(c)):
                return None
        try:
            M.memo = {}
            M.track = {}
            r = bool(M.ev(c))
            if not has_dist(c) and any(k[0] != 'in' or k[1] not in names or any(x not in (0, n - 1) for x, n in zip(k[2:], sizes[names[k[1]][0]]))
                                       for k in M.track):
                return None
            return r
        except EvalError:
            return None
    return oracle


def tile_sizes(ea, eb, same=True):
    """numbers of corner points (rows, cols) of the two tiles: symbolic, equal along the shared edge"""
    na, ma = isym('n:na', 2), isym('n:ma', 2)
    nb, mb = isym('n:nb', 2), isym('n:mb', 2)
    A, B = (na, ma), (nb, mb)
    ints = {'n:na': 4, 'n:ma': 5, 'n:nb': 3, 'n:mb': 6}
    if same:
        L = line_len(na, ma, ea)
        if eb in (E_, W_):
            B = (nb, L)
        else:
            B = (L, mb)
    else:
        d = isym('n:d', 1)
        ints['n:d'] = 2
        L = line_len(na, ma, ea)
        L2 = add(L, d) if same is False else add(L, d)
        B = (nb, L2) if eb in (E_, W_) else (L2, mb)
        if same is None:
            A, B = (line_len_swap(A, ea, L2)), ((nb, L) if eb in (E_, W_) else (L, mb))
    M = Model(0, ints)
    sz = {'a': tuple(int(M.num(x)) for x in A), 'b': tuple(int(M.num(x)) for x in B)}
    return A, B, ints, sz


def line_len_swap(A, ea, L):
    return (A[0], L) if ea in (E_, W_) else (L, A[1])


NAMES2 = {'aX': 'aX', 'aY': 'aY', 'bX': 'bX', 'bY': 'bY'}


def run_match(rep, tiles, ea, eb, same=True, verbose=FALSE):
    sc = Scenario(rep)
    I = sc.I
    A, B, ints, sz = tile_sizes(ea, eb, same)
    sc.A, sc.B = A, B
    I.oracle = mk_oracle(tiles, NAMES2, ints, sz)
    arrs = [I.new_arr(s, Inp(n), 'f8', 'the %sG argument' % n) for s, n in ((A, 'aX'), (A, 'aY'), (B, 'bX'), (B, 'bY'))]
    sc.arrs = arrs
    geod = ObjV('geod', {'ellps': 'sphere', 'a': R})
    sc.call('simplegrid.matchedges', 'matchedges', arrs + [geod, verbose])
    return sc


def must_raise(rep, nm, sc):
    ev = sc.events('raise')
    if sc.error and not ev:
        return rep.und(nm, sc.error)
    if sc.ret is DEAD and ev and all(e.data[0] == 'ValueError' and not e.data[2] for e in ev):
        return rep.ok(nm, 'case analysis')
    if sc.ret is DEAD or ev:
        if sc.ret is not DEAD:
            return rep.und(nm, 'outcome depends on %s' % [show(e.pc)[:80] for e in ev][:1])
        return rep.bad(nm, 'raises %s' % [e.data[0] for e in ev], ev[0].site if ev else '')
    if sc.error:
        return rep.und(nm, sc.error)
    rep.bad(nm, 'accepted: returns edges %s' % (tuple(sc.ret[:3:2]) if isinstance(sc.ret, tuple) else sc.ret,), 'simplegrid.matchedges.matchedges')


def edge_name(x):
    k = constval(x) if isterm(x) else None
    return EDGE[int(k)] if k is not None and 0 <= k < 4 else str(x)


def must_match(rep, nm, sc, ea, eb):
    ev = sc.events('raise')
    if sc.error:
        rep.und(nm, sc.error)
        return False
    if sc.ret is DEAD:
        rep.bad(nm, 'raises %s' % [e.data[:2] for e in ev], ev[0].site if ev else '')
        return False
    if [e for e in ev if decide(e.pc) is not False and not e.data[2]]:
        rep.und(nm, 'may raise under %s' % show(ev[0].pc)[:100])
        return False
    if not isinstance(sc.ret, tuple) or len(sc.ret) != 7:
        rep.und(nm, 'returns %r' % (sc.ret,))
        return False
    a, b = sc.ret[0], sc.ret[2]
    if not (isterm(a) and constval(a) is not None and isterm(b) and constval(b) is not None):
        rep.und(nm, 'edge indicators not resolved: %r %r' % (a, b))
        return False
    if (constval(a), constval(b)) != (ea, eb):
        rep.bad(nm, 'reports %s-%s' % (edge_name(a), edge_name(b)), 'simplegrid.matchedges.matchedges')
        return False
    rep.ok(nm, 'case analysis')
    return True


def C18(rep):
    scales = [(4., 4.), (1., 3.), (3., 1.), (.01, .03), (.4, 4.)]
    for ea, eb in PAIRS:
        pn = '%s-%s' % (EDGE[ea], EDGE[eb])
        for wa, wb in scales if TIER == 'thorough' else scales[:4]:
            must_match(rep, '%s tiles, sizes %s:%s, identical corner points are matched' % (pn, wa, wb), run_match(rep, Tiles(ea, eb, wa=wa, wb=wb), ea, eb), ea, eb)
            for end in (0, 1):
                for f in (.75, 1.35):
                    t = Tiles(ea, eb, wa=wa, wb=wb, perturb=[(end, f)])
                    nm = '%s tiles, sizes %s:%s, corner %d off by %s of the tolerance is %s' % (pn, wa, wb, end, f, 'matched' if f < 1 else 'refused')
                    sc = run_match(rep, t, ea, eb)
                    must_match(rep, nm, sc, ea, eb) if f < 1 else must_raise(rep, nm, sc)
        must_raise(rep, '%s tiles that do not touch are refused' % pn, run_match(rep, Tiles(ea, eb, apart=9.), ea, eb))
        must_raise(rep, '%s tiles a small gap apart are refused' % pn, run_match(rep, Tiles(ea, eb, apart=.002), ea, eb))
        must_raise(rep, '%s edges with more points on the second tile are refused' % pn, run_match(rep, Tiles(ea, eb), ea, eb, False))
        must_raise(rep, '%s edges with more points on the first tile are refused' % pn, run_match(rep, Tiles(ea, eb), ea, eb, None))
        must_match(rep, '%s tiles on the other side of the globe are matched' % pn, run_match(rep, Tiles(ea, eb, lon0=-100.), ea, eb), ea, eb)
        for lon0, turn in ((176., -360.), (-5., 360.), (190., -360.)):
            must_match(rep, '%s tiles at %g, the second with longitudes shifted by %g, are matched' % (pn, lon0, turn),
                       run_match(rep, Tiles(ea, eb, lon0=lon0, turn=turn), ea, eb), ea, eb)
    for ea in range(4):
        for eb in range(4):
            if eb == OPP[ea]:
                continue
            for flip in (False, True):
                must_raise(rep, 'edge %s of the first tile on edge %s of the second (%s) is refused' % (EDGE[ea], EDGE[eb], 'reversed' if flip else 'same order'),
                           run_match(rep, Tiles(ea, eb, flip), ea, eb))
    # touching in one corner only
    for ea, eb in PAIRS:
        for end in (0, 1):
            must_raise(rep, '%s-%s tiles with one common corner (%d) are refused' % (EDGE[ea], EDGE[eb], end), run_match(rep, Tiles(ea, eb, perturb=[(end, 2e5)]), ea, eb))


# ------------------------------------------------------------------ C19
def ring_double(A, B, CXa, CYa, CXb, CYb, ea, eb):
    """doubled grid of the cells of tile b next to the shared edge; the ring is its middle line"""
    L = line_len(*A, ea)
    first_a = ea in (E_, N_)

    def side(fa, fb, k, p):
        """fa: shared line of a; fb: adjacent line of b"""
        on_a = eq0(k) if first_a else lnot(eq0(k))
        return ite(on_a, fa(*line(*A, ea, p)), fb(*line(*B, eb, p, 1)))
    x = ea in (E_, W_)
    CX = (lambda ka, kb: side(CXa, CXb, ka, kb)) if x else (lambda ka, kb: side(CXa, CXb, kb, ka))
    CY = (lambda ka, kb: side(CYa, CYb, ka, kb)) if x else (lambda ka, kb: side(CYa, CYb, kb, ka))
    v = var('p')
    anyneg = exists(v, L, lor(lt0(CXa(*line(*A, ea, atom(v)))), lt0(CXb(*line(*B, eb, atom(v), 1)))))
    n1 = sub(L, ONE)
    D = Doubled(CX, CY, TWO, TWO, ONE if x else n1, n1 if x else ONE, lnot(anyneg))
    return (lambda k: D.pt(ONE, k)) if x else (lambda k: D.pt(k, ONE))


def inp2(name):
    return lambda i, j: atom(mk('app', 'in', name, i, j))


def tile_models(ea, eb, names, rest=None):
    out = []
    for lon0, wa, wb in ((20., 4., 4.), (-100., 3., 5.), (176., 4., 4.), (-2., 4., 3.), (30., 1., 1.), (250., 4., 3.)):
        def mk_(seed, ints, lon0=lon0, wa=wa, wb=wb):
            t = Tiles(ea, eb, wa=wa, wb=wb, lon0=lon0)
            M0 = Model(0, ints)

            def inp(name, *ix):
                r = names.get(str(name).split('earlier ')[-1])
                if r is None or len(ix) != 2:
                    return rest(seed, name, *ix) if rest else None
                n0, n1 = mk_.sizes(M0)[r[0]]
                k = 0.0 if ix[0] in (0, n0 - 1) and ix[1] in (0, n1 - 1) else .02
                return t.at(r, ix[0], ix[1], n0, n1) + k * h01(seed, name, *ix)
            M = Model(seed, ints, inp)
            M.free = lambda key: (-math.inf, math.inf) if key[0] == 'in' and str(key[1]).split('earlier ')[-1] not in names else None
            return M
        out.append(mk_)
    return out


def C19(rep):
    def one(r, ea, eb):
        pn = '%s-%s: ' % (EDGE[ea], EDGE[eb])
        sc = run_match(r, Tiles(ea, eb), ea, eb)
        if not must_match(r, pn + 'edges are matched', sc, ea, eb):
            return
        I, A, B = sc.I, sc.A, sc.B
        L = line_len(*A, ea)
        site = 'simplegrid.matchedges.matchedges'
        _, sa, _, sb, gx, gy, js = sc.ret
        models = tile_models(ea, eb, NAMES2)
        for m in models:
            m.sizes = lambda M0: {'a': tuple(int(M0.num(x)) for x in A), 'b': tuple(int(M0.num(x)) for x in B)}
        for nm, sl, arr, T, e, f in (('first', sa, sc.arrs[0], A, ea, inp2('aX')), ('second', sb, sc.arrs[2], B, eb, inp2('bX'))):
            try:
                x = LIB.getitem(I, arr, sl, None)
            except (Unsupported, DeadPath) as ex:
                r.bad(pn + "%s tile's slice selects its edge" % nm, 'slice %r does not select a line: %s' % (sl, ex), site)
                continue
            lines(r, I, pn + "%s tile's slice selects its edge" % nm, x, L, lambda k: f(*line(*T, e, k)), models, site)
        ring = ring_double(A, B, inp2('aX'), inp2('aY'), inp2('bX'), inp2('bY'), ea, eb)
        n = sub(mul(TWO, L), ONE)
        lines(r, I, pn + 'ring longitudes', gx, n, lambda k: ring(k)[0], models, site, lonmod)
        lines(r, I, pn + 'ring latitudes', gy, n, lambda k: ring(k)[1], models, site)
        # where the ring goes
        sh = (add(mul(TWO, A[0]), ONE), add(mul(TWO, A[1]), ONE))
        E = I.new_arr(sh, Inp('ext'), 'f8')
        Rg = I.new_arr((n,), Inp('ringvals'), 'f8')
        try:
            LIB.setitem(I, E, js, Rg, None)
        except (Unsupported, DeadPath, Unresolvable) as ex:
            return r.bad(pn + 'ring position', 'the ring does not fit at %r of the extended doubled grid: %s' % (js, ex), site)
        for ri in ('first', 'one', 'mid', 'last'):
            for rj in ('first', 'one', 'mid', 'last'):
                ctx = I.base_ctx.copy()
                i = ONE if ri == 'one' else region(ctx, 'n:i', sh[0], ri)
                j = ONE if rj == 'one' else region(ctx, 'n:j', sh[1], rj)
                PR.CUR.append(ctx)
                try:
                    last = lambda x, m: eq(x, sub(m, ONE))
                    t, at = {W_: (j, eq0(i)), E_: (j, last(i, sh[0])), S_: (i, eq0(j)), N_: (i, last(j, sh[1]))}[ea]
                    m = sh[1] if ea in (E_, W_) else sh[0]
                    inside = land(at, lnot(eq0(t)), lnot(last(t, m)))
                    spec = ite(inside, atom(mk('app', 'in', 'ringvals', sub(t, ONE))), atom(mk('app', 'in', 'ext', i, j)))
                    compare(r, pn + 'ring position [%s,%s]' % (ri, rj), I.elem(E, (i, j)), spec, ctx, [lambda s, k: Model(s, k)] * 3, site)
                except Unresolvable as e:
                    r.und(pn + 'ring position [%s,%s]' % (ri, rj), str(e))
                finally:
                    PR.CUR.pop()
    parallel(rep, [('%s-%s' % (EDGE[a], EDGE[b]), lambda r, a=a, b=b: one(r, a, b)) for a, b in PAIRS])


def lonmod(a, b):
    from .gridchecks import lonmod as f
    return f(a, b) or not close(a, b, 1e-6)


def lines(rep, I, nm, arr, n, spec, models, site, differs=None):
    if not isinstance(arr, Arr):
        return rep.und(nm, repr(arr)) if isinstance(arr, (Unk, Choice)) else rep.bad(nm, 'is %r, not a vector' % (arr,), site)
    if arr.ndim != 1:
        return rep.bad(nm, 'has %d dimensions' % arr.ndim, site)
    if eq_terms(rep, nm + ' (length)', tuple(arr.shape), (n,), I.base_ctx, site) == 'bad':
        return
    for ri in REG:
        ctx = I.base_ctx.copy()
        k = region(ctx, 'n:k', n, ri)
        PR.CUR.append(ctx)
        try:
            compare(rep, '%s [%s]' % (nm, ri), I.elem(arr, (k,)), spec(k), ctx, models, site, differs=differs)
        except Unresolvable as e:
            rep.und('%s [%s]' % (nm, ri), str(e))
        finally:
            PR.CUR.pop()


# ------------------------------------------------------------------ addfringe
FA, FB = sstr(('sym', 'tile_a_file')), sstr(('sym', 'tile_b_file'))


def tile_names(grid_names=('XG', 'YG')):
    return {'a:XG': 'aX', 'a:YG': 'aY', 'b:XG': 'bX', 'b:YG': 'bY'}


class Pair:
    """two tiles on file that share the edges (ea, eb); cell counts symbolic"""

    def __init__(self, ea, eb, nan=False):
        self.ea, self.eb, self.nan = ea, eb, nan
        self.A, self.B, self.ints, self.sz = tile_sizes(ea, eb)
        s1 = lambda x: sub(x, ONE)
        self.na, self.nb = tuple(map(s1, self.A)), tuple(map(s1, self.B))
        self.tiles = Tiles(ea, eb)
        self.reads = []

    def grid(self, I, pre, n):
        if self.nan and pre == 'a':
            return I.mkdict({f: I.new_arr(shape_of(f, *n), Inp('a:' + f) if f in ('XG', 'YG') else Const(app('nan'))) for f in NAMES})
        return I.mkdict({f: I.new_arr(shape_of(f, *n), Inp('%s:%s' % (pre, f))) for f in NAMES})

    def read(self, I, env, node):
        self.reads.append((dict(env), I.site(node)))
        f = list(env.values())
        fn = env.get('mitgridfile', f[0])
        for nm, pre, n in ((FA, 'a', self.na), (FB, 'b', self.nb)):
            if fn is nm or fn == nm:
                ni, nj = env.get('ni'), env.get('nj')
                if not (ni is n[0] and nj is n[1]):
                    raise Unsupported('grid file %s read with other cell counts' % pre, node)
                return self.grid(I, pre, n)
        raise Unsupported('another grid file is read: %r' % (fn,), node)

    def kwargs(self):
        return dict(tilea=FA, nia=self.na[0], nja=self.na[1], tileb=FB, nib=self.nb[0], njb=self.nb[1])

    def run(self, rep, mod='simplegrid.addfringe', fn='addfringe', strict=FALSE, verbose=FALSE, overrides=None):
        ov = {('simplegrid.gridio', 'read_mitgridfile'): self.read}
        ov.update(overrides or {})
        sc = Scenario(rep, ov)
        sc.I.oracle = mk_oracle(self.tiles, tile_names(), self.ints, self.sz)
        sc.call(mod, fn, [], dict(self.kwargs(), strict=strict, verbose=verbose))
        return sc

    def models(self, zero=0.0):
        """zero: share of the boundary entries of tile a that are zero"""
        names = tile_names()

        def rest(seed, name, *ix):
            if str(name).startswith('a:') and zero:
                u = h01(seed, 'z', name, *ix)
                if u < zero:
                    return 0.0
                # any nonzero value must survive, however small, large or negative
                m = 1 + h01(seed, name, *ix)
                return m * (1.0, -1.0, 1e-12, -1e-9, 1e12)[int(5 * h01(seed, 'm', name, *ix)) % 5]
            return 1 + h01(seed, name, *ix)
        out = tile_models(self.ea, self.eb, names, rest)
        for m in out:
            m.sizes = lambda M0: {'a': tuple(int(M0.num(x)) for x in self.A), 'b': tuple(int(M0.num(x)) for x in self.B)}
        return out

    def double(self):
        """doubled grid of tile a alone"""
        A = self.A
        CX, CY = inp2('a:XG'), inp2('a:YG')
        v, w = var('p'), var('q')
        anyneg = exists(v, A[0], exists(w, A[1], lt0(CX(atom(v), atom(w)))))
        return Doubled(CX, CY, TWO, TWO, self.na[0], self.na[1], lnot(anyneg))

    def extended(self):
        """points of tile a's doubled grid, extended by the ring on the shared side"""
        D = self.double()
        ring = ring_double(self.A, self.B, inp2('a:XG'), inp2('a:YG'), inp2('b:XG'), inp2('b:YG'), self.ea, self.eb)

        def pt(a, b):
            t, at = {W_: (b, lt0(a)), E_: (b, lt(D.NA, a)), S_: (a, lt0(b)), N_: (a, lt(D.NB, b))}[self.ea]
            d = decide(at)
            if d is True:
                return ring(t)
            if d is False:
                return D.pt(a, b)
            p, q = ring(t), D.pt(a, b)
            return ite(at, p[0], q[0]), ite(at, p[1], q[1])
        return pt, D


EDGE_FIELDS = {E_: ('DXC', 'DXV', 'RAW', 'RAZ'), W_: ('DXC', 'DXV', 'RAW', 'RAZ'), N_: ('DYC', 'DYU', 'RAS', 'RAZ'), S_: ('DYC', 'DYU', 'RAS', 'RAZ')}


def unpack_fringe(rep, sc, tag):
    if sc.error:
        rep.und(tag + 'analysis', sc.error)
        return None
    if sc.ret is DEAD:
        ev = sc.events('raise')
        rep.bad(tag + 'returns', 'every path raises %s' % [e.data[:2] for e in ev][:2], ev[0].site if ev else '')
        return None
    r = sc.ret
    if not isinstance(r, tuple) or len(r) != 3 or not isinstance(r[2], DictRef):
        if isinstance(r, (Unk, Choice)):
            rep.und(tag + 'returns', repr(r))
        else:
            rep.bad(tag + 'returns', 'result is %r, not (edge, edge, grid)' % (r,))
        return None
    return r[0], r[1], dict_of(sc.I, r[2])


def C20(rep):
    def one(r, ea, eb, names):
        pn = '%s-%s: ' % (EDGE[ea], EDGE[eb])
        P = Pair(ea, eb)
        sc = P.run(r)
        g = unpack_fringe(r, sc, pn)
        if g is None:
            return
        a, b, G = g
        I = sc.I
        site = 'simplegrid.addfringe.addfringe'
        if 'XC' in names:
            if not all(isterm(x) and constval(x) is not None for x in (a, b)):
                r.und(pn + 'edge indicators', 'not resolved')
            elif (constval(a), constval(b)) == (ea, eb):
                r.ok(pn + 'edge indicators')
            else:
                r.bad(pn + 'edge indicators', 'returns %s, %s for tiles meeting at %s of the first and %s of the second' % (edge_name(a), edge_name(b), EDGE[ea], EDGE[eb]), site)
        ms = P.models(.5)
        for n in names:
            arr = G.get(n)
            if not isinstance(arr, Arr) or arr.ndim != 2:
                r.bad(pn + n, 'missing') if arr is None else r.und(pn + n, repr(arr))
                continue
            if eq_terms(r, pn + n + ' keeps its size', tuple(arr.shape), shape_of(n, *P.na), I.base_ctx, site) == 'bad':
                continue
            for ri in REG:
                for rj in REG:
                    ctx = I.base_ctx.copy()
                    i = region(ctx, 'n:i', arr.shape[0], ri)
                    j = region(ctx, 'n:j', arr.shape[1], rj)
                    old = atom(mk('app', 'in', 'a:' + n, i, j))
                    PR.CUR.append(ctx)
                    nm = pn + '%s[%s,%s] keeps nonzero input' % (n, ri, rj)
                    try:
                        code = I.elem(arr, (i, j))
                        keep(r, nm, code, old, ctx, ms, site)
                    except Unresolvable as e:
                        r.und(nm, str(e))
                    finally:
                        PR.CUR.pop()
    def nans(r, ea, eb):
        """NaN is not zero: a field that was never filled (C01 writes NaN) comes through as it is"""
        T.NANS = True
        try:
            nan_entries(r, ea, eb)
        finally:
            T.NANS = False

    def nan_entries(r, ea, eb):
        pn = '%s-%s: ' % (EDGE[ea], EDGE[eb])
        P = Pair(ea, eb, True)
        sc = P.run(r)
        g = unpack_fringe(r, sc, pn)
        if g is None:
            return
        I = sc.I
        for n in NAMES:
            arr = g[2].get(n)
            if n in ('XG', 'YG') or not isinstance(arr, Arr) or arr.ndim != 2:
                continue
            for ri in REG:
                for rj in REG:
                    ctx = I.base_ctx.copy()
                    i = region(ctx, 'n:i', arr.shape[0], ri)
                    j = region(ctx, 'n:j', arr.shape[1], rj)
                    PR.CUR.append(ctx)
                    nm = pn + '%s[%s,%s] keeps NaN input' % (n, ri, rj)
                    try:
                        v, _ = resolve(I.elem(arr, (i, j)), ctx)
                        if isterm(v) and v.kind == 'poly' and T.nanp(v):
                            r.ok(nm, 'NaN, as in the input')
                        elif isterm(v) and v.kind == 'poly' and not any(a.kind == 'ite' for a in T.atoms_of(v)):
                            r.bad(nm, 'the entry of the result is %s' % str(v)[:120], 'simplegrid.addfringe.addfringe')
                        else:
                            r.und(nm, 'not resolved: %s' % str(v)[:120])
                    except (Unresolvable, RecursionError) as e:
                        r.und(nm, str(e))
                    finally:
                        PR.CUR.pop()
    ps = []
    for a, b in PAIRS:
        ps.append(('%s-%s NaN' % (EDGE[a], EDGE[b]), lambda r, a=a, b=b: nans(r, a, b)))
        for names in (NAMES[:2], NAMES[2:4], NAMES[4:5], NAMES[5:7], NAMES[7:9], NAMES[9:10], NAMES[10:12], NAMES[12:13], NAMES[13:14], NAMES[14:]):
            ps.append(('%s-%s %s' % (EDGE[a], EDGE[b], names), lambda r, a=a, b=b, names=names: one(r, a, b, names)))
    parallel(rep, ps)


def keep(rep, nm, code, old, ctx, ms, site):
    """code == old whenever old != 0"""
    z = eq0(old)
    c2 = ctx.copy()
    c2.assume(lnot(z))
    PR.CUR.append(c2)
    try:
        code2, _ = resolve(code, c2)
        if code2 is old:
            return rep.ok(nm, 'identical value numbers, given that the input entry is nonzero')
    except (Unresolvable, RecursionError):
        pass
    finally:
        PR.CUR.pop()
    compare(rep, nm, ite(z, ZERO, code), ite(z, ZERO, old), ctx, ms * 2, site, differs=lambda a, b: a != b)


def C21(rep):
    from .gridchecks import small_sizes
    small_sizes()

    def one(r, ea, eb, n):
        P = Pair(ea, eb)
        sc = P.run(r)
        pn = '%s-%s: ' % (EDGE[ea], EDGE[eb])
        g = unpack_fringe(r, sc, pn)
        if g is None:
            return
        G = g[2]
        I = sc.I
        pt, D = P.extended()
        Fs = Fields(pt, D.NA, D.NB)
        arr = G.get(n)
        if not isinstance(arr, Arr) or arr.ndim != 2:
            return r.bad(pn + n, 'missing') if arr is None else r.und(pn + n, repr(arr))
        m = arr.shape[1] if ea in (E_, W_) else arr.shape[0]
        regs = REG if n in ('DXC', 'DYC', 'RAW', 'RAS') else ('mid',)
        if n in ('DXV', 'DYU'):
            regs = REG
        ms = P.models(0.0)
        # the input's shared edge is unset
        def zeroed(mk_):
            def f(seed, ints):
                M = mk_(seed, ints)
                inner = M.inp

                def inp(name, *ix):
                    return 0.0 if str(name) == 'a:' + n else inner(name, *ix)
                M.inp = inp
                return M
            return f
        for rr in regs:
            ctx = I.base_ctx.copy()
            k = region(ctx, 'n:k', m, rr)
            i, j = line(*arr.shape, ea, k)
            nm = '%s%s[%s] on the shared edge' % (pn, n, rr)
            PR.CUR.append(ctx)
            try:
                a, b = add(mul(TWO, i), num(LOC[n][0])), add(mul(TWO, j), num(LOC[n][1]))
                m1 = lambda x: sub(x, ONE)
                if n in LEN_X:
                    spec = add(Fs.ex(m1(a), b), Fs.ex(a, b))
                elif n in LEN_Y:
                    spec = add(Fs.ey(a, m1(b)), Fs.ey(a, b))
                else:
                    spec = add(*[quad(Fs, x, y) for x in (m1(a), a) for y in (m1(b), b)])
                code, _ = resolve(I.elem(arr, (i, j)), ctx)
                site = 'simplegrid.addfringe.addfringe result field ' + n
                zm = [zeroed(x) for x in ms[:3]]
                # two obligations: the entry is no longer zero, and a nonzero value is the right one
                if compare(r, nm + ' is computed', code, spec, ctx, zm, site, differs=lambda x, y: x == 0) != 'bad':
                    compare(r, nm + ' has the value of its segment or cell', code, spec, ctx, zm, site, differs=lambda x, y: x != 0 and not close(x, y, 1e-6))
            except Unresolvable as e:
                r.und(nm, str(e))
            finally:
                PR.CUR.pop()
    ps = [('%s-%s points' % (EDGE[a], EDGE[b]), lambda r, a=a, b=b: ring_placed(r, a, b)) for a, b in PAIRS]
    ps += [('%s-%s %s' % (EDGE[a], EDGE[b], n), lambda r, a=a, b=b, n=n: one(r, a, b, n)) for a, b in PAIRS for n in EDGE_FIELDS[a]]
    parallel(rep, ps)


def ring_placed(r, ea, eb):
    """the points the boundary quantities are computed from: tile a's doubled grid with the ring on the shared side"""
    P = Pair(ea, eb)
    got = []

    def tomitgrid(I, env, node):
        x = [v for v in env.values() if isinstance(v, Arr)]
        got.append((x, I.site(node)))
        return I.mkdict({f: I.new_arr(shape_of(f, *P.na), Inp('new:' + f)) for f in NAMES})
    sc = P.run(r, overrides={('simplegrid.computegrid', 'tomitgrid'): tomitgrid})
    pn = '%s-%s: ' % (EDGE[ea], EDGE[eb])
    if unpack_fringe(r, sc, pn) is None:
        return
    if len(got) != 1 or len(got[0][0]) != 2:
        return r.und(pn + 'points', 'the fields are not computed by one call on two matrices')
    (X, Y), site = got[0]
    I = sc.I
    pt, D = P.extended()
    ms = P.models(0.0)
    want = (add(D.NA, num(3)), add(D.NB, num(3)))
    for nm, arr, c in (('longitudes', X, 0), ('latitudes', Y, 1)):
        if eq_terms(r, pn + nm + ' of the extended doubled grid (size)', tuple(arr.shape), want, I.base_ctx, site) == 'bad':
            continue
        for ra in REG + ('ring',):
            for rb in REG + ('one', 'ringmid'):
                if (ra == 'ring') != (rb in ('one', 'ringmid')) and not (ra == 'ring' and rb in REG):
                    continue
                ctx = I.base_ctx.copy()
                if ra == 'ring':
                    m = D.NB if ea in (E_, W_) else D.NA
                    k = ONE if rb == 'one' else region(ctx, 'n:b', add(m, ONE), 'mid' if rb == 'ringmid' else rb)
                    a, b = {W_: (num(-1), k), E_: (add(D.NA, ONE), k), S_: (k, num(-1)), N_: (k, add(D.NB, ONE))}[ea]
                else:
                    a, b = region(ctx, 'n:a', add(D.NA, ONE), ra), region(ctx, 'n:b', add(D.NB, ONE), rb)
                PR.CUR.append(ctx)
                name = pn + nm + (' beyond the shared edge [%s]' % rb if ra == 'ring' else ' of the tile [%s,%s]' % (ra, rb))
                try:
                    compare(r, name, I.elem(arr, (add(a, ONE), add(b, ONE))), pt(a, b)[c], ctx, ms, site, differs=lonmod if c == 0 else None)
                except Unresolvable as e:
                    r.und(name, str(e))
                finally:
                    PR.CUR.pop()


def quad(Fs, a, b):
    return mul(R, R, quad_sph(Fs.corners(a, b)))


# ------------------------------------------------------------------ stitch
def fringe_stub(P, log):
    def f(I, env, node):
        kw = dict(env)
        for v in list(env.values()):
            if isinstance(v, DictRef):
                kw.update({k: x for k, x in dict_of(I, v).items() if isinstance(k, str)})
        want = P.kwargs()
        wrong = [k for k in want if kw.get(k) is not want[k] and kw.get(k) != want[k]]
        log.append((kw, wrong, I.site(node)))
        return (num(P.ea), num(P.eb), P.grid(I, 'f', P.na))
    return f


def run_stitch(rep, ea, eb, strict=FALSE, verbose=FALSE):
    P = Pair(ea, eb)
    log = []
    sc = P.run(rep, 'simplegrid.stitch', 'stitch', strict, verbose, {('simplegrid.addfringe', 'addfringe'): fringe_stub(P, log)})
    sc.log = log
    return P, sc


def joined_counts(P):
    if P.ea in (E_, W_):
        return add(P.na[0], P.nb[0]), P.na[1]
    return P.na[0], add(P.na[1], P.nb[1])


def C22(rep):
    def one(r, ea, eb):
        pn = '%s-%s: ' % (EDGE[ea], EDGE[eb])
        P, sc = run_stitch(r, ea, eb)
        site = 'simplegrid.stitch.stitch'
        if sc.error:
            return r.und(pn + 'analysis', sc.error)
        if sc.ret is DEAD:
            ev = sc.events('raise')
            return r.bad(pn + 'tiles are joined', 'every path raises %s' % [e.data[:2] for e in ev][:2], ev[0].site if ev else site)
        if not sc.log:
            return r.und(pn + 'fringe-augmented first tile', 'addfringe is not called')
        for kw, wrong, s in sc.log:
            if wrong:
                r.bad(pn + 'the fringe is computed for the two given tiles', 'addfringe is called with other values for %s' % ', '.join(wrong), s)
            else:
                r.ok(pn + 'the fringe is computed for the two given tiles')
        if not (isinstance(sc.ret, tuple) and len(sc.ret) == 3 and isinstance(sc.ret[0], DictRef)):
            return r.und(pn + 'result', repr(sc.ret)) if isinstance(sc.ret, (Unk, Choice)) else r.bad(pn + 'result', 'returns %r, not (grid, ni, nj)' % (sc.ret,), site)
        I = sc.I
        G = dict_of(I, sc.ret[0])
        ni, nj = joined_counts(P)
        x = ea in (E_, W_)
        a_first = ea in (E_, N_)
        for n in NAMES:
            arr = G.get(n)
            s = site + ' result field ' + n
            if not isinstance(arr, Arr) or arr.ndim != 2:
                r.und(pn + n, repr(arr)) if isinstance(arr, (Unk, Choice)) else r.bad(pn + n, 'is %r, not a matrix' % (arr,), s)
                continue
            if eq_terms(r, pn + 'size of ' + n, tuple(arr.shape), shape_of(n, ni, nj), I.base_ctx, s) == 'bad':
                continue
            st = (DI if x else DJ)[n]
            na, nb = ((P.na[0], P.nb[0]) if x else (P.na[1], P.nb[1]))
            fa, fb = inp2('f:' + n), inp2('b:' + n)
            # position p along the joined direction: which tile, which line
            lo = add(na, num(st)) if a_first else nb
            for ri in ('first', 'border-1', 'border', 'border+1', 'low', 'high', 'last'):
                for rj in REG:
                    ctx = I.base_ctx.copy()
                    tot = add(na, nb, num(st))
                    if ri == 'low':
                        p = isym('n:p')
                        ctx.bound(single_atom(p), ZERO, sub(lo, ONE))
                    elif ri == 'high':
                        p = isym('n:p')
                        ctx.bound(single_atom(p), lo, sub(tot, ONE))
                    elif ri.startswith('border'):
                        p = add(na if a_first else nb, num({'-1': -1, '': 0, '+1': 1}[ri[6:]]))
                        ctx.fact(sub(sub(tot, ONE), p))
                    else:
                        p = ZERO if ri == 'first' else sub(tot, ONE)
                    q = region(ctx, 'n:q', arr.shape[1 if x else 0], rj)
                    PR.CUR.append(ctx)
                    nm = pn + '%s[%s line, %s]' % (n, ri, rj)
                    try:
                        at = lambda f, k: f(k, q) if x else f(q, k)
                        in_low = lt(p, lo)
                        if a_first:
                            spec = ite(in_low, at(fa, p), at(fb, sub(p, na)))
                        else:
                            spec = ite(in_low, at(fb, p), at(fa, sub(p, nb)))
                        ij = (p, q) if x else (q, p)
                        compare(r, nm, I.elem(arr, ij), spec, ctx, [lambda sd, k: Model(sd, k)] * 3, s)
                    except Unresolvable as e:
                        r.und(nm, str(e))
                    finally:
                        PR.CUR.pop()
        extra = [k for k in G if k not in NAMES]
        if extra:
            r.bad(pn + 'no other fields', 'unexpected fields %r' % (extra,), site)
        eq_terms(r, pn + 'cell counts', tuple(sc.ret[1:]), (ni, nj), I.base_ctx, site)
    parallel(rep, [('%s-%s' % (EDGE[a], EDGE[b]), lambda r, a=a, b=b: one(r, a, b)) for a, b in PAIRS])
