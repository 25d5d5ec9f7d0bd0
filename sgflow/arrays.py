"""Array memory-SSA: immutable array versions and element resolution.

An array version (Snap) is defined either elementwise (Lam), as an input (Inp),
as a previous version with a (parametric block of) element(s) replaced (Upd), as
the state after / at the start of an iteration of a summarised loop
(LoopEnd / Phi).  Element reads are lazy atoms; `resolve` decides which
definition reaches a read by solving the index maps with the range prover.
"""
from .terms import *
from . import terms as T
from .prove import *
from . import prove as PR
import itertools

_sid = itertools.count()


class Unresolvable(Exception):
    pass


class Snap:
    boolean = False

    def __init__(self, fvs=()):
        self.uid = next(_sid)
        self.fvs = tuple(fvs)

    def __repr__(self):
        return '%s%d' % (type(self).__name__, self.uid)

    def env0(self):
        return tuple(atom(v) for v in self.fvs)

    def term_fv(self):
        return frozenset(self.fvs)


EPOCH = ['']        # prefix of the names of inputs: lets a second set of inputs be told from the first


class Inp(Snap):
    """opaque input array: element = in(name, idx)"""

    def __init__(self, name, fvs=()):
        super().__init__(fvs)
        self.name = EPOCH[0] + name


class Const(Snap):
    def __init__(self, val):
        super().__init__(())
        self.val = val
        self.boolean = isbool(val)


class Lam(Snap):
    """elementwise definition; `whole` marks a replacement of all elements of prev"""

    def __init__(self, vars_, body, fvs=(), prev=None):
        super().__init__(fvs)
        self.vars = tuple(vars_)
        self.body = body
        self.prev = prev
        self.boolean = isbool(body)


class Upd(Snap):
    """prev with, for all 0<=b_k<n_k with guard: element idx(b) := val(b)"""

    def __init__(self, prev, bvars, idx, guard, val, fvs=(), site=None):
        super().__init__(fvs)
        self.prev = prev
        self.bvars = tuple(bvars)
        self.idx = tuple(idx)
        self.guard = guard
        self.val = val
        self.boolean = prev.boolean
        self.site = site


class Phi(Snap):
    def __init__(self, loop, base, fvs=()):
        super().__init__(fvs)
        self.loop = loop
        self.base = base
        self.body_end = None
        self.boolean = base.boolean
        self._writes = None

    def writes(self):
        if self._writes is None:
            if self.body_end is None:
                raise Unresolvable('read inside unfinished loop')
            self._writes = flatten(self.body_end, self)
        return self._writes


class LoopEnd(Snap):
    def __init__(self, phi, fvs=()):
        super().__init__(fvs)
        self.phi = phi
        self.boolean = phi.boolean


class Sel(Snap):
    def __init__(self, c, a, b, fvs=()):
        super().__init__(fvs)
        self.c, self.a, self.b = c, a, b
        self.boolean = a.boolean and b.boolean


class Loop:
    """summarised loop: variable v in [0,n)"""

    def __init__(self, v, n, node=None):
        self.v = v
        self.n = n
        self.node = node
        self.scal = {}


def flatten(s, stop):
    """writes between `stop` and `s`: list of (bvars, idx) with ranges"""
    out = []
    seen = set()

    def go(s, extra):
        while s is not stop:
            if (s.uid,) in seen and not extra:
                return
            seen.add((s.uid,))
            if isinstance(s, Upd):
                out.append((extra + list(s.bvars), s.idx))
                s = s.prev
            elif isinstance(s, LoopEnd):
                ph = s.phi
                L = ph.loop
                for bv, idx in ph.writes():
                    out.append((extra + [(L.v, L.n)] + list(bv), idx))
                s = ph.base
            elif isinstance(s, Sel):
                go(s.a, extra)
                s = s.b
            elif isinstance(s, Lam) and s.prev is not None:
                out.append((extra, None))
                s = s.prev
            elif isinstance(s, Lam) and s.prev is None:
                out.append((extra, None))
                return
            else:
                # a version not derived from `stop`: everything rewritten
                out.append((extra, None))
                return
    go(s, [])
    return out


# ------------------------------------------------------------------ reads
def rd(snap, idx):
    """element read in the current scope"""
    return RDI(snap, snap.env0(), tuple(idx), 'brd' if snap.boolean else 'rd')


def RDI(snap, env, idx, kind):
    # cheap cases are resolved eagerly
    if isinstance(snap, Const):
        return snap.val
    if isinstance(snap, Inp):
        if isinstance(snap.name, tuple):
            t = mk('app', *snap.name, *[subst(x, dict(zip(snap.fvs, env))) for x in ()], *idx)
        else:
            t = mk('app', 'in', snap.name, *env, *idx)
        return atom(t)
    if isinstance(snap, Lam):
        m = dict(zip(snap.fvs, env))
        m.update(zip(snap.vars, idx))
        return subst(snap.body, m)
    if isinstance(snap, Sel):
        m = dict(zip(snap.fvs, env))
        c = subst(snap.c, m)
        if c is TRUE:
            return RDI(snap.a, penv(snap.a, m), idx, kind)
        if c is FALSE:
            return RDI(snap.b, penv(snap.b, m), idx, kind)
        a = RDI(snap.a, penv(snap.a, m), idx, 'brd' if snap.a.boolean else 'rd')
        b = RDI(snap.b, penv(snap.b, m), idx, 'brd' if snap.b.boolean else 'rd')
        return ite(c, a, b)
    t = mk(kind, snap, env, idx)
    return t if kind == 'brd' else atom(t)


def penv(snap, m):
    return tuple(m.get(v, atom(v)) for v in snap.fvs)


T.RD = RDI


# ------------------------------------------------------------------ solving
def _linear(e, bvs):
    """coefficients of bound vars in e: (dict var->coef poly, base) or None when not affine"""
    coefs = {}
    base = e
    for v in bvs:
        if v in fv(e):
            if not any(a is v for a in atoms_of(e)):
                return None
            mx = max(x for m, _ in e.args for a, x in m if a is v)
            if mx != 1:
                return None
            c = coef(e, v)
            coefs[v] = c
            base = sub(base, mul(c, atom(v)))
    for v in bvs:
        if v in fv(base) or any(v in fv(c) for c in coefs.values()):
            return None
    return coefs, base


def solve(idx, bvars, target, ctx):
    """bound variables that make idx(bvars) == target.
    Returns (condition, {var: value}); free vars are absent from the dict."""
    sol = {}
    conds = []
    rng = {}
    for v, n in bvars:
        rng[v] = n
    todo = list(zip(idx, target))
    order = [v for v, _ in bvars]
    pending = []
    lins = []
    for e, t in todo:
        lin = _linear(e, order)
        if lin is None:
            sp = _split_divmod(idx, bvars, ctx)
            if sp is None:
                raise Unresolvable('non-affine index %s' % e)
            idx2, bv2, back = sp
            c, s = solve(idx2, bv2, target, ctx)
            out = {}
            for v, x in back.items():
                out[v] = subst(x, s)
            for v in order:
                if v in s:
                    out[v] = s[v]
            return c, out
        lins.append([lin[0], sub(t, lin[1])])
    progress = True
    while lins:
        # choose the dimension with fewest unsolved vars
        for L in lins:
            for v in list(L[0]):
                if v in sol:
                    L[1] = sub(L[1], mul(L[0].pop(v), sol[v]))
        lins.sort(key=lambda L: len(L[0]))
        cs, r = lins.pop(0)
        if not cs:
            conds.append(eq0(r))
            continue
        while cs:
            if len(cs) == 1:
                (v, c), = cs.items()
                cc = constval(c)
                if cc == 1:
                    q = r
                elif cc == -1:
                    q = neg(r)
                else:
                    if cc is not None and cc < 0:
                        c, r = neg(c), neg(r)
                    elif cc is None and not nonneg(c, ctx):
                        c, r = neg(c), neg(r)
                    q = fdiv(r, c, ctx)
                    conds.append(eq0(sub(mul(c, q), r)))
                sol[v] = q
                conds.append(le0(neg(q)))
                conds.append(lt(q, subst(rng[v], sol)))
                cs = {}
                r = ZERO
            else:
                # mixed radix: a dominating coefficient
                best = None
                for v, c in cs.items():
                    if not nonneg(c, ctx):
                        continue
                    lo = ZERO
                    hi = ZERO
                    ok = True
                    for w, d in cs.items():
                        if w is v:
                            continue
                        ext = mul(d, sub(subst(rng[w], sol), ONE))
                        if fv(ext) & set(rng):
                            ext = None
                            ok = False
                            break
                        if nonneg(d, ctx):
                            hi = add(hi, ext)
                        elif nonneg(neg(d), ctx):
                            lo = add(lo, ext)
                        else:
                            ok = False
                    if ok and nonneg(sub(sub(c, ONE), sub(hi, lo)), ctx):
                        best = (v, c, lo)
                        break
                if best is None:
                    raise Unresolvable('overlapping index map')
                v, c, lo = best
                q = fdiv(sub(r, lo), c, ctx)
                sol[v] = q
                conds.append(le0(neg(q)))
                conds.append(lt(q, subst(rng[v], sol)))
                r = sub(r, mul(c, q))
                cs = {w: d for w, d in cs.items() if w is not v}
    for v, n in bvars:
        if v not in sol:
            conds.append(lt(ZERO, subst(n, sol)))
    return land(*conds), sol


def _split_divmod(idx, bvars, ctx):
    """v occurring through fdiv(v,c): v = c*q + r"""
    for v, n in bvars:
        for e in idx:
            for st in subterms(e):
                if st.kind == 'app' and st.args[0] == 'fdiv' and st.args[1] is atom(v):
                    c = st.args[2]
                    m = fdiv(n, c, ctx)
                    if sub(mul(m, c), n).args:
                        continue
                    q, r = var('q'), var('r')
                    x = add(mul(c, atom(q)), atom(r))
                    c2 = ctx.copy()
                    c2.bound(q, ZERO, sub(m, ONE))
                    c2.bound(r, ZERO, sub(c, ONE))
                    PR.CUR.append(c2)
                    try:
                        idx2 = [subst(i, {v: x}) for i in idx]
                    finally:
                        PR.CUR.pop()
                    bv2 = []
                    for w, k in bvars:
                        if w is v:
                            bv2 += [(q, m), (r, c)]
                        else:
                            bv2.append((w, k))
                    return idx2, bv2, {v: x}
    return None


# ------------------------------------------------------------------ resolution
DEPTH = 400


class Resolver:
    """resolves element reads in a context (ranges/facts of the query)"""

    def __init__(self, ctx, budget=200000):
        self.ctx = ctx
        self.memo = {}
        self.depth = 0
        self.budget = budget
        self.undecided = []
        self.bound = frozenset()

    def run(self, t):
        PR.CUR.append(self.ctx)
        try:
            return self.res(t)
        finally:
            PR.CUR.pop()

    def res(self, t):
        key = t
        r = self.memo.get(key)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Unresolvable('budget')
        self.depth += 1
        if self.depth > DEPTH:
            self.depth -= 1
            raise Unresolvable('depth')
        try:
            r = self._res(t)
        finally:
            self.depth -= 1
        self.memo[key] = r
        return r

    def _res(self, t):
        k = t.kind
        rw = self.ctx.rewrite.get(t)
        if rw is not None:
            return self.res(rw)
        if k in ('rd', 'brd'):
            snap, env, idx = t.args
            env = tuple(self.res(x) for x in env)
            idx = tuple(self.res(x) for x in idx)
            return self.read(snap, env, idx, k)
        if k == 'ite':
            c = self.cond(t.args[0])
            if c is TRUE:
                return self.res(t.args[1])
            if c is FALSE:
                return self.res(t.args[2])
            return ite(c, self.under(c, t.args[1]), self.under(lnot(c), t.args[2]))
        if k in ('lt0', 'eq0', 'not', 'and', 'or', 'exists'):
            return self.cond(t)
        if k == 'app' and any(isinstance(x, Term) and x.kind == 'var' for x in t.args[1:]):
            return self.binder(t)
        return rebuild(t, self.res)

    def binder(self, t):
        """application binding index variables: ..., v, n, ... body"""
        b = self.ctx.base
        if b is not None and not fv(t) and not self._local(t, b):
            # independent of the current scope: resolved once
            r = b.bmemo.get(t)
            if r is None:
                s2 = Resolver(b, self.budget)
                s2.depth = self.depth
                PR.CUR.append(b)
                try:
                    r = s2.binder(t)
                finally:
                    PR.CUR.pop()
                self.budget = s2.budget
                b.bmemo[t] = r
            return r
        args = list(t.args[1:])
        c2 = self.ctx.copy()
        out = []
        for k, x in enumerate(args):
            if isinstance(x, Term) and x.kind == 'var':
                n = self.res(args[k + 1])
                c2.bound(x, ZERO, sub(n, ONE))
        s2 = Resolver(c2, self.budget)
        s2.depth = self.depth
        s2.undecided = self.undecided
        PR.CUR.append(c2)
        try:
            for k, x in enumerate(args):
                if not isinstance(x, Term) or x.kind == 'var':
                    out.append(x)
                else:
                    out.append(s2.res(x))
        finally:
            PR.CUR.pop()
        self.budget = s2.budget
        return atom(mk('app', t.args[0], *out))

    def _local(self, t, b):
        for x in subterms(t):
            if x.kind == 'sym' and x in self.ctx.ranges and x not in b.ranges:
                return True
        return False

    def under(self, c, t):
        """resolve t assuming c (only when c is about indices)"""
        if not _indexy(c):
            return self.res(t)
        c2 = self.ctx.copy()
        c2.assume(c)
        sub_ = Resolver(c2, self.budget)
        sub_.undecided = self.undecided
        sub_.depth = self.depth
        PR.CUR.append(c2)
        try:
            return sub_.res(t)
        finally:
            PR.CUR.pop()
            self.budget = sub_.budget

    def cond(self, c):
        k = c.kind
        if k in ('B', 'bapp'):
            if k == 'bapp':
                v = self.ctx.bfacts.get(c)
                if v is not None:
                    return B(v)
                c = rebuild(c, self.res)
            return c
        if k == 'exists':
            v, n, body = c.args
            n = self.res(n)
            c2 = self.ctx.copy()
            c2.bound(v, ZERO, sub(n, ONE))
            s2 = Resolver(c2, self.budget)
            s2.depth = self.depth
            PR.CUR.append(c2)
            try:
                body = s2.res(body)
            finally:
                PR.CUR.pop()
            c = exists(v, n, body)
        elif k == 'brd':
            return self.res(c)
        elif k == 'and':
            out = []
            for x in c.args:
                y = self.cond(x)
                if y is FALSE:
                    return FALSE
                out.append(y)
            return land(*out)
        elif k == 'or':
            out = []
            for x in c.args:
                y = self.cond(x)
                if y is TRUE:
                    return TRUE
                out.append(y)
            return lor(*out)
        elif k == 'not':
            return lnot(self.cond(c.args[0]))
        else:
            v = self.ctx.bfacts.get(c)
            if v is not None:
                return B(v)
            c = rebuild(c, self.res)
        d = decide(c, self.ctx)
        return c if d is None else B(d)

    def read(self, snap, env, idx, kind):
        m = dict(zip(snap.fvs, env))
        if isinstance(snap, (Const, Inp)):
            return self.res(RDI(snap, env, idx, kind)) if isinstance(snap, Const) else RDI(snap, env, idx, kind)
        if isinstance(snap, Lam):
            return self.res(RDI(snap, env, idx, kind))
        if isinstance(snap, Sel):
            return self.res(RDI(snap, env, idx, kind))
        if isinstance(snap, Upd):
            bv = [(v, subst(n, m)) for v, n in snap.bvars]
            ix = [subst(e, m) for e in snap.idx]
            ix = [self.res(e) for e in ix]
            bv = [(v, self.res(n)) for v, n in bv]
            c, sol = solve(ix, bv, idx, self.ctx)
            c = self.cond(c)
            if c is FALSE:
                return self.read(snap.prev, penv(snap.prev, m), idx, kind)
            m2 = dict(m)
            m2.update(sol)
            for v, n in bv:
                if v not in sol:
                    m2[v] = sub(n, ONE)
            if snap.guard is not TRUE:
                c = land(c, self.cond(subst(snap.guard, m2)))
            if c is TRUE:
                return self.res(subst(snap.val, m2))
            if c is FALSE:
                return self.read(snap.prev, penv(snap.prev, m), idx, kind)
            self.note(c)
            x = self.under(c, subst(snap.val, m2))
            y = self.under(lnot(c), RDI(snap.prev, penv(snap.prev, m), idx, kind))
            return ite(c, x, y)
        if isinstance(snap, LoopEnd):
            ph = snap.phi
            n = self.res(subst(ph.loop.n, m))
            return self.loopread(ph, m, n, idx, kind)
        if isinstance(snap, Phi):
            v = snap.loop.v
            return self.loopread(snap, m, m.get(v, atom(v)), idx, kind)
        raise Unresolvable(repr(snap))

    def note(self, c):
        if _indexy(c):
            self.undecided.append(c)

    def loopread(self, ph, m, bound, idx, kind):
        """value of element idx after iterations 0..bound-1 of the loop"""
        L = ph.loop
        v = L.v
        base = lambda: self.read(ph.base, penv(ph.base, m), idx, kind)
        if ph.body_end is ph:
            return base()
        cands = []
        m_ = {k: x for k, x in m.items() if k is not v}
        for bvars, widx in ph.writes():
            if widx is None:
                cands.append((lt(ZERO, bound), sub(bound, ONE)))
                continue
            bv = [(v, bound)] + [(w, self.res(subst(n, m_))) for w, n in bvars]
            ix = [self.res(subst(e, m_)) for e in widx]
            c, sol = solve(ix, bv, idx, self.ctx)
            c = self.cond(c)
            if c is FALSE:
                continue
            cands.append((c, sol.get(v, sub(bound, ONE))))
        # merge equal iterations
        merged = []
        for c, it in cands:
            for k, (c0, it0) in enumerate(merged):
                if it0 is it:
                    merged[k] = (lor(c0, c), it)
                    break
            else:
                merged.append((c, it))
        if not merged:
            return base()

        def value(it):
            m2 = dict(m_)
            m2[v] = it
            if ph.body_end is None:
                raise Unresolvable('read inside unfinished loop')
            return RDI(ph.body_end, penv(ph.body_end, m2), idx, kind)

        if len(merged) == 1:
            c, it = merged[0]
            if c is TRUE:
                return self.res(value(it))
            self.note(c)
            return ite(c, self.under(c, value(it)), self.under(lnot(c), RDI(ph.base, penv(ph.base, m), idx, kind)))
        if len(merged) > 4:
            raise Unresolvable('many candidate iterations')
        # latest iteration among those that write
        out = None
        out = self._latest(merged, value, lambda: RDI(ph.base, penv(ph.base, m), idx, kind))
        return self.res(out)

    def _latest(self, cands, value, base):
        # last writer wins; build nested gates
        if not cands:
            return base()
        c0, i0 = cands[0]
        conds = [c0]
        for c, i in cands[1:]:
            conds.append(lor(lnot(c), le(i, i0)))
        g = self.cond(land(*conds))
        rest = cands[1:]
        if g is TRUE:
            return value(i0)
        nb = self._latest(rest, value, base) if g is FALSE else None
        if g is FALSE:
            return nb
        self.note(g)
        return ite(g, value(i0), self._latest(rest, value, base))


def _indexy(c):
    """condition only about integer indices (no data)"""
    for st in subterms(c):
        if st.kind in ('lt0', 'eq0'):
            if not is_int(st.args[0]):
                return False
        elif st.kind in ('bapp', 'rd', 'brd'):
            return False
    return True


def resolve(t, ctx):
    r = Resolver(ctx)
    out = r.run(t)
    return out, r.undecided
