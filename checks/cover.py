"""Directed models for branches no random model took.

Two terms that agree in random models may still differ under a condition that
random data almost never satisfies (an equality between two inputs, a value in
a narrow range, a longitude past 360, a large grid).  Every condition of the
derived term that took only one value is made to take the other one: sizes are
redrawn at several scales, data leaves are moved one at a time along the
condition's branch distance.  A condition that cannot be reached is reported
back to the caller.
"""
import math
import random
from sgflow.terms import *
from sgflow import terms as T
from sgflow.prove import *
from sgflow.eval import Model, EvalError, SOFT


def datafree(t):
    """only integer symbols and arithmetic: decided by the sizes alone"""
    for x in subterms(t):
        if x.kind == 'sym' and not is_int(x):
            return False
        if x.kind in ('rd', 'brd', 'bapp', 'str', 'exists'):
            return False
        if x.kind == 'app' and x.args[0] not in ('fdiv', 'abs', 'min', 'max', 'mod'):
            return False
    return True


MEASURE = ('dist', 'sqrt', 'arccos', 'acos', 'arctan2')


def degenerate(t):
    """is this condition a test for coincident points or an empty cell (outside every property's domain)?"""
    if t.kind == 'not':
        return degenerate(t.args[0])
    if t.kind in ('and', 'or'):
        return all(degenerate(x) for x in t.args)
    if t.kind == 'eq0':
        return any(x.kind == 'app' and x.args[0] in MEASURE for x in subterms(t))
    return False


def skeleton(t, d=3):
    """shape of a condition: which functions of how many data, compared with which constant"""
    if d <= 1:
        v = constval(t) if ispoly(t) else None
        return '.' if v is None else str(v)
    k = t.kind
    if k == 'poly':
        return '+'.join(sorted('%s*%s' % ('c' if m and abs(c) == 1 else c, '*'.join(sorted(skeleton(a, d - 1) for a, e in m))) for m, c in t.args))
    if k == 'app':
        return '%s(%s)' % (t.args[0], ','.join(skeleton(x, d - 1) if isinstance(x, Term) else '' for x in t.args[1:]))
    if k in ('not', 'and', 'or', 'lt0', 'eq0', 'ite'):
        return '%s(%s)' % (k, ','.join(sorted(skeleton(x, d) for x in t.args)))
    return k


def parts(t):
    yield t
    if t.kind in ('not', 'and', 'or'):
        for x in t.args:
            yield from parts(x)


def cost(M, t, env, want):
    """branch distance of condition t from having value `want` (0 when it has)"""
    k = t.kind
    if k == 'not':
        return cost(M, t.args[0], env, not want)
    if k in ('and', 'or'):
        cs = [cost(M, x, env, want) for x in t.args]
        return sum(cs) if (k == 'and') == want else min(cs)
    r = bool(M.ev(t, env))
    if r == want:
        return 0.0
    if k in ('lt0', 'eq0'):
        v = M._poly(t.args[0], env)[0]
        if v != v or math.isinf(v):
            return 1e9
        if k == 'lt0':
            return abs(v) + 1e-9 * (1 + abs(v)) if want else abs(v)
        return abs(v) if want else 1e-6
    if k == 'ite':
        return 1.0
    return 1.0


def nan_leaf(t, want):
    """x when the condition is isnan(x)-like and wanted true"""
    if t.kind == 'not':
        return nan_leaf(t.args[0], not want)
    if t.kind == 'bapp' and t.args[0] == 'isnan' and want:
        return t.args[1]
    if t.kind in ('and', 'or') and (t.kind == 'or') == want:
        for x in t.args:
            r = nan_leaf(x, want)
            if r is not None:
                return r
    return None


def build(mk_, seed, ints, over):
    M = mk_(seed, ints)
    M.over = over
    return M


def reach(mk_, seed, ints, t, env, want, purse, budget=400, accept=None, refused=None):
    """leaf values under which condition t (in env) has value `want`; None when the search fails.

    accept(M): is the model usable?  Those that are not are counted in `refused` and the search goes on."""
    M = build(mk_, seed, ints, {})
    free = M.free or (None if M.inp is None else (lambda key: None))
    M.track = {}
    try:
        M.memo, M.rmemo = {}, {}
        f = cost(M, t, env, want)
    except (EvalError, OverflowError, RecursionError):
        return None
    leaves = {}
    for k, v in M.track.items():
        r = (-math.inf, math.inf) if free is None and k[0] in ('in', 'sym', 'file', 'text') else free(k) if free else None
        if r is not None:
            leaves[k] = (v, r)
    if f == 0:
        return {}
    x = nan_leaf(t, want)
    if x is not None and free is None:
        a = single_atom(x) if ispoly(x) else x
        if a is not None and a.kind == 'app' and a.args[0] in ('in', 'file', 'text'):
            for k in leaves:
                if k[0] == a.args[0]:
                    o = {k: math.nan}
                    if cost(build(mk_, seed, ints, o), t, env, want) == 0:
                        return o
        return None
    if not leaves:
        return None
    cur_ = {k: v for k, (v, r) in leaves.items()}
    over = {}
    used = 0

    def at(o):
        nonlocal used
        used += 1
        N = build(mk_, seed, ints, o)
        try:
            g = cost(N, t, env, want)
        except (EvalError, OverflowError, RecursionError):
            return math.inf
        finally:
            purse[0] -= N.steps
        if g == 0 and accept is not None and refused[0] < 8:
            if not accept(build(mk_, seed, ints, dict(o))):
                refused[0] += 1
                return math.inf
        return g
    # the whole data set is tiny (or wide), in one component or in all
    comps = {}
    for k in leaves:
        if k[0] == 'in' and len(k) > 2:
            comps.setdefault(k[1], []).append(k)
        elif k[0] == 'sym' and str(k[1])[-1:].isdigit():
            comps.setdefault(str(k[1]).rstrip('0123456789'), []).append(k)
    for c in [c for c in comps if len(comps[c]) < 2]:
        del comps[c]
    for sel in [list(comps)] + [[c] for c in sorted(comps)] if comps else []:
        for s in (.1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 2., 4.):
            o = {}
            for c in sel:
                m = sum(cur_[k] for k in comps[c]) / len(comps[c])
                for k in comps[c]:
                    o[k] = min(max(m + s * (cur_[k] - m), leaves[k][1][0]), leaves[k][1][1])
            g = at(o)
            if g == 0:
                return o
            if purse[0] < 0:
                return None
            if s == .1 and g > f * .999:
                break
    # all of one component lies elsewhere in its range
    for c in sorted(comps):
        m = sum(cur_[k] for k in comps[c]) / len(comps[c])
        for s in (.1, .01):
            for q in (.9, .7, .3, .1):
                o = {}
                for k in comps[c]:
                    lo, hi = leaves[k][1]
                    if not math.isinf(hi - lo):
                        o[k] = min(max(lo + q * (hi - lo) + s * (cur_[k] - m), lo), hi)
                if o and at(o) == 0:
                    return o
                if purse[0] < 0:
                    return None
    # two points of the data (almost) coincide: copy the whole point, all its components together
    spots = {}
    for k in leaves:
        if k[0] == 'in' and len(k) > 3:
            spots.setdefault(k[2:], {})[k[1]] = k
    for a in sorted(spots):
        for b in sorted(spots):
            if a == b or set(spots[a]) != set(spots[b]) or used > budget // 2:
                continue
            for d in (0.0, 2e-8, 1e-5, 1e-2):
                o = {k: min(max(cur_[spots[b][n]] + d, leaves[k][1][0]), leaves[k][1][1]) for n, k in spots[a].items()}
                g = at(o)
                if g == 0:
                    return o
                if purse[0] < 0:
                    return None
                if not d and g > f * .999:
                    break
    order = sorted(leaves, key=str)[:24]
    # values past the constants of the condition, too far off for the search to see any slope
    far = set()
    for x in subterms(t):
        if ispoly(x):
            for m, v in x.args:
                if not m and abs(v) > 1e4 and abs(v) < 1e307:
                    far |= {float(v) * 2, -float(v) * 2}
    for k in order[:4]:
        for v in sorted(far)[:8]:
            if leaves[k][1][0] <= v <= leaves[k][1][1] and at({k: v}) == 0:
                return {k: v}
    for sweep in range(6):
        moved = False
        for k in order:
            lo, hi = leaves[k][1]
            v = cur_[k]
            cand = []
            d = 1e-4 * (1 + abs(v))
            f1 = at(dict(over, **{}) | {k: v + d})
            if f1 == 0:
                over[k] = cur_[k] = v + d
                return over
            s = (f1 - f) / d
            if s and not math.isinf(s) and s == s:
                x0 = v - f / s
                cand += [x0, x0 + (x0 - v) * 1e-6, x0 + (x0 - v) * .01, x0 + (x0 - v) * .5, x0 + (x0 - v) * 2]
            else:
                cand += [v + h for h in (-400, -180, -90, -10, -1, 1, 10, 90, 180, 400)] + [0.0]
            for j in order:
                if j != k and abs(cur_[j] - v) > 1e-12:
                    cand += [cur_[j]] if sweep % 2 == 0 else [cur_[j] + 1e-3, cur_[j] - 1e-3]
            best = None
            for c in cand[:16]:
                if c != c or not lo <= c <= hi:
                    continue
                g = at(over | {k: c})
                if g == 0:
                    over[k] = c
                    return over
                if g < f - 1e-15 and (best is None or g < best[0]):
                    best = (g, c)
                if used > budget or purse[0] < 0:
                    return None
            if best:
                f, over[k] = best
                cur_[k] = best[1]
                moved = True
        if not moved:
            break
    return None


def cheapest(models, t, env, want, ctx, syms, rng, sample):
    """instances to search in: those that have it already, then those whose condition is evaluated in the fewest steps"""
    out = []
    for n, mk_ in enumerate(models):
        for _ in range(2):
            ints = sample(ctx, syms, rng)
            if ints is None:
                continue
            seed = rng.randint(0, 10 ** 9)
            M = build(mk_, seed, ints, {})
            try:
                f = cost(M, t, env, want)
            except (EvalError, OverflowError, RecursionError):
                continue
            out.append((f != 0, M.steps, n, len(out), (mk_, seed, ints)))
    out.sort(key=lambda x: x[:4])
    return [x[4] for x in out[:max(len(models), 4)]]


def intchoice(t):
    """depends on counts, list lengths and unknown yes/no facts only"""
    def go(x):
        if x.kind == 'sym':
            return is_int(x)
        if x.kind in ('rd', 'brd', 'str', 'exists'):
            return False
        if x.kind == 'bapp':
            return x.args[0] != 'isnan'
        if x.kind == 'app':
            if x.args[0] == 'size':
                return True
            if x.args[0] not in ('fdiv', 'abs', 'min', 'max', 'mod'):
                return False
        if x.kind == 'ite':
            return all(go(y) for y in x.args)
        if x.kind == 'poly':
            return all(go(a) for m, _ in x.args for a, e in m)
        return all(go(y) for y in x.args if isinstance(y, Term))
    return go(t)


def consistent(M, ctx):
    """does the model satisfy the facts about quantities that are not integer symbols"""
    for f in ctx.facts:
        try:
            if M.num(f) < 0:
                return False
        except (EvalError, OverflowError, RecursionError):
            pass
    return True


class Lim:
    choices = 40        # models spent on conditions over counts and choices
    report = False      # report conditions on choices that no model decides otherwise
    conds = 8           # kinds of data condition targeted per comparison
    steps = 400000      # evaluation steps spent on one condition


def directed(c, spec_cov, cov, models, ctx, syms, rng, sample, bare=False, accept=None):
    """yields ('model', Model, note) for branches not taken so far, ('missed', note) for those no model reaches"""
    skip = {T.alpha(k) for k in spec_cov}
    todo = []
    for k, v in cov.items():
        if len(v) > 1 or k.kind == 'B':
            continue
        if T.alpha(k) in skip or degenerate(k):
            continue
        want = not list(v)[0]
        todo.append((k, v[not want], want))
    ints_only = [x for x in todo if datafree(x[0]) and not x[1] and not fv(x[0])]
    # cases the required value distinguishes and the derived one may not
    have = {T.alpha(k) for k in cov}
    for k, v in spec_cov.items():
        if len(v) == 1 and k.kind != 'B' and T.alpha(k) not in have and datafree(k) and not fv(k):
            w = not list(v)[0]
            if not v[not w]:
                ints_only.append((k, v[not w], w))
    data = [x for x in todo if not datafree(x[0])]
    if ints_only:
        left = list(ints_only)
        for small, tries in ((4, 30), (9, 20), (40, 10), (3000, 6)):
            for _ in range(tries):
                if not left:
                    break
                val = sample(ctx, syms, rng, small=small)
                if val is None:
                    break
                hit = []
                for x in left:
                    M = Model(0, val)
                    try:
                        if bool(M.ev(x[0])) == x[2]:
                            hit.append(x)
                    except EvalError:
                        pass
                if hit:
                    left = [x for x in left if x not in hit]
                    yield 'ints', val, 'when %s%s' % ('' if hit[0][2] else 'not ', show(hit[0][0])[:160])
    choice = [x for x in data if intchoice(x[0])]
    data = [x for x in data if not intchoice(x[0])]
    # conditions on counts and choices alone: a narrow domain, sampled until each has taken both values
    left = {T.alpha(x[0]): x[2] for x in choice}
    for k in range(Lim.choices if left else 0):
        if not left:
            break
        big = (4, 4, 12, 48)[k % 4]
        ints = sample(ctx, syms, rng, small=big)
        if ints is None:
            break
        M = build(models[k % len(models)], rng.randint(0, 10 ** 9), ints, {})
        M.sizes = big
        if big > 4 and not consistent(M, ctx):
            continue
        M.cov = {}
        try:
            M.num(c)
        except (EvalError, OverflowError, RecursionError):
            continue
        hit = [x for x in M.cov if T.alpha(x) in left and left[T.alpha(x)] in M.cov[x]]
        M.cov = None
        if hit:
            note = 'when %s%s' % ('' if left[T.alpha(hit[0])] else 'not ', show(hit[0])[:160])
            for x in hit:
                left.pop(T.alpha(x), None)
            yield 'model', (M, ints), note
    for x in choice:
        if T.alpha(x[0]) in left and Lim.report:
            yield 'missed', None, '%s%s' % ('' if x[2] else 'not ', show(x[0])[:160])
    known = {skeleton(x) for k in spec_cov for x in parts(k)}
    group = {}
    for x in data:
        group.setdefault((skeleton(x[0]), x[2]), []).append(x)
    order = sorted(group.items(), key=lambda g: g[0][0] in known)
    for n, ((sk, want), g) in enumerate(order):
        if n >= Lim.conds:
            if sk not in known and not all(x[0] in SOFT for x in g):
                yield 'missed', None, 'further conditions such as %s%s' % ('' if want else 'not ', show(g[0][0])[:160])
            break
        t, env, _ = g[0]
        ok = False
        purse = [Lim.steps if sk not in known else Lim.steps // 10]
        whole = purse[0]
        for mk_, seed, ints in cheapest(models, t, env, want, ctx, syms, rng, sample):
            if purse[0] < 0:
                break
            share = [max(whole // 3, 1000)]
            refused = [0]
            o = reach(mk_, seed, ints, t, env, want, share, accept=accept, refused=refused)
            purse[0] -= max(whole // 3, 1000) - share[0]
            ok = ok or refused[0] > 0       # reached, but only where nothing can be compared
            if o is None:
                continue
            ok = True
            yield 'model', (build(mk_, seed, ints, o), ints), 'when %s%s' % ('' if want else 'not ', show(t)[:160])
            break
        if not ok and sk not in known and not all(x[0] in SOFT for x in g):
            yield 'missed', None, '%s%s' % ('' if want else 'not ', show(t)[:160])
