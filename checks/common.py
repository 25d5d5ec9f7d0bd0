"""Shared machinery of the checks: obligations, comparison of value terms, reporting."""
import os
import sys
import json
import time
import random
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)

from sgflow.lib import *            # noqa
from sgflow import prove as PR
from sgflow import terms as T
from sgflow.interp import Interp
from . import cover as CV
from sgflow.eval import Model, EvalError, close, opaque, h01

REPO = os.environ.get('SG_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


class Ob:
    def __init__(self, name, status, detail='', site='', method=''):
        self.name, self.status, self.detail, self.site, self.method = name, status, detail, site, method


class Report:
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.obs = []
        self.notes = []
        self.analysed = {}
        self.t0 = time.time()
        self.terms = 0
        self.models = 0

    def add(self, name, status, detail='', site='', method=''):
        self.obs.append(Ob(name, status, detail, site, method))
        return status

    def ok(self, name, method='structural', detail=''):
        return self.add(name, 'ok', detail, '', method)

    def bad(self, name, detail, site=''):
        return self.add(name, 'bad', detail, site, 'refuted')

    def und(self, name, why):
        return self.add(name, 'undecided', why, '', '')

    def saw(self, I):
        """record what an interpretation covered"""
        for m in I.mods.values():
            if getattr(m, 'tree', None) is not None:
                self.analysed.setdefault(os.path.relpath(m.path, I.root), set())
        for c in I.calls:
            try:
                mod, fn = c[0]
                self.analysed.setdefault(mod, set()).add(fn)
            except Exception:
                pass
        for n in I.notes:
            self.notes.append(str(n))


def parallel(rep, pieces, limit=600):
    """run independent parts of a check (name, function(rep)) in forked workers and collect their obligations"""
    def run_piece(name, fn, r):
        try:
            fn(r)
        except Unsupported as e:
            r.und(name, 'unsupported: %s' % e.why)
        except Unresolvable as e:
            r.und(name, 'unresolvable: %s' % e)
        except RecursionError:
            r.und(name, 'recursion')
        except Exception as e:          # engine limitation, never a verdict
            if os.environ.get('SG_DEBUG'):
                traceback.print_exc()
            r.und(name, 'engine: %s: %s' % (type(e).__name__, e))
    if os.environ.get('SG_SERIAL') or len(pieces) == 1:
        for name, fn in pieces:
            run_piece(name, fn, rep)
        return
    import pickle
    import select
    todo = list(pieces)
    live = {}
    done = {}
    deadline = time.time() + limit
    while todo or live:
        while todo and len(live) < max(2, min(8, os.cpu_count() or 2)):
            name, fn = todo.pop(0)
            r_, w_ = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r_)
                    r = Report(rep.prop, rep.rule)
                    run_piece(name, fn, r)
                    data = pickle.dumps((r.obs, r.notes, r.analysed, r.models))
                    with os.fdopen(w_, 'wb') as f:
                        f.write(data)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w_)
            live[r_] = (name, pid, [])
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][2].append(b)
                continue
            name, pid, buf = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            done[name] = b''.join(buf)
        if time.time() > deadline:
            for fd, (name, pid, buf) in list(live.items()):
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                os.close(fd)
                done[name] = None
            for name, fn in todo:
                done[name] = None
            break
    for name, _ in pieces:
        b = done.get(name)
        try:
            obs, notes, analysed, models = pickle.loads(b)
        except Exception:
            rep.und(name, 'no result within the time limit' if b is None else 'analysis process ended early')
            continue
        rep.obs += obs
        rep.notes += notes
        rep.models += models
        for m, fs in analysed.items():
            rep.analysed.setdefault(m, set()).update(fs)


# --------------------------------------------------------------------- scenarios
class Scenario:
    """one abstract interpretation of an entry point, started from symbolic arguments"""

    reuse = None        # an interpreter to continue with (a later call in the same process)
    edit = None         # function changing the keyword arguments of the call
    before = None       # function run before the call

    def __init__(self, rep, overrides=None, setup=None, root=None):
        self.rep = rep
        if Scenario.reuse is not None:
            self.I = Scenario.reuse
            self.I.overrides = overrides or {}
            self.I.oracle = None
        else:
            self.I = Interp(root or REPO, overrides or {}, cur().copy())
        Scenario.last = self
        if setup:
            setup(self.I)
        self.ret = None
        self.error = None

    def call(self, mod, fn, args=(), kw=None):
        I = self.I
        self.entry = '%s.%s' % (mod, fn)
        try:
            f = I.func(mod, fn)
            if f is None or not isinstance(f, (Func, Partial, Builtin)) and not (isinstance(f, ObjV) and f.kind == 'memofn'):
                self.error = 'no function %s.%s' % (mod, fn)
                return None
            kw = dict(kw or {})
            if Scenario.edit:
                kw = Scenario.edit(kw)
            if Scenario.before:
                Scenario.before(I)
            self.first_event = len(I.events)
            self.ret = I.call(f, list(args), kw, None)
        except DeadPath:
            self.error = None
            self.ret = DEAD
        except Unsupported as e:
            self.error = 'unsupported: %s (line %s)' % (e.why, getattr(getattr(e, 'node', None), 'lineno', '?'))
        except Unresolvable as e:
            self.error = 'unresolvable: %s' % e
        except RecursionError:
            self.error = 'recursion'
        except Exception as e:      # engine limitation, never a verdict
            if os.environ.get('SG_DEBUG'):
                traceback.print_exc()
            self.error = 'engine: %s: %s' % (type(e).__name__, e)
        self.rep.saw(I)
        return self.ret

    def events(self, *kinds):
        return [e for e in self.I.events if e.kind in kinds]


class _Dead:
    def __repr__(self):
        return 'DEAD'


DEAD = _Dead()


def dict_of(I, d):
    return {I.unhkey(k): v for k, v in I.dict_items(d).items() if v is not UNDEF}


# --------------------------------------------------------------------- regions
def region(ctx, name, n, which, lo=1, hi=1):
    """index term for one dimension of size n: 'first','mid','last','any'"""
    if which == 'first':
        return ZERO
    if which == 'last':
        return sub(n, ONE)
    s = isym(name)
    a = single_atom(s)
    if which == 'mid':
        ctx.bound(a, num(lo), sub(n, num(1 + hi)))
    else:
        ctx.bound(a, ZERO, sub(n, ONE))
    return s


SMALL = 4
ATTEMPTS = 2 if TIER == 'quick' else 6


def sample(ctx, syms, rng, small=None, tries=400):
    """integers for the integer symbols, satisfying ranges and facts"""
    small = SMALL if small is None else small
    order = sorted(syms, key=lambda s: s.id)
    for _ in range(tries):
        val = {}
        M = Model(0)
        M.syms = val
        pend = list(order)
        ok = True
        guard = 0
        while pend and ok:
            guard += 1
            if guard > 200:
                ok = False
                break
            s = pend.pop(0)
            lo, hi = ctx.ranges.get(s, (ONE, None))
            need = set()
            for b in (lo, hi):
                if b is not None:
                    need |= {x for x in subterms(b) if x.kind == 'sym' and is_int(x) and x.args[0] not in val}
            if need - {s}:
                pend.append(s)
                for x in need:
                    if x not in pend:
                        pend.insert(0, x)
                continue
            try:
                M.memo = {}
                l = int(M.num(lo)) if lo is not None else 0
                h = int(M.num(hi)) if hi is not None else l + small
            except (EvalError, OverflowError, ValueError):
                ok = False
                break
            if h < l:
                ok = False
                break
            val[s.args[0]] = rng.randint(l, min(h, l + (2 * small if hi is not None else small)))
        if not ok:
            continue
        M.memo = {}
        try:
            for f in ctx.facts:
                if any(x.kind == 'sym' and is_int(x) and x.args[0] not in val for x in subterms(f)):
                    continue
                if not is_int(f):
                    continue
                if M.num(f) < 0:
                    ok = False
                    break
        except EvalError:
            pass
        if ok:
            return val
    return None


def int_syms(*ts):
    out = set()
    for t in ts:
        for s in subterms(t):
            if s.kind == 'sym' and is_int(s):
                out.add(s)
    return out


def ctx_syms(ctx):
    out = set()
    for a, (lo, hi) in ctx.ranges.items():
        if a.kind == 'sym' and is_int(a):
            out.add(a)
        for b in (lo, hi):
            if b is not None:
                out |= int_syms(b)
    return out


def compare(rep, name, code, spec, ctx, models, site='', rtol=1e-9, differs=None, basis=None):
    """decide code == spec in ctx.  `models`: list of callables (seed, ints) -> Model"""
    und = None
    why = None
    if code is spec or T.alpha(code) is T.alpha(spec):
        return rep.ok(name, 'identical value numbers')
    try:
        c, _u = resolve(code, ctx)
    except (Unresolvable, RecursionError) as e:
        c, why = code, str(e)
    try:
        s, _u = resolve(spec, ctx)
    except (Unresolvable, RecursionError) as e:
        s = spec
    if c is s or T.alpha(c) is T.alpha(s):
        return rep.ok(name, 'identical value numbers')
    op = opaque(c)
    if op and not _opaque_branch_only(c):
        return rep.und(name, 'value depends on something not modelled: %s' % op)
    agree = 0
    cov, scov = {}, {}
    rng = random.Random('%s|%s|%d' % (rep.prop, name, SEED))
    syms = int_syms(c, s) | ctx_syms(ctx)
    tried = 0
    last = ''
    for mk_ in list(models) + flats(models):
        for attempt in range(ATTEMPTS):
            ints = sample(ctx, syms, rng)
            if ints is None:
                last = 'no instance found'
                continue
            M = mk_(rng.randint(0, 10 ** 9), ints)
            M.cov = cov
            try:
                tried += 1
                a = M.num(c)
                M.cov = scov
                b = M.num(s)
                z = M.num(basis) if basis is not None else None
                M.cov = None
            except EvalError as e:
                last = str(e)
                continue
            except RecursionError:
                last = 'recursion'
                continue
            rep.models += 1
            if (differs(a, b) if differs else not close(a, b, rtol)) and isinstance(a, (int, float)) and ill_conditioned(M, c, s, a, b):
                last = 'numerically ill-conditioned in every model'
                continue
            if differs and z is not None and differs(a, b) and (differs(z, b) or ill_conditioned(M, c, basis, a, z)):
                last = 'the required value itself is lost to rounding in every model'
                continue
            if differs(a, b) if differs else not close(a, b, rtol):
                inst = ', '.join('%s=%s' % (k.replace('n:', ''), v) for k, v in sorted(ints.items()))
                return rep.bad(name, 'differs from the required value at %s: derived %r, required %r; derived term %s' % (inst or '-', a, b, show(c)[:300]), site)
            agree += 1
    if not agree:
        return rep.und(name, why or last or 'no model could be evaluated')
    missed = []

    def accept(M):
        """can the two terms be compared in this model?"""
        try:
            M.cov = {}
            a = M.num(c)
            new, M.cov = M.cov, None
            b = M.num(s)
        except (EvalError, RecursionError, OverflowError):
            return False
        if any(CV.degenerate(k) and k in cov and set(v) - set(cov[k]) for k, v in new.items()):
            return False
        if not (differs(a, b) if differs else not close(a, b, rtol)):
            return True
        return not (isinstance(a, (int, float)) and ill_conditioned(M, c, s, a, b))
    for kind, x, note in CV.directed(c, scov, cov, models, ctx, syms, rng, sample, accept=accept):
        if kind == 'missed':
            missed.append(note)
            continue
        for mk_ in (models[:2] if kind == 'ints' else [None]):
            if kind == 'ints':
                ints = x
                M = mk_(rng.randint(0, 10 ** 9), ints)
            else:
                M, ints = x
            try:
                M.cov = {}
                a = M.num(c)
                new, M.cov = M.cov, None
                b = M.num(s)
            except (EvalError, RecursionError, OverflowError):
                continue
            if any(CV.degenerate(k) and k in cov and set(v) - set(cov[k]) for k, v in new.items()):
                continue        # the search ran into coincident points
            rep.models += 1
            if differs(a, b) if differs else not close(a, b, rtol):
                if isinstance(a, (int, float)) and ill_conditioned(M, c, s, a, b):
                    continue
                if differs and basis is not None:
                    try:
                        z = M.num(basis)
                    except (EvalError, RecursionError, OverflowError):
                        continue
                    if differs(z, b) or ill_conditioned(M, c, basis, a, z):
                        continue
                inst = ', '.join('%s=%s' % (k.replace('n:', ''), v) for k, v in sorted(ints.items()))
                return rep.bad(name, 'differs from the required value %s, at %s: derived %r, required %r; derived term %s' % (note, inst or '-', a, b, show(c)[:300]), site)
            agree += 1
    if os.environ.get('SG_COV'):
        for m in missed:
            print('COV', rep.prop, name, m)
    if missed:
        return rep.und(name, 'agrees in random models, but none reaches: %s' % missed[0])
    if agree >= 2 or (agree and len(models) == 1):
        return rep.ok(name, 'random interpretation (%d models)' % agree)
    return rep.und(name, why or last or 'no model could be evaluated')


def flats(models):
    """models of data without any variation, where the data are not restricted"""
    if not models:
        return []
    M = models[0](0, {})
    if M.inp is not None or M.free is not None:
        return []

    def flat(v):
        def mk_(seed, ints):
            N = models[0](seed, ints)
            N.inp = lambda *a: v
            return N
        return mk_
    return [flat(0.0), flat(1.5)]


def ill_conditioned(M, c, s, a, b):
    """could rounding alone explain the difference between two evaluated terms?"""
    try:
        xs, ys = [a], [b]
        for k in range(3):
            N = M.noisy(4e-16, k)
            xs.append(N.num(c))
            N = M.noisy(4e-16, k + 10)
            ys.append(N.num(s))
        if any(not isinstance(v, (int, float)) for v in xs + ys):
            return False
        nx, ny = sum(v != v for v in xs), sum(v != v for v in ys)
        if nx or ny:
            return 0 < nx < len(xs) or 0 < ny < len(ys)
        spread = max(max(xs) - min(xs), max(ys) - min(ys))
        return spread > 0 and abs(a - b) <= 30 * spread
    except EvalError:
        return False


def _opaque_branch_only(t):
    return False


def finish(rep, level, explanation, level_data=None):
    """print the verdict, write evidence, return exit code"""
    known = load_known(rep.prop)
    bad = [o for o in rep.obs if o.status == 'bad']
    und = [o for o in rep.obs if o.status == 'undecided']
    okk = [o for o in rep.obs if o.status == 'ok']
    kf, viol = [], []
    for o in bad:
        (kf if any(o.name == k or (k.endswith('*') and o.name.startswith(k[:-1])) for k in known) else viol).append(o)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    seen = sorted({o.name for o in kf})
    for n in seen:
        print('KNOWN-FINDING: property=%s %s' % (rep.prop, n + ': ' + next(o.detail for o in kf if o.name == n)[:200]))
    rc = 0
    if viol:
        p = os.path.join(HERE, 'evidence', rep.prop + '.violation.txt')
        with open(p, 'w') as f:
            f.write('property %s: %s\n' % (rep.prop, rep.rule))
            for o in viol:
                f.write('\nobligation: %s\nsite: %s\n%s\n' % (o.name, o.site, o.detail))
        for o in viol[:6]:
            print('violated obligation: %s at %s: %s' % (o.name, o.site or '?', o.detail[:400]))
        print('VIOLATION property=%s replay=%s' % (rep.prop, p))
        rc = 1
    elif not okk and not kf:
        print('NO ANSWER property=%s: nothing could be decided (%s)' % (rep.prop, und[0].detail if und else 'no obligations'))
        rc = 2
    for o in und[:12]:
        print('UNDECIDED %s: %s' % (o.name, o.detail[:160]))
    methods = {}
    for o in okk:
        m = o.method.split(' (')[0]
        methods[m] = methods.get(m, 0) + 1
    cov = {
        'obligations': len(rep.obs), 'discharged': len(okk), 'undecided': len(und), 'violated': len(viol), 'known_findings': len(kf),
        'discharged_by': methods, 'random_models_evaluated': rep.models,
        'rule': rep.rule, 'explanation': explanation,
        'analysed_files': sorted(rep.analysed), 'analysed_functions': sorted('%s.%s' % (m, f) for m, fs in rep.analysed.items() for f in fs),
        'samples': [{'obligation': o.name, 'status': o.status, 'by': o.method} for o in rep.obs[:: max(1, len(rep.obs) // 12)]][:14],
        'undecided_obligations': [{'name': o.name, 'why': o.detail[:200]} for o in und[:30]],
        'violations': [{'name': o.name, 'site': o.site, 'detail': o.detail[:400]} for o in viol[:20]],
        'checker_cmd': 'python3 check.py %s' % rep.prop,
        'trusted_base': ['the CPython ast parser', 'sgflow: abstract semantics of the Python subset and of the numpy/pyproj/argparse calls used (sgflow/lib.py)', 'the specification terms in checks/'],
        'notes': sorted(set(rep.notes))[:20],
    }
    ev = {'property': rep.prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - rep.t0, 3)}
    with open(os.path.join(HERE, 'evidence', rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d known (%.1f s)' % (
        rep.prop, len(rep.obs), len(okk), len(und), len(viol), len(kf), time.time() - rep.t0))
    return rc


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2].split(' :: ')[0].strip())
    return out
