"""Forward abstract interpretation of the package source.

Control flow is merged at joins (gated values), never enumerated as paths;
loops over symbolic ranges are summarised parametrically; calls to package
functions are analysed in their calling context.
"""
import ast
import os
import warnings
from .terms import *
from . import terms as T
from .prove import *
from . import prove as PR
from .arrays import *
from .values import *

ROOT = os.environ.get('SG_REPO', '/repo')
UNROLL = 40


class Frame:
    def __init__(self, mod, fn=None, closure=None):
        self.env = {}
        self.mod = mod
        self.fn = fn
        self.closure = closure
        self.rets = []
        self.dead = False
        self.globals_ = set()
        self.nonlocals = set()
        self.pcbase = 0
        self.loopctl = []
        self.cleanups = []


class Event:
    def __init__(self, kind, data, pc, site, fn):
        self.kind, self.data, self.pc, self.site, self.fn = kind, data, pc, site, fn

    def __repr__(self):
        return 'Event(%s,%r,pc=%s,%s)' % (self.kind, self.data, self.pc, self.site)


class Interp:
    def __init__(self, root=None, overrides=None, ctx=None):
        self.root = root or ROOT
        self.mods = {}
        self.heap = {}
        self.links = {}         # array -> arrays sharing its memory
        self.layout = {}        # array -> 'C' or 'F' where known
        self.born = {}
        self.copied = {}
        self.maybe_view = set()
        self.owner = {}
        self.nobj = 0
        self.full = {}
        self.events = []
        self.pcs = []
        self.overrides = overrides or {}
        self.loopvars = []
        self.trys = []
        self.factories = {}
        self.stack = []
        self.sites = []
        self.loops = []
        self.notes = []
        self.oracle = None
        self.calls = []
        self.observers = {}
        self.peeling = 0
        self.base_ctx = ctx or Ctx()
        self.base_ctx.is_base = True
        PR.CUR.append(self.base_ctx)
        from . import lib
        self.lib = lib

    def close(self):
        PR.CUR.pop()

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path):
            return None
        m = UserMod(name, path)
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.tree = ast.parse(src, path)
        fr = Frame(m)
        fr.env = m.env
        m.env['__name__'] = name
        m.env['__file__'] = path
        self.stack.append(fr)
        try:
            for st in m.tree.body:
                if isinstance(st, ast.If) and _is_main_guard(st):
                    continue
                mark = self.mark()
                try:
                    self.exec_stmt(st, fr)
                except (Unsupported, DeadPath) as e:
                    self.unwind(mark)
                    self.notes.append(('module', name, getattr(st, 'lineno', 0), str(e)))
                    for n in _assigned(st):
                        m.env.setdefault(n, Unk('module-level'))
                fr.dead = False
        finally:
            self.stack.pop()
        m.ready = True
        m.frame = fr
        return m

    def mark(self):
        """scopes open at this point, so that an abandoned evaluation can be unwound"""
        return len(PR.CUR), len(self.loopvars), len(self.trys), len(self.pcs), len(self.stack)

    def unwind(self, m):
        del PR.CUR[m[0]:]
        del self.loopvars[m[1]:]
        del self.trys[m[2]:]
        del self.pcs[m[3]:]
        del self.stack[m[4]:]

    def func(self, modname, fname):
        m = self.module(modname)
        if m is None:
            return None
        return m.env.get(fname)

    # ------------------------------------------------------------ heap
    def new(self, content, owner=None):
        self.nobj += 1
        self.heap[self.nobj] = content
        if self.loopvars:
            self.born[self.nobj] = tuple(self.loopvars)
        if owner:
            self.owner[self.nobj] = owner
        return self.nobj

    def fvs(self):
        return tuple(self.loopvars)

    def new_arr(self, shape, snap, dtype='f8', owner=None):
        r = Arr(self.new(snap, owner), shape, dtype=dtype)
        self.full[r.oid] = r.shape
        return r

    def whole(self, a):
        """a is its memory: not a part nor a permutation of it"""
        f = self.full.get(a.oid, a.shape)
        return a.ident() and len(f) == a.ndim and all(x is y or self.lib.dim_eq(x, y) is True for x, y in zip(f, a.shape))

    def lam_arr(self, shape, fn, dtype='f8'):
        """array with elements fn(idx terms)"""
        vs = tuple(var('x') for _ in shape)
        c = cur().copy()
        for v, n in zip(vs, shape):
            c.bound(v, ZERO, sub(n, ONE))
        PR.CUR.append(c)
        try:
            body = fn(tuple(atom(v) for v in vs))
        finally:
            PR.CUR.pop()
        if isbool(body):
            dtype = 'bool'
        return self.new_arr(shape, Lam(vs, body, self.fvs()), dtype)

    def snap(self, a):
        return self.heap[a.oid]

    def elem(self, a, idx):
        return rd(self.heap[a.oid], a.at(idx))

    def scalar(self, a):
        """value of a 0-d (or 1-element) array as term"""
        if a.ndim == 0:
            return self.elem(a, ())
        if all(constval(n) == 1 for n in a.shape):
            return self.elem(a, (ZERO,) * a.ndim)
        return None

    def list_items(self, ref):
        it = self.heap[ref.oid]
        if any(isinstance(x, NestSeq) for x in it):
            it = tuple(self.flat_seg(x) if isinstance(x, NestSeq) else x for x in it)
        return it

    def flat_seg(self, x):
        """one index over the items of a loop nest"""
        if x.cond is not TRUE:
            raise Unsupported('list filtered in a loop')
        w = var('w')
        k = atom(w)
        last = {}
        for v, n in list(zip(x.vs, x.ns))[:0:-1]:
            q = fdiv(k, n)
            last[v] = sub(k, mul(n, q))
            k = q
        last[x.vs[0]] = k
        return SeqSeg(w, mul(*x.ns), self.close_value(x.val, last, {}))

    def nest_items(self, y, node):
        """what one iteration appended to a list: [(condition, item)]"""
        if len(y) >= 2 and isinstance(y[0], str) and y[0] == '?list':
            if isinstance(y[1], LC):
                pre = []
            elif isinstance(y[1], Choice):
                a, b = self.nest_items(y[1].a, node), self.nest_items(y[1].b, node)
                c = y[1].c
                if len(a) == len(b) and all(p[0] is TRUE and q[0] is TRUE and not isinstance(p[1], SeqSeg) and not isinstance(q[1], SeqSeg) for p, q in zip(a, b)):
                    pre = [(TRUE, self.merge(c, p[1], q[1])) for p, q in zip(a, b)]
                elif not b:
                    pre = [(land(c, d), p) for d, p in a]
                elif not a:
                    pre = [(land(lnot(c), d), p) for d, p in b]
                else:
                    raise Unsupported('list appended to differently on two paths of a loop', node)
            else:
                raise Unsupported('list changed in a loop', node)
            return pre + [(TRUE, p) for p in y[2:]]
        raise Unsupported('list changed in a loop', node)

    def nest_append(self, x, y, v, n, node):
        its = self.nest_items(y, node)
        if not its:
            return x
        if len(its) == 1:
            c, p = its[0]
            if not isinstance(p, SeqSeg):
                return x + ((SeqSeg(v, n, p) if c is TRUE else NestSeq((v,), (n,), c, p)),)
            vs, ns, d = (p.vs, p.ns, p.cond) if isinstance(p, NestSeq) else ((p.v,), (p.n,), TRUE)
            if any(v in fv(m) for m in ns):
                raise Unsupported('list filled by a triangular loop nest', node)
            return x + (NestSeq((v,) + vs, (n,) + ns, land(c, d), p.val),)
        if any(c is not TRUE or isinstance(p, SeqSeg) for c, p in its):
            raise Unsupported('list filled by several appends of a loop', node)
        u = var('u')
        val = its[-1][1]
        for k in reversed(range(len(its) - 1)):
            val = self.merge(eq(atom(u), num(k)), its[k][1], val)
        return x + (NestSeq((v, u), (n, num(len(its))), TRUE, val),)

    def mklist(self, items):
        return ListRef(self.new(tuple(items)))

    def mkdict(self, items):
        return DictRef(self.new(dict(items)))

    # ------------------------------------------------------------ events
    def pc(self):
        return land(*self.pcs)

    def event(self, kind, data, node=None):
        fn = self.stack[-1].fn.name if self.stack and self.stack[-1].fn else '<module>'
        ev = Event(kind, data, self.pc(), self.site(node), fn)
        ev.order = len(self.events)
        ev.inloop = tuple(self.loopvars)
        self.events.append(ev)
        return ev

    def site(self, node=None):
        node = node or (self.sites[-1] if self.sites else None)
        m = self.stack[-1].mod if self.stack else None
        return '%s:%s' % (os.path.relpath(m.path, self.root) if m else '?', getattr(node, 'lineno', '?'))

    def on_write(self, oid, node=None):
        if self.born:
            root = oid
            while root in self.copied:
                root = self.copied[root]
            b = self.born.get(root)
            if b and not set(b) <= set(self.loopvars) and self.in_segment(root):
                raise Unsupported('store into an item of a symbolic list', node)
        o = self.owner.get(oid)
        if o:
            self.event('mutate', o, node)

    def in_segment(self, oid):
        """is it one of the objects, one per iteration, of a list built by a loop?"""
        seen = set()

        def has(x, inside):
            if isinstance(x, SeqSeg):
                return has(x.val, True)
            if isinstance(x, tuple):
                return any(has(y, inside) for y in x)
            if isinstance(x, Choice):
                return has(x.a, inside) or has(x.b, inside)
            o = getattr(x, 'oid', None)
            if not inside or o is None:
                return False
            if o == oid:
                return True
            if isinstance(x, (ListRef, DictRef)) and o not in seen:
                seen.add(o)
                c = self.heap.get(o)
                return any(has(y, True) for y in (c.values() if isinstance(c, dict) else c if isinstance(c, tuple) else ()))
            return False
        return any(has(c, False) for c in list(self.heap.values()) if isinstance(c, tuple))

    # ------------------------------------------------------------ state
    def save(self, fr):
        return (dict(fr.env), dict(self.heap))

    def restore(self, fr, st):
        fr.env.clear()
        fr.env.update(st[0])
        self.heap.clear()
        self.heap.update(st[1])

    def merge_states(self, c, s1, s2):
        e1, h1 = s1
        e2, h2 = s2
        heap = dict(h1)
        for o, x in h2.items():
            if o not in h1:
                heap[o] = x
            elif h1[o] is not x:
                heap[o] = None  # placeholder
        self.heap.clear()
        self.heap.update({o: x for o, x in heap.items() if x is not None})
        diff = [o for o, x in heap.items() if x is None]
        for o in diff:
            self.heap[o] = self.merge_content(c, h1[o], h2[o])
        env = {}
        for k in list(e1) + [k for k in e2 if k not in e1]:
            a = e1.get(k, UNDEF)
            b = e2.get(k, UNDEF)
            env[k] = a if a is b else self.merge(c, a, b)
        return env

    def merge_content(self, c, a, b):
        if isinstance(a, Snap) and isinstance(b, Snap):
            return Sel(c, a, b, self.fvs())
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b) and not any(isinstance(x, SeqSeg) for x in a + b):
                return tuple(self.merge(c, x, y) for x, y in zip(a, b))
            return ('?list', Choice(c, a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k, UNDEF), b.get(k, UNDEF)
                out[k] = x if x is y else self.merge(c, x, y)
            return out
        raise Unsupported('merge of heap contents')

    def merge(self, c, a, b):
        """value that is a when c, b otherwise"""
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isterm(a) and isterm(b):
            if isbool(a) and isbool(b):
                return lor(land(c, a), land(lnot(c), b))
            return ite(c, tobool01(a), tobool01(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (str, SStr)) and a == b:
            return a
        if isinstance(a, (ListRef, DictRef)) and type(a) is type(b) and a.oid == b.oid:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.oid == b.oid and self.same_view(a, b):
                return a
            shape = self.common_shape(c, a, b)
            if shape is not None:
                ea = lambda idx: self.elem(a, idx)
                eb = lambda idx: self.elem(b, idx)
                r = self.lam_arr(shape, lambda idx: ite(c, ea(idx), eb(idx)), a.dtype if a.dtype == b.dtype else 'f8')
                ow = [o for o in (self.owner.get(a.oid), self.owner.get(b.oid)) if o]
                if ow:
                    self.owner[r.oid] = ' or '.join(ow)
                if self.layout.get(a.oid) and self.layout.get(a.oid) == self.layout.get(b.oid) and self.whole(a) and self.whole(b):
                    self.layout[r.oid] = self.layout[a.oid]
                if not self.fvs() and self.whole(a) and self.whole(b) and a.ndim:
                    H = self.heap
                    self.links.setdefault(r.oid, []).extend([(a.oid, lambda s: Sel(c, s, H[a.oid], ()), False), (b.oid, lambda s: Sel(c, H[b.oid], s, ()), False)])
                    self.links.setdefault(a.oid, []).append((r.oid, lambda s: Sel(c, s, H[r.oid], ()), True))
                    self.links.setdefault(b.oid, []).append((r.oid, lambda s: Sel(c, H[r.oid], s, ()), True))
                return r
        if isinstance(a, Arr) and a.ndim == 0 and isterm(b):
            return self.merge(c, self.scalar(a), b)
        if isinstance(b, Arr) and b.ndim == 0 and isterm(a):
            return self.merge(c, a, self.scalar(b))
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(self.merge(c, a.start, b.start), self.merge(c, a.stop, b.stop), self.merge(c, a.step, b.step))
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node:
            return b
        if isinstance(a, ObjV) and isinstance(b, ObjV) and a.kind == b.kind and a.oid == b.oid and a.attrs == b.attrs:
            return a
        if isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name and a.self_ is b.self_:
            return a
        if isinstance(a, (ExtMod, UserMod)) and isinstance(b, (ExtMod, UserMod)) and a.name == b.name:
            return a
        if isinstance(a, Choice) and a.c is c:
            a = a.a
        if isinstance(b, Choice) and b.c is c:
            b = b.b
        return Choice(c, a, b)

    def common_shape(self, c, a, b):
        """shape valid for a when c holds and for b otherwise"""
        if a.ndim != b.ndim:
            return None
        out = []
        for x, y in zip(a.shape, b.shape):
            if x is y or decide(eq(x, y)):
                out.append(x)
                continue
            for cond, keep in ((c, y), (lnot(c), x)):
                PR.CUR.append(cur().copy())
                try:
                    cur().assume(cond)
                    d = decide(eq(x, y))
                finally:
                    PR.CUR.pop()
                if d is True:
                    out.append(keep)
                    break
            else:
                return None
        return tuple(out)

    def same_view(self, a, b):
        if len(a.shape) != len(b.shape) or any(x is not y for x, y in zip(a.shape, b.shape)):
            return False
        m = {v: atom(w) for v, w in zip(a.vars, b.vars)}
        return all(subst(x, m) is y for x, y in zip(a.maps, b.maps))

    def distribute(self, vals, fn):
        """apply fn to values, splitting on Choice alternatives"""
        for k, v in enumerate(vals):
            if isinstance(v, Choice):
                d = self.decide(v.c)
                if v.a is UNDEF:
                    d = False
                elif v.b is UNDEF:
                    d = True
                if d is not None:
                    nv = list(vals)
                    nv[k] = v.a if d else v.b
                    return self.distribute(nv, fn)
                av, bv = list(vals), list(vals)
                av[k], bv[k] = v.a, v.b
                return self.fork_expr(v.c, lambda: self.distribute(av, fn), lambda: self.distribute(bv, fn))
        return fn(*vals)

    def fork_expr(self, c, f, g):
        """evaluate f under c and g under not c, merging state and value"""
        fr = self.stack[-1]
        base = len(self.pcs)
        s0 = self.save(fr)
        r1 = r2 = None
        d1 = d2 = False
        PR.CUR.append(cur().copy())
        cur().assume(c)
        self.pcs.append(c)
        try:
            r1 = f()
        except DeadPath:
            d1 = True
        ex1 = self.pcs[base:]
        del self.pcs[base:]
        PR.CUR.pop()
        s1 = self.save(fr)
        self.restore(fr, s0)
        PR.CUR.append(cur().copy())
        cur().assume(lnot(c))
        self.pcs.append(lnot(c))
        try:
            r2 = g()
        except DeadPath:
            d2 = True
        ex2 = self.pcs[base:]
        del self.pcs[base:]
        PR.CUR.pop()
        s2 = self.save(fr)
        if d1 and d2:
            raise DeadPath()
        if d1:
            cur().assume(lnot(c))
            self.pcs.append(land(*ex2))
            return r2
        if d2:
            self.restore(fr, s1)
            cur().assume(c)
            self.pcs.append(land(*ex1))
            return r1
        env = self.merge_states(c, s1, s2)
        fr.env.clear()
        fr.env.update(env)
        extra = lor(land(*ex1), land(*ex2))
        if extra is not TRUE:
            self.pcs.append(extra)
        return self.merge(c, r1, r2)

    # ------------------------------------------------------------ decisions
    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        d = decide(c)
        if d is not None:
            return d
        sts = list(subterms(c))
        if any(st.kind in ('rd', 'brd') for st in sts) and not any(st.kind == 'app' and st.args[0] == 'sum' for st in sts):
            try:
                r = Resolver(cur(), 5000)
                c2 = r.run(c)
                if c2.kind == 'B':
                    return c2.args[0]
                d = decide(c2)
                if d is not None:
                    return d
                c = c2
            except (Unresolvable, RecursionError):
                pass
        if self.oracle is not None:
            return self.oracle(c)
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            if fr.dead:
                return
            depth = len(PR.CUR)
            try:
                self.exec_stmt(st, fr)
            except DeadPath:
                del PR.CUR[depth:]
                fr.dead = True
                return

    def exec_stmt(self, st, fr):
        self.sites.append(st)
        try:
            m = getattr(self, 'st_' + type(st).__name__, None)
            if m is None:
                raise Unsupported('statement ' + type(st).__name__, st)
            m(st, fr)
        finally:
            self.sites.pop()

    def st_Expr(self, st, fr):
        self.eval(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def st_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def st_Import(self, st, fr):
        for al in st.names:
            name = al.name
            m = self.import_(name)
            if al.asname:
                self.bind(fr, al.asname, m)
            else:
                top = name.split('.')[0]
                self.bind(fr, top, self.import_(top))

    def import_(self, name):
        if name.split('.')[0] == 'simplegrid':
            return self.module(name) or Unk('import ' + name)
        return ExtMod(name)

    def st_ImportFrom(self, st, fr):
        if st.level:
            pkg = fr.mod.name.split('.')
            if not fr.mod.path.endswith('__init__.py'):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (st.level - 1)]
            base = '.'.join(pkg)
            if st.module:
                base = base + '.' + st.module
        else:
            base = st.module
        for al in st.names:
            nm = al.asname or al.name
            if base.split('.')[0] == 'simplegrid':
                sub_ = self.module(base + '.' + al.name)
                if sub_ is not None:
                    self.bind(fr, nm, sub_)
                    continue
                m = self.module(base)
                if al.name == '*':
                    for k, v in m.env.items():
                        if not k.startswith('_'):
                            self.bind(fr, k, v)
                    continue
                self.bind(fr, nm, m.env.get(al.name, Unk('import ' + al.name)) if m else Unk('import'))
            else:
                self.bind(fr, nm, self.lib.getattr_ext(self, ExtMod(base), al.name))

    def st_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr, st.name)
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            r = self.decorate(dv, f, st)
            f = r
        self.bind(fr, st.name, f)

    def decorate(self, dv, f, st):
        if isinstance(dv, ObjV) and dv.kind in ('errstate', 'catch_warnings'):
            return f
        if isinstance(dv, Builtin) and dv.name in ('functools.lru_cache', 'functools.cache') or isinstance(dv, Partial) and dv.kw.get('memo'):
            return ObjV('memofn', {'fn': f, 'cell': self.new({})})
        if isinstance(dv, Builtin) and dv.name in ('property', 'functools.cached_property'):
            return ObjV('property', {'fn': f, 'set': None})
        if isinstance(dv, Builtin) and dv.name == 'property.setter':
            return ObjV('property', {'fn': dv.self.attrs['fn'], 'set': f})
        if isinstance(dv, Builtin) and dv.name in ('staticmethod', 'classmethod'):
            return ObjV('static' if dv.name == 'staticmethod' else 'classm', {'fn': f})
        if isinstance(dv, Builtin) and dv.name in ('functools.lru_cache', 'contextlib.contextmanager', 'functools.wraps'):
            if dv.name == 'contextlib.contextmanager':
                return ObjV('ctxmgrfn', {'fn': f})
            return f
        if isinstance(dv, Partial):
            return f
        if isinstance(dv, Func):
            return self.call(dv, [f], {}, st)
        raise Unsupported('decorator', st)

    def mkfunc(self, st, fr, name):
        a = st.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [None if d is None else self.eval(d, fr) for d in a.kw_defaults]
        return Func(st, fr.mod, fr if fr.fn is not None else None, name, defaults, kwd)

    def st_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.eval(b, fr)
            if isinstance(v, ExcT):
                bases.append(v)
        if bases:
            bs = []
            for b in bases:
                bs += [b.name] + list(EXC_BASES.get(b.name, ())) + list(b.bases)
            self.bind(fr, st.name, ExcT(st.name, tuple(bs)))
            return
        cls = {}
        parents = []
        isnt = False
        for b in st.bases:
            v = self.eval(b, fr)
            if isinstance(v, ObjV) and v.kind == 'class':
                parents.append(v)
            elif isinstance(v, Builtin) and v.name.endswith('NamedTuple'):
                isnt = True
            elif not (isinstance(v, Builtin) and v.name in ('object', 'abc.ABC')):
                raise Unsupported('base class', st)
        for v in reversed(parents):
            cls.update(v.attrs['dict'])
        sub_ = Frame(fr.mod, fr.fn, fr.closure if fr.fn is None else fr)
        self.stack.append(sub_)
        try:
            self.exec_block(st.body, sub_)
        finally:
            self.stack.pop()
        fields = [s.target.id for s in st.body if isinstance(s, ast.AnnAssign) and 'ClassVar' not in ast.dump(s.annotation)]
        c = ObjV('class', {'name': st.name, 'dict': cls, 'namedtuple': fields if isnt else None, 'bases': tuple(parents), 'dataclass': None})
        for k, v in sub_.env.items():
            f = v.attrs['fn'] if isinstance(v, ObjV) and v.kind in ('property', 'classm', 'static') else v
            if isinstance(f, Func) and f.node in st.body:
                f.name = st.name + '.' + f.name
                f.owner = c
            cls[k] = v
        for d in st.decorator_list:
            nm = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if nm in ('dataclass', 'dataclasses.dataclass'):
                old = [x for b in parents for x in (b.attrs['dataclass'] or ())]
                c.attrs['dataclass'] = tuple(x for x in old if x not in fields) + tuple(fields)
            elif nm not in ('total_ordering', 'functools.total_ordering', 'final', 'typing.final'):
                raise Unsupported('class decorator', st)
        self.bind(fr, st.name, c)

    def st_Return(self, st, fr):
        v = self.eval(st.value, fr) if st.value is not None else None
        self.leave(fr, 0)
        fr.rets.append((land(*self.pcs[fr.pcbase:]), v, dict(self.heap), len(self.loopvars)))
        if self.loopvars and len(self.loopvars) > getattr(fr, 'loopdepth', 0):
            raise Unsupported('return inside a summarised loop', st)
        fr.dead = True

    def leave(self, fr, k):
        """run what `with` and `finally` owe on a jump out of them, down to nesting depth k"""
        if len(fr.cleanups) <= k:
            return
        saved, depth = list(fr.cleanups), getattr(self, 'catchdepth', 0)
        try:
            while len(fr.cleanups) > k:
                fr.cleanups.pop()[0]()
        finally:
            fr.cleanups[:] = saved
            self.catchdepth = depth
        for c in saved[k:]:
            c[1] = True

    def leave_raising(self, t):
        """what `with` and `finally` owe on the way to the handlers of t"""
        depth = getattr(self, 'catchdepth', 0)
        kept, trys = [], list(self.trys)
        stack = list(self.stack)
        k = len(stack)
        try:
            while k:
                k -= 1
                fr = stack[k]
                n = t['depth'] if fr is t['frame'] else 0
                if len(fr.cleanups) > n:
                    kept.append((fr, list(fr.cleanups)))
                    # a handler inside must not see what the clean-up raises
                    self.trys[:] = trys[:trys.index(t)]
                    while len(fr.cleanups) > n:
                        c = fr.cleanups.pop()
                        if c[2] is not None:
                            dead, fr.dead = fr.dead, False
                            c[2]()
                            fr.dead = dead
                if fr is t['frame']:
                    break
        finally:
            for fr, c in kept:
                fr.cleanups[:] = c
            self.trys[:] = trys
            self.catchdepth = depth

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                if isinstance(o, DictRef):
                    self.on_write(o.oid, st)
                    c = self.dict_items(o)
                    k2 = self.hkey(k)
                    self.heap[o.oid] = {a: b for a, b in c.items() if a != k2}
                else:
                    raise Unsupported('del', st)

    def st_Assert(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        d = self.decide(c)
        if d is True:
            return
        if d is False:
            self.do_raise('AssertionError', (), st)
        self.fork_expr(c, lambda: None, lambda: self.do_raise('AssertionError', (), st))

    def st_Raise(self, st, fr):
        if st.exc is None:
            e = getattr(fr, 'cur_exc', None)
            if e is None:
                self.do_raise('RuntimeError', (), st)
            self.do_raise(e.name, e.args, st, e)
        v = self.eval(st.exc, fr)
        if isinstance(v, ExcT):
            v = Exc(v.name)
            v.t = None
        if isinstance(v, Exc):
            self.do_raise(v.name, v.args, st, v)
        self.do_raise('Exception', (), st)

    def exc_matches(self, name, bases, hname):
        return hname == name or hname in EXC_BASES.get(name, ()) or hname in bases or hname in ('BaseException', '*')

    def do_raise(self, name, args, node, exc=None, implicit=False):
        bases = getattr(exc, 'bases', ()) if exc else ()
        if not bases and exc is not None:
            bases = getattr(exc, 'xb', ())
        for t in reversed(self.trys):
            if t.get('closed'):
                continue
            for k, (hn, _) in enumerate(t['handlers']):
                if any(self.exc_matches(name, bases, h) for h in hn):
                    self.leave_raising(t)
                    t['caught'].append((k, land(*self.pcs[t['pcbase']:]), dict(self.heap), dict(t['frame'].env), name, args, bases))
                    raise DeadPath()
        self.event('raise', (name, args, implicit, tuple(bases)), node)
        raise DeadPath()

    def st_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(fr, t.id)
            rhs = self.eval(st.value, fr)
            if isinstance(old, Arr) and not isinstance(old, Choice) and old.ndim > 0:
                r = self.lib.binop(self, type(st.op).__name__, old, rhs, st)
                self.lib.setitem(self, old, ELLIPSIS, r, st)
                return
            if isinstance(old, ListRef):
                if isinstance(st.op, ast.Add):
                    self.on_write(old.oid, st)
                    self.heap[old.oid] = self.list_items(old) + tuple(self.lib.seq_items(self, rhs))
                    return
            self.bind(fr, t.id, self.lib.binop(self, type(st.op).__name__, old, rhs, st))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            old = self.lib.getitem(self, o, k, st)
            rhs = self.eval(st.value, fr)
            if isinstance(old, ListRef) and isinstance(st.op, ast.Add):
                self.on_write(old.oid, st)
                self.heap[old.oid] = self.list_items(old) + tuple(self.lib.seq_items(self, rhs))
                return
            r = self.lib.binop(self, type(st.op).__name__, old, rhs, st)
            if isinstance(old, Arr) and isinstance(o, DictRef) and old.ndim > 0:
                self.lib.setitem(self, old, ELLIPSIS, r, st)
            else:
                self.lib.setitem(self, o, k, r, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.lib.getattr_(self, o, t.attr, st)
            r = self.lib.binop(self, type(st.op).__name__, old, self.eval(st.value, fr), st)
            self.lib.setattr_(self, o, t.attr, r, st)
        else:
            raise Unsupported('augassign', st)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Choice):
                parts = self.distribute([v], lambda x: tuple(self.lib.unpack(self, x, len(t.elts), t)))
                if not isinstance(parts, tuple):
                    raise Unsupported('unpack of choice', t)
                vals = parts
            else:
                star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if star:
                    k = star[0]
                    items = list(self.lib.seq_items(self, v))
                    after = len(t.elts) - k - 1
                    vals = items[:k] + [self.mklist(items[k:len(items) - after])] + items[len(items) - after:]
                    for e, x in zip(t.elts, vals):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                    return
                vals = self.lib.unpack(self, v, len(t.elts), t)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            self.lib.setitem(self, o, k, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.lib.setattr_(self, o, t.attr, v, t)
        else:
            raise Unsupported('assign target', t)

    def bind(self, fr, name, v):
        if name in fr.globals_:
            g = fr.mod.env
            if g.get(name) is not v:
                self.event('global_state', '%s.%s' % (fr.mod.name, name))
            g[name] = v
            return
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if name in f.env:
                    f.env[name] = v
                    return
                f = f.closure
        fr.env[name] = v

    def lookup(self, fr, name, node=None):
        if name in fr.globals_:
            v = fr.mod.env.get(name, UNDEF)
        elif name in fr.env:
            v = fr.env[name]
        else:
            v = UNDEF
            f = fr.closure
            while f is not None and v is UNDEF:
                if name in f.env:
                    v = f.env[name]
                f = f.closure
            if v is UNDEF:
                if name in fr.mod.env:
                    v = fr.mod.env[name]
                else:
                    v = self.lib.builtin_name(name)
                    if v is None:
                        self.do_raise('NameError', (name,), node, implicit=True)
        if isinstance(v, Choice):
            if v.a is UNDEF:
                return v.b
            if v.b is UNDEF:
                return v.a
            d = self.decide(v.c)
            if d is not None:
                return v.a if d else v.b
        if isinstance(v, LC):
            raise Carried(v.name)
        if v is UNDEF:
            self.do_raise('NameError', (name,), node, implicit=True)
        return v

    def st_Match(self, st, fr):
        l = _match_memo.get(st)
        if l is None:
            l = _match_memo[st] = match_as_if(st)
        self.exec_block(l, fr)

    def st_If(self, st, fr):
        cv = self.eval(st.test, fr)
        c = self.truth(cv)
        d = self.decide(c)
        if d is True:
            return self.exec_block(st.body, fr)
        if d is False:
            return self.exec_block(st.orelse, fr)
        self.fork_stmt(c, lambda: self.exec_block(st.body, fr), lambda: self.exec_block(st.orelse, fr), fr)

    def fork_stmt(self, c, f, g, fr):
        base = len(self.pcs)
        s0 = self.save(fr)
        PR.CUR.append(cur().copy())
        cur().assume(c)
        self.pcs.append(c)
        try:
            f()
        except DeadPath:
            fr.dead = True
        dead1 = fr.dead
        ex1 = self.pcs[base:]
        del self.pcs[base:]
        PR.CUR.pop()
        s1 = self.save(fr)
        fr.dead = False
        self.restore(fr, s0)
        PR.CUR.append(cur().copy())
        cur().assume(lnot(c))
        self.pcs.append(lnot(c))
        try:
            g()
        except DeadPath:
            fr.dead = True
        dead2 = fr.dead
        ex2 = self.pcs[base:]
        del self.pcs[base:]
        PR.CUR.pop()
        s2 = self.save(fr)
        if dead1 and dead2:
            fr.dead = True
            return
        fr.dead = False
        if dead1:
            cur().assume(lnot(c))
            for x in ex2:
                cur().assume(x)
            self.pcs.append(land(*ex2))
            return
        if dead2:
            self.restore(fr, s1)
            for x in ex1:
                cur().assume(x)
            self.pcs.append(land(*ex1))
            return
        env = self.merge_states(c, s1, s2)
        fr.env.clear()
        fr.env.update(env)
        extra = lor(land(*ex1), land(*ex2))
        if extra is not TRUE:
            self.pcs.append(extra)

    def st_With(self, st, fr):
        self.with_items(list(st.items), st, fr)

    def with_items(self, items, st, fr):
        if not items:
            return self.exec_block(st.body, fr)
        item = items[0]
        v = self.eval(item.context_expr, fr)
        if isinstance(v, ObjV) and v.kind == 'genctx':
            return self.with_generator(v, items, st, fr)
        if isinstance(v, ObjV) and v.kind == 'suppress':
            key = (st, len(items))
            t = _suppress_memo.get(key)
            if t is None:
                body = st.body if len(items) == 1 else [ast.copy_location(ast.With(items[1:], st.body), st)]
                h = ast.ExceptHandler(ast.copy_location(ast.Name('<suppressed>', ast.Load()), st), None, [ast.copy_location(ast.Pass(), st)])
                t = _suppress_memo[key] = ast.copy_location(ast.Try(body, [ast.copy_location(h, st)], [], []), st)
            fr.env['<suppressed>'] = v.attrs['types']
            return self.st_Try(t, fr)
        x = self.lib.enter(self, v, item.context_expr)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, x, fr)
        rec = [lambda: self.lib.exit_(self, v, st), False, lambda: self.lib.exit_(self, v, st)]
        fr.cleanups.append(rec)
        try:
            self.with_items(items[1:], st, fr)
        finally:
            fr.cleanups.remove(rec)
        if not fr.dead or not rec[1] or isinstance(v, ObjV) and v.kind == 'catch_warnings':
            self.lib.exit_(self, v, st)

    def with_generator(self, v, items, st, fr):
        """`with` over a generator function turned context manager: the body runs where the generator yields"""
        f = v.attrs['fn']
        g = Frame(f.mod, f, f.closure)
        g.env = self.bind_args(f, list(v.attrs['args']), dict(v.attrs['kw']), st)
        g.pcbase = len(self.pcs)
        g.loopdepth = len(self.loopvars)
        item = items[0]

        def is_yield(x):
            return isinstance(x, (ast.Expr, ast.Assign)) and isinstance(x.value, ast.Yield)

        def run(block):
            if block:
                self.stack.append(g)
                try:
                    self.exec_block(block, g)
                finally:
                    self.stack.pop()
                if g.dead or g.rets:
                    raise Unsupported('context manager that leaves early', st)

        def here(block):
            for i, x in enumerate(block):
                if is_yield(x):
                    run(block[:i])
                    val = None
                    if x.value.value is not None:
                        self.stack.append(g)
                        try:
                            val = self.eval(x.value.value, g)
                        finally:
                            self.stack.pop()
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, val, fr)
                    after(block[i + 1:], [], lambda: self.with_items(items[1:], st, fr))
                    return True
                if isinstance(x, ast.Try) and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)):
                    if x.handlers or x.orelse:
                        raise Unsupported('context manager with handlers', st)
                    run(block[:i])
                    after(block[i + 1:], x.finalbody, lambda: here(x.body) or _no())
                    return True
                if isinstance(x, ast.With) and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)):
                    run(block[:i])
                    its = list(x.items)

                    def inner(its):
                        if not its:
                            return here(x.body) or _no()
                        self.stack.append(g)
                        try:
                            m = self.eval(its[0].context_expr, g)
                            if isinstance(m, ObjV) and m.kind == 'genctx':
                                raise Unsupported('nested generator context managers', st)
                            y = self.lib.enter(self, m, its[0].context_expr)
                            if its[0].optional_vars is not None:
                                self.assign(its[0].optional_vars, y, g)
                        finally:
                            self.stack.pop()
                        cleanup(lambda: self.lib.exit_(self, m, st), lambda: inner(its[1:]), True)
                    after(block[i + 1:], [], lambda: inner(its))
                    return True
            return False

        def cleanup(post, body, always, failed=None):
            rec = [post, False, failed or (post if always else None)]
            fr.cleanups.append(rec)
            try:
                body()
            finally:
                fr.cleanups.remove(rec)
            if not fr.dead or always and not rec[1]:
                post()

        def after(rest, final, body):
            # a body left by an exception runs the final block only; a body left by return runs both
            def post():
                run(final)
                if not fr.dead:
                    run(rest)
            cleanup(post, body, bool(final), (lambda: run(final)) if final else None)

        def _no():
            raise Unsupported('context manager without a plain yield', st)
        if not here(f.node.body):
            _no()

    def st_Try(self, st, fr):
        handlers = []
        for h in st.handlers:
            if h.type is None:
                hn = ('*',)
            else:
                tv = self.eval(h.type, fr)
                tv = tv if isinstance(tv, tuple) else (tv,)
                hn = tuple(x.name if isinstance(x, ExcT) else getattr(x, 'name', '?') for x in tv)
            handlers.append((hn, h))
        t = {'handlers': handlers, 'caught': [], 'pcbase': len(self.pcs), 'frame': fr, 'loop': len(self.loopvars), 'depth': 0}
        base = len(self.pcs)
        self.trys.append(t)
        PR.CUR.append(cur().copy())
        rec = [lambda: self.exec_block(st.finalbody, fr), False, lambda: self.exec_block(st.finalbody, fr)]
        if st.finalbody:
            fr.cleanups.append(rec)
        t['depth'] = len(fr.cleanups)
        try:
            self.exec_block(st.body, fr)
        finally:
            ctx_after = PR.CUR.pop()
            self.trys.pop()
        if not fr.dead and st.orelse:
            PR.CUR.append(ctx_after)
            self.exec_block(st.orelse, fr)
            PR.CUR.pop()
        ex = self.pcs[base:]
        del self.pcs[base:]
        live = [] if fr.dead else [(land(*ex), self.save(fr))]
        fr.dead = False
        for k, pcr, heap, env, name, args, bases in t['caught']:
            self.heap.clear()
            self.heap.update(heap)
            fr.env.clear()
            fr.env.update(env)
            h = handlers[k][1]
            ex_ = Exc(name, args)
            ex_.bases = bases
            if h.name:
                fr.env[h.name] = ex_
            old = getattr(fr, 'cur_exc', None)
            fr.cur_exc = ex_
            PR.CUR.append(cur().copy())
            cur().assume(pcr)
            if pcr is not TRUE:
                self.pcs.append(pcr)
            try:
                self.exec_block(h.body, fr)
            except DeadPath:
                fr.dead = True
            fr.cur_exc = old
            ex = self.pcs[base:]
            del self.pcs[base:]
            PR.CUR.pop()
            if not fr.dead:
                live.append((land(*ex) if ex else pcr, self.save(fr)))
            fr.dead = False
        if st.finalbody:
            fr.cleanups.remove(rec)
        if not live:
            if st.finalbody and not rec[1]:
                self.exec_block(st.finalbody, fr)
            fr.dead = True
            return
        # merge: the first entry is the normal completion
        c0, s = live[-1]
        tot = c0
        for c, s1 in reversed(live[:-1]):
            env = self.merge_states(c, s1, s)
            s = (env, dict(self.heap))
            tot = lor(c, tot)
        self.restore(fr, s)
        if tot is not TRUE:
            self.pcs.append(tot)
            cur().assume(tot)
        if st.finalbody:
            self.exec_block(st.finalbody, fr)

    st_TryStar = st_Try

    # ------------------------------------------------------------ loops
    def st_Break(self, st, fr):
        if not fr.loopctl:
            raise Unsupported('break', st)
        L = fr.loopctl[-1]
        if L['sym']:
            raise Unsupported('break in a summarised loop', st)
        self.leave(fr, L['depth'])
        L['breaks'].append((land(*self.pcs[L['pcbase']:]), self.save(fr)))
        fr.dead = True

    def st_Continue(self, st, fr):
        L = fr.loopctl[-1]
        self.leave(fr, L['depth'])
        L['conts'].append((land(*self.pcs[L['pcbase']:]), self.save(fr)))
        fr.dead = True

    def run_body(self, body, fr, sym_, breaks=None):
        """one execution of a loop body, merging `continue` exits; returns False when all paths left"""
        L = {'sym': sym_, 'breaks': breaks if breaks is not None else [], 'conts': [], 'pcbase': len(self.pcs), 'depth': len(fr.cleanups)}
        fr.loopctl.append(L)
        base = len(self.pcs)
        try:
            body()
        except DeadPath:
            fr.dead = True
        finally:
            fr.loopctl.pop()
        ex = self.pcs[base:]
        del self.pcs[base:]
        live = [] if fr.dead else [(land(*ex), self.save(fr))]
        live += L['conts']
        fr.dead = False
        if not live:
            fr.dead = True
            return False
        c0, s = live[0]
        tot = c0
        for c, s1 in live[1:]:
            env = self.merge_states(c, s1, s)
            s = (env, dict(self.heap))
            tot = lor(c, tot)
        self.restore(fr, s)
        if tot is not TRUE:
            self.pcs.append(tot)
            cur().assume(tot)
        return True

    def st_For(self, st, fr):
        itv = self.eval(st.iter, fr)
        self.distribute_iter(itv, st, fr)

    def distribute_iter(self, itv, st, fr):
        if isinstance(itv, Choice):
            d = self.decide(itv.c)
            if d is not None:
                return self.distribute_iter(itv.a if d else itv.b, st, fr)
            return self.fork_stmt(itv.c, lambda: self.distribute_iter(itv.a, st, fr), lambda: self.distribute_iter(itv.b, st, fr), fr)
        body = lambda: self.exec_block(st.body, fr)
        if self.lib.is_stream(itv) or isinstance(itv, IterV) and any(self.lib.is_stream(p) for p in itv.parts):
            # the body may take further items itself
            cnt = None
            if isinstance(itv, IterV):
                if itv.kind != 'enumerate':
                    raise Unsupported('iteration over %s of an iterator' % itv.kind, st)
                cnt = itv.extra if itv.extra is not None else ZERO
                itv = itv.parts[0]

            def stream():
                k = 0
                while True:
                    x = self.lib.stream_take(self, itv, st, 1)
                    if not x:
                        return
                    v = x[0] if cnt is None else (add(cnt, num(k)), x[0])
                    k += 1
                    yield lambda: self.assign(st.target, v, fr)
            return self.run_unrolled(stream(), body, fr, st.orelse)
        it = self.lib.iterate(self, itv, st)
        if it[0] == 'items':
            self.run_unrolled([lambda v=v: self.assign(st.target, v, fr) for v in it[1]], body, fr, st.orelse)
        elif it[0] == 'symif':
            _, dims, valf, condf = it
            here = [None]

            def bind(vs):
                here[0] = condf(vs)
                self.assign(st.target, valf(vs), fr)

            def loop(stmts):
                names = _assigned_block(stmts) | _assigned(st.target)
                self.sym_loops(dims, bind, lambda: self.fork_stmt(here[0], lambda: self.exec_block(stmts, fr), lambda: None, fr), names, fr, st)
            self.early(st, fr, loop)
        else:
            _, dims, valf = it

            def loop(stmts):
                names = _assigned_block(stmts) | _assigned(st.target)
                self.sym_loops(dims, lambda vs: self.assign(st.target, valf(vs), fr), lambda: self.exec_block(stmts, fr), names, fr, st)
            self.early(st, fr, loop)

    def early(self, st, fr, loop):
        """run a loop to be summarised; `break` and `return` inside become flags when they cannot be followed directly"""
        from . import early as EL
        if not any(EL.exits(s) for s in st.body):
            loop(st.body)
            if st.orelse and not fr.dead:
                self.exec_block(st.orelse, fr)
            return
        s0 = self.save(fr)
        mark = self.mark()
        keep = (list(self.pcs), len(self.events), len(self.loops), len(self.calls), len(fr.loopctl), len(fr.rets), cur().copy(), list(fr.cleanups))
        try:
            loop(st.body)
            if st.orelse and not fr.dead:
                self.exec_block(st.orelse, fr)
            return
        except Unsupported as e:
            if e.why not in ('break in a summarised loop', 'return inside a summarised loop'):
                raise
            why = e
        self.unwind(mark)
        self.restore(fr, s0)
        self.pcs[:] = keep[0]
        del self.events[keep[1]:]
        del self.loops[keep[2]:]
        del self.calls[keep[3]:]
        del fr.loopctl[keep[4]:]
        fr.cleanups[:] = keep[7]
        del fr.rets[keep[5]:]
        fr.dead = False
        if not getattr(cur(), 'is_base', False):
            PR.CUR[-1] = keep[6]
        c = self.__dict__.setdefault('early_memo', {})
        try:
            if id(st) not in c:
                c[id(st)] = (st, EL.rewrite(st, fr.fn.node if fr.fn else None))
            pre, body, post = c[id(st)][1]
        except ValueError as e:
            raise Unsupported(str(e), st)
        self.exec_block(pre, fr)
        loop(body)
        if not fr.dead:
            self.exec_block(post, fr)

    def run_unrolled(self, binders, body, fr, orelse=()):
        breaks = []
        for b in binders:
            b()
            if not self.run_body(body, fr, False, breaks):
                break
            if fr.dead:
                break
        if not fr.dead and orelse:
            self.exec_block(orelse, fr)
        if breaks:
            live = [] if fr.dead else [(land(), self.save(fr))]
            live += breaks
            fr.dead = False
            s = live[0][1] if live[0][0] is TRUE and not breaks is live else live[0][1]
            for c, s1 in live[1:]:
                env = self.merge_states(c, s1, s)
                s = (env, dict(self.heap))
            self.restore(fr, s)

    def sym_loops(self, dims, bind, body, names, fr, node, pre=()):
        """nest of loops over dims (list of counts); bind receives tuple of index terms"""
        if not dims:
            bind(pre)
            self.run_body(body, fr, True)
            return
        n = dims[0]
        inner = lambda x: self.sym_loops(dims[1:], bind, body, names, fr, node, pre + (x,))
        self.sym_loop(n, inner, names, fr, node)

    def sym_loop(self, n, run, names, fr, node):
        cn = const_int(n)
        if cn is not None and cn <= UNROLL:
            for k in range(cn):
                if fr.dead:
                    break
                run(num(k))
            return
        if nonneg(neg(n)):
            return
        self._sym_loop(n, run, names, fr, node)

    def _sym_loop(self, n, run, names, fr, node, start=0):
        s0 = self.save(fr)
        pcs0 = list(self.pcs)
        nev = len(self.events)
        nlo = len(self.loops)
        ncalls = len(self.calls)
        induct = {}
        lcs = set()
        lists = {}
        mark = self.mark()
        ctl0 = len(fr.loopctl)
        owed0 = list(fr.cleanups)
        for attempt in range(5):
            self.unwind(mark)
            self.restore(fr, s0)
            self.pcs[:] = pcs0
            del self.events[nev:]
            del self.loops[nlo:]
            del self.calls[ncalls:]
            try:
                r = self._loop_pass(n, run, names, fr, node, s0, induct, lcs, lists)
            except Carried as e:
                t = s0[0].get(e.name, UNDEF) if isinstance(e.name, str) else UNDEF
                if isinstance(t, LC) and e.value is not None:
                    raise
                form = option_form([t] + ([e.value] if e.value is not None else []), e.name)
                if form is not None and t is not UNDEF and e.name not in fr.globals_:
                    # a tuple of numbers (or None), carried element by element
                    self.unwind(mark)
                    del fr.loopctl[ctl0:]
                    fr.cleanups[:] = owed0
                    self.restore(fr, s0)
                    self.pcs[:] = pcs0
                    del self.events[nev:]
                    del self.loops[nlo:]
                    del self.calls[ncalls:]
                    self._split_tuple(e.name, form, t, n, run, names, fr, node, start)
                    return
                if start >= 2:
                    raise Unsupported('loop-carried value %s' % (e.name,), node)
                # peel the first iteration
                self.unwind(mark)
                del fr.loopctl[ctl0:]
                fr.cleanups[:] = owed0
                self.restore(fr, s0)
                self.pcs[:] = pcs0
                del self.events[nev:]
                self._peel(n, run, names, fr, node, start)
                return
            except Unsupported as e:
                # a value that only the first iteration sets (allocation on the first pass)
                if start or self.peeling > 2 or attempt:
                    raise
                self.unwind(mark)
                del fr.loopctl[ctl0:]
                fr.cleanups[:] = owed0
                self.restore(fr, s0)
                self.pcs[:] = pcs0
                del self.events[nev:]
                del self.loops[nlo:]
                del self.calls[ncalls:]
                ctx0 = cur().copy()
                notes0 = len(self.notes)
                self.peeling += 1
                try:
                    self._peel(n, run, names, fr, node, 1)
                except Unsupported:
                    self.unwind(mark)
                    PR.CUR[-1] = ctx0 if not getattr(ctx0, 'is_base', False) else PR.CUR[-1]
                    raise e
                finally:
                    self.peeling -= 1
                return
            if r:
                return
        raise Unsupported('loop summary did not stabilise', node)

    def _split_tuple(self, k, form, t, n, run, names, fr, node, start):
        m = 1 if form == 'n' else form
        opt = maybe_none(t)
        parts = ['%s[%d]' % (k, i) for i in range(m)] + ['%s[?]' % k] * opt

        def flat(y, old):
            if y is None and opt:
                return old[:-1] + (FALSE,)
            if isinstance(y, Choice):
                a, b = flat(y.a, old), flat(y.b, old)
                return tuple(lor(y.c, q) if p is TRUE else self.merge(y.c, p, q) for p, q in zip(a, b))
            if form == 'n' and isterm(y):
                return (y,) + (TRUE,) * opt
            if isinstance(y, tuple) and len(y) == m and form != 'n' and all(isterm(z) for z in y):
                return tuple(y) + (TRUE,) * opt
            raise Unsupported('loop-carried value %s' % k, node)

        def whole():
            v = [fr.env[p] for p in parts]
            x = v[0] if form == 'n' else tuple(v[:m])
            return self.merge(v[-1], x, None) if opt else x

        def run2(x):
            old = tuple(fr.env[p] for p in parts)
            fr.env[k] = whole()
            run(x)
            if fr.dead:
                return
            fr.env.update(zip(parts, flat(fr.env[k], old)))
            fr.env[k] = t
        fr.env.update(zip(parts, flat(t, (ZERO,) * m + (FALSE,) * opt)))
        self._sym_loop(n, run2, (set(names) - {k}) | set(parts), fr, node, start)
        if not fr.dead:
            fr.env[k] = whole()
            for p in parts:
                del fr.env[p]

    def _peel(self, n, run, names, fr, node, start):
        if not pos(n):
            # assume at least one iteration; the empty case leaves the state unchanged
            self.notes.append(('assume-nonempty', str(n), self.site(node)))
            cur().fact(sub(n, ONE))
        run(ZERO)
        if fr.dead:
            return
        self._sym_loop(sub(n, ONE), lambda x: run(add(x, ONE)), names, fr, node, start + 1)

    def _loop_pass(self, n, run, names, fr, node, s0, induct, lcs, lists):
        v = var(getattr(getattr(node, 'target', None), 'id', None) or 'k')
        L = Loop(v, n, node)
        L.fn = fr.fn.name if fr.fn else ''
        L.site = self.site(node)
        outer = self.fvs()
        self.loopvars.append(v)
        env0, heap0 = s0
        ctx = cur().copy()
        ctx.bound(v, ZERO, sub(n, ONE))
        ctx.fact(sub(n, ONE))
        PR.CUR.append(ctx)
        base_pcs = len(self.pcs)
        aphis = {}
        sphis = {}
        live = set(self.loopvars)
        try:
            for oid, x in heap0.items():
                if isinstance(x, Snap) and not isinstance(x, Const_):
                    if x.fvs and not set(x.fvs) <= live:
                        continue        # an item of a list that an earlier loop built
                    ph = Phi(L, x, self.fvs())
                    aphis[oid] = ph
                    self.heap[oid] = ph
                elif oid in lists and lists[oid] == 'lc':
                    pass
            for k in names:
                if k not in env0 or k in fr.globals_:
                    continue
                b = env0[k]
                if k in induct:
                    base, c = induct[k]
                    fr.env[k] = add(base, mul(c, atom(v)))
                elif isterm(b) and k not in lcs:
                    ph = Phi(L, Lam((), b, self.fvs()[:-1]) if fv(b) else Const(b), self.fvs())
                    sphis[k] = ph
                    fr.env[k] = rd(ph, ())
                elif b is UNDEF or isinstance(b, Choice) and UNDEF in (b.a, b.b):
                    pass
                else:
                    fr.env[k] = LC(k, b)
            for (oid, key) in [x for x in lcs if isinstance(x, tuple)]:
                d = dict(self.heap[oid])
                d[key] = LC((oid, key), d.get(key))
                self.heap[oid] = d
            for oid in [x for x in lists]:
                self.heap[oid] = ('?list', LC(('list', oid), None))
            fr_base = fr.env.copy()
            run(atom(v))
            if fr.dead:
                # every iteration leaves (raise): after the loop n<=0
                fr.dead = False
                self.restore(fr, s0)
                del self.pcs[base_pcs:]
                cur_n = n
                PR.CUR.pop()
                self.loopvars.pop()
                PR.CUR.append(cur())  # balance
                raise_dead = True
            else:
                raise_dead = False
        except BaseException:
            PR.CUR.pop()
            self.loopvars.pop()
            del self.pcs[base_pcs:]
            raise
        if raise_dead:
            PR.CUR.pop()
            if pos(n):
                fr.dead = True
            else:
                cur().assume(le0(n))
            return True
        endenv = dict(fr.env)
        endheap = dict(self.heap)
        extra = self.pcs[base_pcs:]
        del self.pcs[base_pcs:]
        PR.CUR.pop()
        for k, x in endenv.items():
            q = None if isinstance(x, (LC, Term)) else carried_in(x)
            if q is not None:
                if q.name != k or option_form([x], k) is None:
                    # (an error only if it is used)
                    endenv[k] = Unk('%s, which some iterations leave as it was' % k)
                    continue
                self.loopvars.pop()
                raise Carried(k, x)
        for oid, y in endheap.items():
            if isinstance(y, dict) and y is not heap0.get(oid):
                for x in y.values():
                    q = None if isinstance(x, (LC, Term)) else carried_in(x)
                    if q is not None:
                        self.loopvars.pop()
                        raise Carried(q.name)
        # ---- list / dict contents
        again = False
        newheap = {}
        for oid, x in heap0.items():
            y = endheap.get(oid)
            if isinstance(x, Snap):
                if y is not x and oid not in aphis and not isinstance(x, Const_):
                    self.loopvars.pop()
                    raise Unsupported('store into an item of a symbolic list', node)
                continue
            if isinstance(x, dict):
                if y is x:
                    continue
                for k in y:
                    if x.get(k, UNDEF) is not y[k] and (oid, k) not in lcs and not isinstance(y[k], LC):
                        lcs.add((oid, k))
                        again = True
                        if k not in x:
                            pass
            elif isinstance(x, tuple):
                if y is x or y == x:
                    continue
                if len(y) >= 2 and isinstance(y[0], str) and y[0] == '?list':
                    if isinstance(y[1], LC) and len(y) == 2:
                        # untouched on this pass
                        lists.pop(oid, None)
                        continue
                if oid in lists:
                    continue
                if y[:len(x)] == x and all(p is q for p, q in zip(x, y)):
                    # append only (provided the list is not read in the loop)
                    lists[oid] = len(x)
                    again = True
                else:
                    self.loopvars.pop()
                    raise Unsupported('list rewritten in a summarised loop', node)
        if again:
            # a second pass with carried entries poisoned
            self.loopvars.pop()
            return False
        # ---- scalar inductions
        for k, ph in sphis.items():
            e = endenv.get(k)
            if not isterm(e):
                continue
            p = rd(ph, ())
            if e is p:
                continue
            if isnum(e) and isnum(p):
                c = sub(e, p)
                if not _mentions(c, [q for q in sphis.values()]) and v not in fv(c) and not _mentions_loop(c, L):
                    if k not in induct:
                        induct[k] = (env0[k], c)
                        again = True
        if again:
            self.loopvars.pop()
            return False
        self.loopvars.pop()
        # ---- commit
        last = {v: sub(n, ONE)}
        for oid, ph in aphis.items():
            y = endheap[oid]
            ph.body_end = y
            self.heap[oid] = ph.base if y is ph else LoopEnd(ph, outer)
        for oid, y in endheap.items():
            if oid not in heap0:
                self.heap[oid] = y
        changed = {}
        for k, ph in sphis.items():
            e = endenv.get(k)
            p = rd(ph, ())
            if isterm(e):
                ph.body_end = ph if e is p else Lam((), e, self.fvs() + (v,))
                if e is not p:
                    changed[k] = (p, env0[k], e)
            else:
                ph.body_end = Lam((), ZERO, self.fvs() + (v,))
        L.scal = changed
        L.names = names
        self.loops.append(L)
        red = reduce_summary(self, L, changed, outer)
        env = dict(env0)
        for k, x in endenv.items():
            if k in env0 and x is env0[k]:
                continue
            if k in sphis:
                ph = sphis[k]
                if not isterm(x):
                    env[k] = self.close_value(x, last, heap0)
                    if not pos(n):
                        env[k] = self.merge(lt(ZERO, n), env[k], env0[k])
                elif x is rd(ph, ()):
                    env[k] = env0[k]
                elif k in red:
                    env[k] = red[k]
                elif not _mentions(x, sphis.values()):
                    y = subst(x, last)
                    env[k] = y if pos(n) else self.merge(lt(ZERO, n), y, env0[k])
                else:
                    env[k] = rd(LoopEnd(ph, outer), ())
                continue
            if k in induct:
                base, c = induct[k]
                env[k] = add(base, mul(c, n))
                continue
            if isinstance(x, LC):
                env[k] = env0[k]
                continue
            if maybe_undef(x):
                env[k] = Unk('%s, which some iterations leave undefined' % k)
                continue
            env[k] = self.close_value(x, last, heap0)
            if k in env0 and env0[k] is not UNDEF and not pos(n):
                env[k] = self.merge(lt(ZERO, n), env[k], env0[k])
        for oid, x in heap0.items():
            y = endheap.get(oid)
            if isinstance(x, dict) and y is not x:
                d = dict(x)
                for k, val in y.items():
                    if isinstance(val, LC):
                        d[k] = val.base
                    elif x.get(k, UNDEF) is not val:
                        d[k] = self.close_value(val, last, heap0)
                self.heap[oid] = d
            elif isinstance(x, tuple) and y is not x:
                if oid in lists and len(y) >= 2 and y[0] == '?list':
                    self.heap[oid] = self.nest_append(x, y, v, n, node)
        fr.env.clear()
        fr.env.update(env)
        # facts that held in every iteration
        for c in extra:
            if c is TRUE:
                continue
            q = lnot(exists(v, n, lnot(c)))
            self.pcs.append(q)
            cur().assume(q)
        return True

    def close_value(self, x, last, heap0):
        """value of a loop-body variable after the last iteration"""
        if isinstance(x, Term):
            return subst(x, last)
        if isinstance(x, Arr):
            sh = tuple(subst(s, last) for s in x.shape)
            maps = tuple(subst(m, last) for m in x.maps)
            if x.oid in heap0:
                return Arr(x.oid, sh, x.vars, maps, x.dtype)
            s = self.heap[x.oid]
            (v, t), = last.items()
            if v not in s.fvs and not _snap_deps(s, v):
                return Arr(x.oid, sh, x.vars, maps, x.dtype)
            nm = len(maps)
            vs = tuple(var('x') for _ in range(nm))
            env = penv(s, {**{w: atom(w) for w in s.fvs}, **last})
            lam = Lam(vs, RDI(s, env, tuple(atom(w) for w in vs), 'brd' if s.boolean else 'rd'), self.fvs())
            r = Arr(self.new(lam, self.owner.get(x.oid)), sh, x.vars, maps, x.dtype)
            self.copied[r.oid] = x.oid
            return r
        if isinstance(x, tuple):
            return tuple(self.close_value(y, last, heap0) for y in x)
        if isinstance(x, Choice):
            return self.merge(subst(x.c, last), self.close_value(x.a, last, heap0), self.close_value(x.b, last, heap0))
        if isinstance(x, SliceV):
            f = lambda y: self.close_value(y, last, heap0) if y is not None else None
            return SliceV(f(x.start), f(x.stop), f(x.step))
        if isinstance(x, SStr):
            return SStr([self._close_part(p, last) for p in x.parts])
        if isinstance(x, NestSeq):
            return NestSeq(x.vs, tuple(subst(m, last) for m in x.ns), subst(x.cond, last), self.close_value(x.val, last, heap0))
        if isinstance(x, SeqSeg):
            return SeqSeg(x.v, subst(x.n, last), self.close_value(x.val, last, heap0))
        if isinstance(x, ListRef) and x.oid not in heap0:
            r = self.mklist(self.close_value(y, last, heap0) for y in self.heap[x.oid])
            self.copied[r.oid] = x.oid
            return r
        if isinstance(x, DictRef) and x.oid not in heap0:
            r = DictRef(self.new({k: self.close_value(y, last, heap0) for k, y in self.heap[x.oid].items()}))
            self.copied[r.oid] = x.oid
            return r
        return x

    def _close_part(self, p, last):
        if isinstance(p, tuple):
            return tuple(subst(y, last) if isinstance(y, Term) else y for y in p)
        return p

    def st_While(self, st, fr):
        self.lib.exec_while(self, st, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__, e)
        return m(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, bytes):
            return v.decode('latin1')
        raise Unsupported('constant', e)

    def ex_Name(self, e, fr):
        return self.lookup(fr, e.id, e)

    def ex_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(self.lib.seq_items(self, self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def ex_List(self, e, fr):
        return self.mklist(self.ex_Tuple(e, fr))

    def ex_Set(self, e, fr):
        return ObjV('set', {'items': self.ex_Tuple(e, fr)})

    def ex_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                d.update(self.dict_items(o))
            else:
                kk = self.hkey(self.eval(k, fr))
                d[kk] = self.eval(v, fr)
        return DictRef(self.new(d))

    def dict_items(self, ref):
        return self.heap[ref.oid]

    def hkey(self, k):
        """hashable key for dict contents"""
        if isinstance(k, Arr) and k.ndim == 0:
            k = self.scalar(k)
        if isinstance(k, Term) and k.kind == 'poly' and constval(k) is not None:
            return ('n', constval(k))
        if isinstance(k, Term) and k.kind == 'B':
            return ('n', F(int(k.args[0])))
        if isinstance(k, tuple):
            return ('t',) + tuple(self.hkey(x) for x in k)
        if isinstance(k, (str, SStr)) or k is None:
            return k
        if isinstance(k, Term):
            return k
        raise Unsupported('dict key %r' % (k,))

    def unhkey(self, k):
        if isinstance(k, tuple) and k and k[0] == 'n':
            return num(k[1])
        if isinstance(k, tuple) and k and k[0] == 't':
            return tuple(self.unhkey(x) for x in k[1:])
        return k

    def ex_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.lib.getattr_(self, o, e.attr, e)

    def ex_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        k = self.eval(e.slice, fr)
        return self.lib.getitem(self, o, k, e)

    def ex_Slice(self, e, fr):
        f = lambda x: None if x is None else self.eval(x, fr)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def ex_Index(self, e, fr):
        return self.eval(e.value, fr)

    def ex_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.lib.binop(self, type(e.op).__name__, a, b, e)

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            return lnot(self.truth(v))
        return self.lib.unop(self, op, v, e)

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.eval(e.values[k], fr)
            if k == len(e.values) - 1:
                return v
            c = self.truth(v)
            d = self.decide(c)
            if d is not None:
                return (go(k + 1) if d else v) if isand else (v if d else go(k + 1))
            vv = v if not isbool(v) else (FALSE if isand else TRUE)
            if isand:
                return self.fork_expr(c, lambda: go(k + 1), lambda: vv)
            return self.fork_expr(c, lambda: vv, lambda: go(k + 1))
        return go(0)

    def ex_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        d = self.decide(c)
        if d is True:
            return self.eval(e.body, fr)
        if d is False:
            return self.eval(e.orelse, fr)
        return self.fork_expr(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            v = self.lib.compare(self, type(op).__name__, left, right, e)
            if out is None:
                out = v
            else:
                out = land(self.truth(out), self.truth(v))
            left = right
        return out

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and fr.fn is not None and getattr(fr.fn, 'owner', None) is not None:
            a = fr.fn.node.args
            return ObjV('super', {'cls': fr.fn.owner, 'obj': fr.env[(a.posonlyargs + a.args)[0].arg]})
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.lib.seq_items(self, self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, fr)
                if isinstance(o, DictRef):
                    for kk, vv in self.dict_items(o).items():
                        kw[kk] = vv
                else:
                    raise Unsupported('** of %r' % (o,), e)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw, e)

    def ex_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')

    def ex_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ex_JoinedStr(v.format_spec, fr)
                parts.append(self.lib.fmt1(self, x, spec, v.conversion))
        return sstr(*parts)

    def ex_FormattedValue(self, e, fr):
        return self.ex_JoinedStr(ast.JoinedStr(values=[e]), fr)

    def ex_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ex_Starred(self, e, fr):
        raise Unsupported('starred', e)

    def ex_Await(self, e, fr):
        raise Unsupported('await', e)

    def comp(self, gens, elt, fr):
        """comprehension: returns list of items / SeqSeg"""
        sub_ = Frame(fr.mod, fr.fn, fr)
        sub_.pcbase = fr.pcbase
        out = []

        def go(k):
            if k == len(gens):
                return [elt(sub_)]
            g = gens[k]
            itv = self.eval(g.iter, sub_ if k else fr)
            it = self.lib.iterate(self, itv, g.iter)
            res = []
            if it[0] == 'items':
                for x in it[1]:
                    if isinstance(x, SeqSeg):
                        raise Unsupported('comprehension over a mixed sequence', g.iter)
                    self.assign(g.target, x, sub_)
                    keep = True
                    cs = []
                    for cnd in g.ifs:
                        c = self.truth(self.eval(cnd, sub_))
                        d = self.decide(c)
                        if d is None:
                            raise Unsupported('undecided comprehension filter', cnd)
                        if not d:
                            keep = False
                            break
                    if keep:
                        res += go(k + 1)
                return res
            dims, valf = it[1], it[2]
            vs = tuple(var('c') for _ in dims)
            at = tuple(atom(v) for v in vs)
            self.loopvars.extend(vs)
            c2 = cur().copy()
            for v, n in zip(vs, dims):
                c2.bound(v, ZERO, sub(n, ONE))
            PR.CUR.append(c2)
            try:
                cond = TRUE
                if it[0] == 'symif':
                    cond = it[3](at)
                    cur().assume(cond)
                self.assign(g.target, valf(at), sub_)
                for cnd in g.ifs:
                    d = self.truth(self.eval(cnd, sub_))
                    cond = land(cond, d)
                    cur().assume(d)
                inner = go(k + 1)
            finally:
                PR.CUR.pop()
                del self.loopvars[len(self.loopvars) - len(vs):]
            if len(inner) > 1 and not any(isinstance(x, SeqSeg) for x in inner):
                u = var('u')
                val = inner[-1]
                for q in reversed(range(len(inner) - 1)):
                    val = self.merge(eq(atom(u), num(q)), inner[q], val)
                inner = [SeqSeg(u, num(len(inner)), val)]
            if not inner:
                return []
            if len(inner) != 1:
                raise Unsupported('nested symbolic comprehension', g.iter)
            x = inner[0]
            if isinstance(x, SeqSeg):
                ivs, ins, d = (x.vs, x.ns, x.cond) if isinstance(x, NestSeq) else ((x.v,), (x.n,), TRUE)
                if any(v in fv(m) for m in ins for v in vs):
                    raise Unsupported('triangular comprehension', g.iter)
                return [NestSeq(vs + ivs, tuple(dims) + ins, land(cond, d), x.val)]
            if cond is TRUE and len(vs) == 1:
                return [SeqSeg(vs[0], dims[0], x)]
            return [NestSeq(vs, dims, cond, x)]
        self.stack.append(sub_)
        try:
            return go(0)
        finally:
            self.stack.pop()

    def ex_ListComp(self, e, fr):
        return self.mklist(self.comp(e.generators, lambda s: self.eval(e.elt, s), fr))

    def ex_GeneratorExp(self, e, fr):
        return self.mklist(self.comp(e.generators, lambda s: self.eval(e.elt, s), fr))

    def ex_SetComp(self, e, fr):
        return self.lib.mkset(self, list(self.comp(e.generators, lambda s: self.eval(e.elt, s), fr)), e)

    def ex_DictComp(self, e, fr):
        items = self.comp(e.generators, lambda s: (self.eval(e.key, s), self.eval(e.value, s)), fr)
        d = {}
        for x in items:
            if isinstance(x, SeqSeg):
                raise Unsupported('symbolic dict comprehension', e)
            d[self.hkey(x[0])] = x[1]
        return DictRef(self.new(d))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Term):
            if isbool(v):
                return v
            if v.kind == 'poly':
                return lnot(eq0(v))
        if v is None:
            return FALSE
        if isinstance(v, str):
            return B(bool(v))
        if isinstance(v, SStr):
            return TRUE if any(isinstance(p, str) and p or isinstance(p, tuple) for p in v.parts) else FALSE
        if isinstance(v, tuple):
            return B(len(v) > 0)
        if isinstance(v, ListRef):
            it = self.heap[v.oid]
            if len(it) == 2 and it[0] == '?list':
                raise Unsupported('truth of carried list')
            if not it:
                return FALSE
            if any(not isinstance(x, SeqSeg) for x in it):
                return TRUE
            return lor(*[lt(ZERO, x.n) for x in it])
        if isinstance(v, DictRef):
            return B(len(self.heap[v.oid]) > 0)
        if isinstance(v, Choice):
            if v.a is UNDEF:
                return self.truth(v.b)
            if v.b is UNDEF:
                return self.truth(v.a)
            return lor(land(v.c, self.truth(v.a)), land(lnot(v.c), self.truth(v.b)))
        if isinstance(v, Arr):
            s = self.scalar(v)
            if s is not None:
                return s if isbool(s) else lnot(eq0(s))
            # more than one element: ambiguous
            one = land(*[eq(n, ONE) for n in v.shape])
            d = self.decide(one)
            if d is None:
                self.fork_expr(one, lambda: None, lambda: self.do_raise('ValueError', ('truth value of an array is ambiguous',), None, implicit=True))
                x = self.elem(v, (ZERO,) * v.ndim)
                return x if isbool(x) else lnot(eq0(x))
            self.do_raise('ValueError', ('truth value of an array is ambiguous',), None, implicit=True)
        if isinstance(v, ObjV):
            if v.kind == 'array0_none':
                return FALSE
            if v.kind == 'set':
                return B(len(v.attrs['items']) > 0)
            if v.kind == 'globlist' or 'truth' in v.attrs:
                return v.attrs['truth']
            return TRUE
        if isinstance(v, (Func, Builtin, Partial, ExtMod, UserMod, ExcT, SliceV)):
            return TRUE
        if isinstance(v, RangeV):
            return lt(ZERO, v.count())
        if isinstance(v, Unk):
            return bapp('unk', v.why)
        raise Unsupported('truth of %r' % (v,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node):
        if isinstance(f, Choice):
            if f.a is UNDEF:
                return self.call(f.b, args, kw, node)
            if f.b is UNDEF:
                return self.call(f.a, args, kw, node)
            d = self.decide(f.c)
            if d is not None:
                return self.call(f.a if d else f.b, args, kw, node)
            return self.fork_expr(f.c, lambda: self.call(f.a, args, kw, node), lambda: self.call(f.b, args, kw, node))
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2, node)
        if isinstance(f, ExcT):
            x = Exc(f.name, tuple(args))
            x.xb = f.bases
            return x
        if isinstance(f, Builtin):
            return self.lib.call_builtin(self, f, args, kw, node)
        if isinstance(f, ObjV):
            return self.lib.call_obj(self, f, args, kw, node)
        if isinstance(f, Unk):
            return Unk(f.why)
        raise Unsupported('call of %r' % (f,), node)

    def bind_args(self, f, args, kw, node):
        a = f.node.args
        env = {}
        pos_ = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(pos_) and a.vararg is None:
            self.do_raise('TypeError', ('too many arguments for ' + f.name,), node, implicit=True)
        for n, v in zip(pos_, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos_):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in pos_ or k in kwonly:
                if k in env:
                    self.do_raise('TypeError', ('multiple values for ' + k,), node, implicit=True)
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.do_raise('TypeError', ('unexpected keyword ' + str(k),), node, implicit=True)
        if a.kwarg is not None:
            env[a.kwarg.arg] = DictRef(self.new(extra))
        for n, d in zip(pos_[len(pos_) - len(f.defaults):], f.defaults):
            env.setdefault(n, d)
        for n, d in zip(kwonly, f.kwdefaults):
            if d is not None or n in env:
                env.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in env:
                k = kwonly.index(x.arg)
                if a.kw_defaults[k] is not None:
                    env[x.arg] = f.kwdefaults[k]
        for n in pos_ + kwonly:
            if n not in env:
                self.do_raise('TypeError', ('missing argument ' + n,), node, implicit=True)
        return env

    def call_func(self, f, args, kw, node):
        key = (f.mod.name, f.name)
        if f.closure is None and key in self.overrides:
            env = self.bind_args(f, args, kw, node)
            r = self.overrides[key](self, env, node)
            if r is not NotImplemented:
                return r
        if len(self.stack) > 40:
            raise Unsupported('call depth', node)
        env = self.bind_args(f, args, kw, node)
        fr = Frame(f.mod, f, f.closure)
        fr.env = env
        fr.pcbase = len(self.pcs)
        fr.loopdepth = len(self.loopvars)
        if f.closure is None and not isinstance(f.node, ast.Lambda):
            self.calls.append((key, dict(env), node, self.site(node)))
            ob = self.observers.get(key)
            if ob:
                ob(self, env)
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if _has_yield(f.node):
                body = gen_as_list(f.node).body
            else:
                body = f.node.body
            PR.CUR.append(cur().copy())
            try:
                self.exec_block(body, fr)
            finally:
                inner = PR.CUR.pop()
            if not fr.dead:
                fr.rets.append((land(*self.pcs[fr.pcbase:]), None, dict(self.heap), len(self.loopvars)))
            extra = land(*self.pcs[fr.pcbase:])
            del self.pcs[fr.pcbase:]
            if not fr.rets:
                raise DeadPath()
            c, val, heap, _ = fr.rets[-1]
            tot = c
            for c1, v1, h1, _ in reversed(fr.rets[:-1]):
                self.merge_states(c1, ({}, h1), ({}, heap))
                val = self.merge(c1, v1, val)
                heap = dict(self.heap)
                tot = lor(c1, tot)
            self.heap.clear()
            self.heap.update(heap)
            if tot is not TRUE:
                self.pcs.append(tot)
                cur().assume(tot)
            if not isinstance(f.node, ast.Lambda) and _has_yield(f.node) and isinstance(val, ListRef):
                # a generator is read once
                val = self.lib.FN['iter'](self, [val], {}, node)
            return val
        finally:
            self.stack.pop()


Const_ = ()


class _Ell(V):
    def __repr__(self):
        return '...'


ELLIPSIS = _Ell()


def _is_main_guard(st):
    return isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == '__name__'


_asg_memo = {}


def _assigned(node):
    r = _asg_memo.get(node)
    if r is None:
        r = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    r.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
        _asg_memo[node] = r
    return r


def _assigned_block(stmts):
    r = set()
    for s in stmts:
        r |= _assigned(s)
    return r


_yield_memo = {}
_suppress_memo = {}
_match_memo = {}


class _NoMatch(Exception):
    pass


def match_as_if(st):
    """a match statement as an if chain over a stored subject"""
    def at(x):
        for y in ast.walk(x):
            if isinstance(y, (ast.expr, ast.stmt)) and not hasattr(y, 'lineno'):
                ast.copy_location(y, st)
                y.end_lineno, y.end_col_offset = st.end_lineno, st.end_col_offset
        return x

    def both(l):
        l = [x for x in l if x is not None]
        return None if not l else l[0] if len(l) == 1 else ast.BoolOp(ast.And(), l)

    def bind(name, subj):
        return ast.Subscript(ast.Tuple([ast.NamedExpr(ast.Name(name, ast.Store()), subj), ast.Constant(True)], ast.Load()), ast.Constant(1), ast.Load())

    def pat(p, subj):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchAs):
            return both([None if p.pattern is None else pat(p.pattern, subj), None if p.name is None else bind(p.name, subj)])
        if isinstance(p, ast.MatchOr):
            l = [pat(x, subj) for x in p.patterns]
            return None if None in l else ast.BoolOp(ast.Or(), l)
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            ok = ast.Call(ast.Name('isinstance', ast.Load()), [subj, ast.Tuple([ast.Name('list', ast.Load()), ast.Name('tuple', ast.Load())], ast.Load())], [])
            n = ast.Compare(ast.Call(ast.Name('len', ast.Load()), [subj], []), [ast.Eq()], [ast.Constant(len(p.patterns))])
            return both([ok, n] + [pat(x, ast.Subscript(subj, ast.Constant(i), ast.Load())) for i, x in enumerate(p.patterns)])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_attrs:
            return ast.Call(ast.Name('isinstance', ast.Load()), [subj, p.cls], [])
        raise Unsupported('match pattern', st)
    name = '<match %d>' % st.lineno
    subj = ast.Name(name, ast.Load())
    out = []
    for c in reversed(st.cases):
        t = both([pat(c.pattern, subj), c.guard])
        out = list(c.body) if t is None else [at(ast.If(t, c.body, out))]
    return [at(ast.Assign([ast.Name(name, ast.Store())], st.subject))] + out


def _has_yield(node):
    r = _yield_memo.get(node)
    if r is None:
        r = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        _yield_memo[node] = r
    return r


def own_nodes(fn):
    """nodes of a function body, without those of functions and classes defined inside"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


_gen_memo = {}


class _GenToList(ast.NodeTransformer):
    def __init__(self, top):
        self.top = top

    def visit_FunctionDef(self, n):
        return self.generic_visit(n) if n is self.top else n

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = lambda self, n: n

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            v = n.value.value or ast.Constant(None)
            m = 'append' if isinstance(n.value, ast.Yield) else 'extend'
            return ast.Expr(ast.Call(ast.Attribute(ast.Name(GENLIST, ast.Load()), m, ast.Load()), [v], []))
        return self.generic_visit(n)

    def visit_Yield(self, n):
        raise Unsupported('value sent into a generator')

    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            raise Unsupported('value returned by a generator')
        return ast.Return(ast.Name(GENLIST, ast.Load()))


GENLIST = '<yielded>'


def gen_as_list(node):
    """the body of a generator function, rewritten to collect what it yields in a list"""
    r = _gen_memo.get(node)
    if r is None:
        import copy
        n = copy.deepcopy(node)
        n = _GenToList(n).visit(n)
        n.body = [ast.Assign([ast.Name(GENLIST, ast.Store())], ast.List([], ast.Load()))] + n.body + [ast.Return(ast.Name(GENLIST, ast.Load()))]
        for x in ast.walk(n):
            if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
                x.lineno, x.col_offset = node.lineno, node.col_offset
                x.end_lineno, x.end_col_offset = node.lineno, node.col_offset
        r = _gen_memo[node] = n
    return r


def _mentions(t, phis):
    """does t depend, directly or through array versions, on one of the phis?"""
    s = set(phis)
    if not s:
        return False
    vs = {p.loop.v for p in s}
    seen = set()

    def in_term(t):
        for st in subterms(t):
            if st.kind in ('rd', 'brd') and in_snap(st.args[0]):
                return True
        return False

    def in_snap(p):
        if p in s:
            return True
        if p.uid in seen or not any(v in vs for v in p.fvs):
            return False
        seen.add(p.uid)
        if isinstance(p, Lam):
            return in_term(p.body)
        if isinstance(p, Upd):
            return in_snap(p.prev) or in_term(p.val) or in_term(p.guard) or any(in_term(x) for x in p.idx) or any(in_term(n) for _, n in p.bvars)
        if isinstance(p, Sel):
            return in_term(p.c) or in_snap(p.a) or in_snap(p.b)
        if isinstance(p, LoopEnd):
            return in_snap(p.phi)
        if isinstance(p, Phi):
            return in_snap(p.base) or in_term(p.loop.n) or p.body_end is not None and in_snap(p.body_end)
        return False
    return in_term(t)


def _mentions_loop(t, L):
    for st in subterms(t):
        if st.kind in ('rd', 'brd') and isinstance(st.args[0], (Phi,)) and st.args[0].loop is L:
            return True
        if st.kind in ('rd', 'brd') and L.v in st.args[0].fvs:
            return True
    return False


def _snap_deps(s, v):
    return v in s.fvs


def carried_in(x):
    if isinstance(x, LC):
        return x
    if isinstance(x, Choice):
        return carried_in(x.a) or carried_in(x.b)
    if type(x) is tuple:
        for y in x:
            q = carried_in(y)
            if q is not None:
                return q
    return None


def maybe_undef(x):
    return maybe_undef(x.a) or maybe_undef(x.b) if isinstance(x, Choice) else x is UNDEF


def maybe_none(x):
    return maybe_none(x.a) or maybe_none(x.b) if isinstance(x, Choice) else x is None


def option_form(vals, name):
    """the common form of values that are tuples of m numbers ('n': plain numbers) or None"""
    form = None
    todo = list(vals)
    while todo:
        x = todo.pop()
        if isinstance(x, Choice):
            todo += [x.a, x.b]
        elif x is None or isinstance(x, LC) and x.name == name:
            pass
        else:
            f = 'n' if isterm(x) else len(x) if type(x) is tuple and x and all(isterm(y) for y in x) else None
            if f is None or form not in (None, f):
                return None
            form = f
    return form


def reduce_summary(I, L, changed, outer):
    """closed forms for min / argmin / sum / any / all accumulations"""
    out = {}
    v, n = L.v, L.n
    phis = {k: p for k, (p, b, e) in changed.items()}
    allp = [single_atom(p).args[0] if isnum(p) else p.args[0] for p in phis.values()]

    def has_phi(t, except_=None):
        for st in subterms(t):
            if st.kind in ('rd', 'brd') and isinstance(st.args[0], Phi) and st.args[0].loop is L:
                if st is not except_ and (except_ is None or single_atom_or(st) is not except_):
                    return True
        return False

    def single_atom_or(st):
        return st
    keys = {}
    for k, (p, b, e) in changed.items():
        if isnum(e) and isnum(p):
            pa = single_atom(p)
            # running minimum / maximum
            ea = single_atom(e)
            if ea is not None and ea.kind == 'app' and ea.args[0] in ('min', 'max') and p in ea.args[1:]:
                rest = [x for x in ea.args[1:] if x is not p]
                D = rest[0] if len(rest) == 1 else app(ea.args[0], *rest)
                if not has_phi(D):
                    r = mkreduce(ea.args[0], b, v, n, D)
                    out[k] = r
                    keys[k] = (ea.args[0], D, pa, b)
                    continue
            d = sub(e, p)
            if not has_phi(d):
                out[k] = add(b if isnum(b) else tobool01(b), atom(mk('app', 'sum', v, n, d)))
        elif isbool(e) and isbool(p):
            if e.kind == 'or' and p in e.args:
                rest = lor(*[x for x in e.args if x is not p])
                if not has_phi(rest):
                    out[k] = lor(b, exists(v, n, rest))
            elif e.kind == 'and' and p in e.args:
                rest = land(*[x for x in e.args if x is not p])
                if not has_phi(rest):
                    out[k] = land(b, lnot(exists(v, n, lnot(rest))))
    # arg-min companions
    for k, (p, b, e) in changed.items():
        if k in out or not (isnum(e) and isnum(p)):
            continue
        ea = single_atom(e)
        if ea is None or ea.kind != 'ite':
            continue
        c, x, y = ea.args
        for kk, (kind, D, pa, bb) in keys.items():
            dd = sub(D, atom(pa))
            lower = lt0(dd) if kind == 'min' else lt0(neg(dd))
            lower_eq = le0(dd) if kind == 'min' else le0(neg(dd))
            if c in (lower, lower_eq) and y is p and not has_phi(x):
                out[k] = mkargreduce('arg' + kind, b, bb, v, n, D, x)
            elif lnot(c) in (lower, lower_eq) and x is p and not has_phi(y):
                out[k] = mkargreduce('arg' + kind, b, bb, v, n, D, y)
    return out


def mkreduce(kind, base, v, n, D):
    """min over 0<=v<n of D, and base"""
    return atom(mk('app', 'r' + kind, base, v, n, D))


def mkargreduce(kind, base, bkey, v, n, D, X):
    return atom(mk('app', 'r' + kind, base, bkey, v, n, D, X))
