"""Structural equality of two derivations: array versions, loops and terms equal up to a renaming of
bound variables and of array versions.  Sound (isomorphic derivations denote the same value), incomplete."""
from .arrays import *
from .terms import *
from .values import Arr


class Iso:
    def __init__(self):
        self.fw, self.bw = {}, {}       # variables, array versions and loops of one side -> other side
        self.done = set()               # term pairs already shown equal
        self.trail = []
        self.budget = 3000000

    def undo(self, mark):
        while len(self.trail) > mark:
            k, x = self.trail.pop()
            if k == 'm':
                y = self.fw.pop(x)
                del self.bw[y]
            else:
                self.done.discard(x)

    def bind(self, x, y):
        self.fw[x] = y
        self.bw[y] = x
        self.trail.append(('m', x))

    def pair(self, x, y):
        """the renaming's view of x and y: True / False when both are known, else bound now (None)"""
        if x in self.fw or y in self.bw:
            return self.fw.get(x) is y
        self.bind(x, y)
        return None

    def term(self, a, b):
        self.budget -= 1
        if self.budget < 0:
            return False
        if a.kind != b.kind:
            return False
        if (a, b) in self.done:
            return True
        k = a.kind
        if k == 'var':
            r = self.pair(a, b)
            return True if r is None else r
        if k in ('sym', 'str', 'B', 'inf', 'none'):
            return a is b
        if k == 'poly':
            r = a is b if not a.args else self.poly(a, b)
        elif k in ('and', 'or'):
            r = self.bag(a.args, b.args, self.any)
        else:
            r = len(a.args) == len(b.args) and all(self.any(x, y) for x, y in zip(a.args, b.args))
        if r:
            self.done.add((a, b))
            self.trail.append(('d', (a, b)))
        return r

    def poly(self, a, b):
        if len(a.args) != len(b.args):
            return False
        return self.bag(a.args, b.args, self.monomial)

    def monomial(self, x, y):
        (m, c), (n, d) = x, y
        if c != d or len(m) != len(n):
            return False
        return self.bag(m, n, lambda p, q: p[1] == q[1] and self.term(p[0], q[0]))

    def bag(self, xs, ys, f):
        """match the items of xs and ys in some order (greedy, same position first)"""
        if len(xs) != len(ys):
            return False
        used = set()
        for i, x in enumerate(xs):
            for j in [i] + [j for j in range(len(ys)) if j != i]:
                if j in used:
                    continue
                mark = len(self.trail)
                if f(x, ys[j]):
                    used.add(j)
                    break
                self.undo(mark)
            else:
                return False
        return True

    def any(self, a, b):
        if isinstance(a, Term) and isinstance(b, Term):
            return self.term(a, b)
        if isinstance(a, Snap) and isinstance(b, Snap):
            return self.snap(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.any(x, y) for x, y in zip(a, b))
        if isinstance(a, Loop) and isinstance(b, Loop):
            r = self.pair(a, b)
            return (self.term(a.v, b.v) and self.term(a.n, b.n)) if r is None else r
        if a is None or isinstance(a, (str, int, bool, Fraction)):
            return type(a) is type(b) and a == b
        return a is b

    def snap(self, a, b):
        self.budget -= 1
        if self.budget < 0 or type(a) is not type(b):
            return False
        r = self.pair(a, b)
        if r is not None:
            return r
        if not self.any(a.fvs, b.fvs):
            return False
        if isinstance(a, Inp):
            return a.name == b.name
        if isinstance(a, Const):
            return self.any(a.val, b.val)
        if isinstance(a, Lam):
            return self.any(a.vars, b.vars) and self.any(a.body, b.body) and self.any(a.prev, b.prev)
        if isinstance(a, Upd):
            return self.any(a.prev, b.prev) and self.any(a.bvars, b.bvars) and self.any(a.idx, b.idx) and self.any(a.guard, b.guard) and self.any(a.val, b.val)
        if isinstance(a, Phi):
            return self.any(a.loop, b.loop) and self.any(a.base, b.base) and self.any(a.body_end, b.body_end)
        if isinstance(a, LoopEnd):
            return self.any(a.phi, b.phi)
        if isinstance(a, Sel):
            return self.any(a.c, b.c) and self.any(a.a, b.a) and self.any(a.b, b.b)
        return False

    def arrays(self, Ia, a, Ib, b):
        mark = len(self.trail)
        try:
            if a.dtype == b.dtype and self.any(a.shape, b.shape) and self.any(a.vars, b.vars) and self.any(a.maps, b.maps) and self.any(Ia.heap[a.oid], Ib.heap[b.oid]):
                return True
        except RecursionError:
            pass
        self.undo(mark)
        return False


from fractions import Fraction    # noqa
