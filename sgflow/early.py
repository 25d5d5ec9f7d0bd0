"""Early exits of loops whose iterations are summarised.

`break` and `return` inside such a loop become flags: an iteration after the
exit does nothing, and the code after the loop acts on the flag.  The rewriting
is on the syntax tree, so the loop that results has only structured control.
"""
import ast
import itertools

_n = itertools.count()


def name(x, store=False):
    return ast.Name(id=x, ctx=ast.Store() if store else ast.Load())


def setv(x, v):
    return ast.Assign(targets=[name(x, True)], value=v if isinstance(v, ast.AST) else ast.Constant(value=v), type_comment=None)


def unset(x):
    return ast.Compare(left=name(x), ops=[ast.Eq()], comparators=[ast.Constant(value=0)])


def isset(x):
    return ast.Compare(left=name(x), ops=[ast.NotEq()], comparators=[ast.Constant(value=0)])


LOOPS = (ast.For, ast.While, ast.AsyncFor)
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def exits(s, own=True):
    """can statement s leave the enclosing loop early?"""
    if isinstance(s, SCOPES):
        return False
    if isinstance(s, ast.Return):
        return True
    if isinstance(s, ast.Break):
        return own
    if isinstance(s, LOOPS):
        return any(exits(x, False) for x in s.body) or any(exits(x, own) for x in s.orelse)
    return any(exits(x, own) for x in ast.iter_child_nodes(s))


class Early:
    def __init__(self):
        self.pre, self.rets = [], []

    def block(self, stmts, brk):
        out = []
        for k, s in enumerate(stmts):
            if not exits(s):
                out.append(s)
                continue
            out += self.stmt(s, brk)
            rest = stmts[k + 1:]
            if rest and not isinstance(s, (ast.Return, ast.Break)):
                out.append(ast.If(test=unset(brk), body=self.block(rest, brk), orelse=[]))
            break
        return out

    def stmt(self, s, brk):
        if isinstance(s, ast.Break):
            return [setv(brk, 1)]
        if isinstance(s, ast.Return):
            return self.ret(s) + [setv(brk, 1)]
        if isinstance(s, ast.If):
            return [ast.If(test=s.test, body=self.block(s.body, brk) or [ast.Pass()], orelse=self.block(s.orelse, brk))]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return [type(s)(items=s.items, body=self.block(s.body, brk), type_comment=None)]
        if isinstance(s, LOOPS):
            sub = self.loop(s)
            return sub + [ast.If(test=self.any_ret(), body=[setv(brk, 1)], orelse=[])]
        raise ValueError('early exit inside ' + type(s).__name__)

    def any_ret(self):
        return ast.BoolOp(op=ast.Or(), values=[isset(f) for f, _ in self.rets] + [ast.Constant(value=False)])

    def ret(self, s):
        f = '__ret%d' % next(_n)
        self.pre.append(setv(f, 0))
        out = [setv(f, 1)]
        v = s.value
        if v is None or isinstance(v, ast.Constant):
            self.rets.append((f, v))
            return out
        parts = list(v.elts) if isinstance(v, ast.Tuple) else [v]
        names = []
        for p in parts:
            if isinstance(p, ast.Constant):
                names.append(p)
                continue
            n = '__rv%d' % next(_n)
            self.pre.append(setv(n, 0))
            out.append(setv(n, p))
            names.append(name(n))
        self.rets.append((f, ast.Tuple(elts=names, ctx=ast.Load()) if isinstance(v, ast.Tuple) else names[0]))
        return out

    def loop(self, s):
        """an inner loop that may leave the outer one"""
        brk = '__brk%d' % next(_n)
        body = [ast.If(test=unset(brk), body=self.block(s.body, brk), orelse=[])]
        kw = dict(target=s.target, iter=s.iter, type_comment=None) if isinstance(s, ast.For) else dict(test=s.test)
        if isinstance(s, ast.While):
            raise ValueError('early exit inside while')
        out = [setv(brk, 0), type(s)(body=body, orelse=[], **kw)]
        if s.orelse:
            out.append(ast.If(test=unset(brk), body=s.orelse, orelse=[]))
        return out


def is_iternext(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'iternext'


def rewrite(st, fn):
    """(statements before, loop body, statements after) without early exits"""
    E = Early()
    brk = '__brk%d' % next(_n)
    body = list(st.body)
    tail = []
    if isinstance(st, ast.While):
        if body and is_iternext(body[-1]):
            tail = [body.pop()]
        else:
            raise ValueError('early exit inside while')
    inner = E.block(body, brk)
    pre, post = [setv(brk, 0)], []
    if isinstance(st, ast.For):
        inside = {id(n) for n in ast.walk(st)}
        used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside} if fn is not None else set()
        for n in [n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)]:
            if n in used:
                k = '__at%d' % next(_n)
                pre.append(setv(k, 0))
                inner.insert(0, setv(k, name(n)))
                post.append(setv(n, name(k)))
    elif fn is not None:
        it = tail[0].value.func.value
        inside = {id(n) for n in ast.walk(st)}
        if not isinstance(it, ast.Name) or any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id == it.id and n.lineno > st.end_lineno for n in ast.walk(fn) if id(n) not in inside):
            raise ValueError('iterator used after an early exit')
    body = [ast.If(test=unset(brk), body=inner, orelse=[])] + tail
    if st.orelse:
        post.append(ast.If(test=unset(brk), body=st.orelse, orelse=[]))
    for f, v in E.rets:
        post.append(ast.If(test=isset(f), body=[ast.Return(value=v)], orelse=[]))
    pre = E.pre + pre
    for l in (pre, body, post):
        for s in l:
            ast.copy_location(s, st)
            for n in ast.walk(s):
                for a in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
                    if isinstance(n, (ast.stmt, ast.expr)) and getattr(n, a, None) is None:
                        setattr(n, a, getattr(st, a))
    return pre, body, post
