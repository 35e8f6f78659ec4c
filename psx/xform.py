"""AST rewriting: real module source -> code that runs on symbolic values."""
import ast
import os

RT = "_psx_rt"


def _name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def _attr(o, a):
    return ast.Attribute(value=o, attr=a, ctx=ast.Load())


def rtcall(fn, *args):
    return ast.Call(func=_attr(_name(RT), fn), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


def stored_names(nodes, stop_at_defs=True):
    """Names bound by these statements in this scope (in order)."""
    out = []

    def add(n):
        if n not in out and not n.startswith("_psx_h"):
            out.append(n)

    def visit(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        elif isinstance(n, ast.Lambda):
            return
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets are local to it; walrus targets are not
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    add(x.target.id)
            return
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in nodes:
        visit(s)
    return out


def has_exit(nodes, kinds):
    """Do these statements contain return / break / continue of this level?"""

    def visit(n, inloop):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        if isinstance(n, ast.Return) and "return" in kinds:
            return True
        if isinstance(n, ast.Raise) and "raise" in kinds:
            return True
        if isinstance(n, (ast.Break, ast.Continue)) and not inloop and "loop" in kinds:
            return True
        if isinstance(n, (ast.For, ast.While)):
            for c in n.body:
                if visit(c, True):
                    return True
            for c in n.orelse:
                if visit(c, inloop):
                    return True
            return False
        for c in ast.iter_child_nodes(n):
            if visit(c, inloop):
                return True
        return False

    return any(visit(n, False) for n in nodes)


def contains_yield(fn):
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))

    return any(visit(s) for s in fn.body)


class Scope:
    def __init__(self, kind, params=()):
        self.kind = kind  # 'module' | 'class' | 'func'
        self.params = set(params)
        self.declared = set()
        self.snap = set()
        self.loop = None  # current loop variable name


OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>",
    ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
}
CMPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}


class Xform:
    def __init__(self, modname):
        self.modname = modname
        self.n = 0
        self.functions = []

    def fresh(self, p="v"):
        self.n += 1
        return f"_psx_{p}{self.n}"

    # ------------------------------------------------------------------ module
    def module(self, tree):
        sc = Scope("module")
        body = []
        for s in tree.body:
            body += self.plain_stmt(s, sc)
        m = ast.Module(body=body, type_ignores=[])
        ast.fix_missing_locations(m)
        return m

    def plain_stmt(self, s, sc):
        """module / class level statement: control flow stays native."""
        if isinstance(s, ast.ImportFrom) and s.module == "__future__":
            return []
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.stmt(s, sc)
        if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            pre = []
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if b:
                    nb = []
                    for x in b:
                        nb += self.plain_stmt(x, sc)
                    setattr(s, f, nb)
            for h in getattr(s, "handlers", []):
                nb = []
                for x in h.body:
                    nb += self.plain_stmt(x, sc)
                h.body = nb
            for f in ("test", "iter"):
                if hasattr(s, f):
                    setattr(s, f, self.expr(getattr(s, f), pre, sc))
            return pre + [s]
        return self.stmt(s, sc)

    # --------------------------------------------------------------- functions
    def function(self, fn, sc, is_lambda=False):
        a = fn.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        pre = []
        a.defaults = [self.expr(d, pre, sc) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.expr(d, pre, sc) for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        decos = [self.expr(d, pre, sc) for d in fn.decorator_list]
        isgen = contains_yield(fn)
        inner = Scope("func", params)
        inner.isgen = isgen
        declared = []
        for n in ast.walk(ast.Module(body=fn.body, type_ignores=[])):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                declared += n.names
        inner.declared = set(declared)
        doc = ast.get_docstring(fn, clean=False)
        src_body = fn.body[1:] if doc is not None else fn.body
        F = inner.frame = self.fresh("f")
        local_names = [n for n in stored_names(src_body) if n not in inner.params and n not in inner.declared]
        body = self.block(src_body, inner)
        out = []
        if doc is not None:
            out.append(ast.Expr(const(doc)))
        # global/nonlocal declarations come first
        decl = [s for s in body if isinstance(s, (ast.Global, ast.Nonlocal))]
        body = [s for s in body if not isinstance(s, (ast.Global, ast.Nonlocal))]
        out += decl
        out.append(ast.Assign(targets=[_name(F, ast.Store())], value=rtcall("enter", const(fn.name))))
        init = [n for n in local_names if n in inner.snap]
        if init:
            out.append(ast.Assign(targets=[_name(n, ast.Store()) for n in init], value=_attr(_name(RT), "UNDEF")))
        if isgen:
            E = self.fresh("e")
            out.append(
                ast.Try(
                    body=body or [ast.Pass()],
                    handlers=[
                        ast.ExceptHandler(
                            type=_name("Exception"),
                            name=E,
                            body=[ast.Return(value=rtcall("gen_exc", _name(F), _name(E)))],
                        )
                    ],
                    orelse=[],
                    finalbody=[],
                )
            )
            out.append(ast.Return(value=rtcall("leave_gen", _name(F))))
        else:
            out += body
            out.append(ast.Return(value=rtcall("leave", _name(F))))
        new = ast.FunctionDef(
            name=fn.name, args=a, body=out, decorator_list=decos + [], returns=None, type_params=[],
        )
        # mark innermost so that the runtime knows the function is transformed
        new.decorator_list = decos + [_attr(_name(RT), "mark")]
        self.functions.append(fn.name)
        return pre, new

    # ------------------------------------------------------------------ blocks
    def block(self, stmts, sc):
        out = []
        for i, s in enumerate(stmts):
            emitted = self.stmt(s, sc)
            out += emitted
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                break  # unreachable rest
            rest = stmts[i + 1:]
            if rest and isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                ex_loop = has_exit([s], {"loop"})
                ex_ret = has_exit([s], {"return", "raise"})
                if ex_loop or ex_ret:
                    out += self.rest_region(rest, sc, ex_loop)
                    break
        return out

    def rest_region(self, rest, sc, merge):
        R = self.fresh("r")
        names = []
        if merge:
            names = [n for n in stored_names(rest)]
            sc.snap.update(names)
        out = [ast.Assign(targets=[_name(R, ast.Store())], value=rtcall("rest", _name(sc.frame), _name(sc.loop) if (merge and sc.loop) else const(None)))]
        S0 = self.fresh("s")
        if names:
            out.append(self.snap(S0, names))
        body = self.block(rest, sc) or [ast.Pass()]
        out.append(ast.If(test=ast.Call(func=_attr(_name(R), "then"), args=[], keywords=[]), body=[self.guarded(body, R)], orelse=[]))
        out.append(ast.Expr(ast.Call(func=_attr(_name(R), "end"), args=[], keywords=[])))
        if names:
            out.append(self.merge_assign(names, R, None, S0))
        # function level: everything already returned?
        return out

    def snap(self, var, names):
        return ast.Assign(
            targets=[_name(var, ast.Store())],
            value=ast.Tuple(elts=[_name(n) for n in names], ctx=ast.Load()),
        )

    def restore(self, var, names):
        return ast.Assign(
            targets=[ast.Tuple(elts=[_name(n, ast.Store()) for n in names], ctx=ast.Store())],
            value=_name(var),
        )

    def merge_assign(self, names, B, S1, S0):
        """names = B.merge(S1 or current, S0)"""
        first = _name(S1) if S1 else ast.Tuple(elts=[_name(n) for n in names], ctx=ast.Load())
        return ast.Assign(
            targets=[ast.Tuple(elts=[_name(n, ast.Store()) for n in names], ctx=ast.Store())],
            value=ast.Call(func=_attr(_name(B), "merge"), args=[first, _name(S0)], keywords=[]),
        )

    def guarded(self, body, B):
        E = self.fresh("e")
        return ast.Try(
            body=body,
            handlers=[
                ast.ExceptHandler(
                    type=_name("Exception"),
                    name=E,
                    body=[
                        ast.If(
                            test=ast.Call(func=_attr(_name(B), "caught"), args=[_name(E)], keywords=[]),
                            body=[ast.Raise()],
                            orelse=[],
                        )
                    ],
                )
            ],
            orelse=[],
            finalbody=[],
        )

    # -------------------------------------------------------------- statements
    def stmt(self, s, sc):
        pre = []
        infunc = sc.kind == "func"
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return [s]
        if isinstance(s, ast.FunctionDef):
            p, f = self.function(s, sc)
            return p + [f]
        if isinstance(s, ast.ClassDef):
            csc = Scope("class")
            body = []
            for x in s.body:
                body += self.plain_stmt(x, csc)
            s.decorator_list = [self.expr(d, pre, sc) for d in s.decorator_list]
            s.body = body or [ast.Pass()]
            return pre + [s]
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return []
            if infunc and isinstance(v, ast.Yield):
                val = self.expr(v.value, pre, sc) if v.value else const(None)
                return pre + [ast.Expr(rtcall("gyield", _name(sc.frame), val))]
            if infunc and isinstance(v, ast.YieldFrom):
                val = self.expr(v.value, pre, sc)
                return pre + [ast.Expr(rtcall("gyield_from", _name(sc.frame), val))]
            s.value = self.expr(v, pre, sc)
            return pre + [s]
        if isinstance(s, ast.Assign):
            val = self.expr(s.value, pre, sc)
            if len(s.targets) == 1:
                return pre + self.assign(s.targets[0], val, sc)
            t = self.fresh("t")
            out = pre + [ast.Assign(targets=[_name(t, ast.Store())], value=val)]
            for tg in s.targets:
                out += self.assign(tg, _name(t), sc)
            return out
        if isinstance(s, ast.AnnAssign):
            if not infunc:
                if s.value is not None:
                    s.value = self.expr(s.value, pre, sc)
                return pre + [s]
            if s.value is None:
                return []
            val = self.expr(s.value, pre, sc)
            return pre + self.assign(s.target, val, sc)
        if isinstance(s, ast.AugAssign):
            op = const(OPS[type(s.op)])
            val = self.expr(s.value, pre, sc)
            t = s.target
            if isinstance(t, ast.Name):
                return pre + [ast.Assign(targets=[_name(t.id, ast.Store())], value=rtcall("iop", op, _name(t.id), val))]
            o = self.expr(t.value, pre, sc)
            if isinstance(t, ast.Attribute):
                return pre + [ast.Expr(rtcall("aug_attr", o, const(t.attr), op, val))]
            k = self.slice(t.slice, pre, sc)
            return pre + [ast.Expr(rtcall("aug_item", o, k, op, val))]
        if isinstance(s, ast.Delete):
            out = []
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if infunc:
                        sc.snap.add(t.id)
                        out.append(ast.Assign(targets=[_name(t.id, ast.Store())], value=_attr(_name(RT), "UNDEF")))
                    else:
                        out.append(ast.Delete(targets=[t]))
                elif isinstance(t, ast.Subscript):
                    out.append(ast.Expr(rtcall("delitem", self.expr(t.value, pre, sc), self.slice(t.slice, pre, sc))))
                elif isinstance(t, ast.Attribute):
                    out.append(ast.Expr(rtcall("delattr", self.expr(t.value, pre, sc), const(t.attr))))
                else:
                    raise NotImplementedError("del target")
            return pre + out
        if isinstance(s, ast.Assert):
            c = self.expr(s.test, pre, sc)
            m = self.expr(s.msg, pre, sc) if s.msg else const(None)
            return pre + [ast.Expr(rtcall("assert_", c, m))]
        if isinstance(s, ast.Raise):
            if s.exc is None:
                return [s]
            e = self.expr(s.exc, pre, sc)
            c = self.expr(s.cause, pre, sc) if s.cause else None
            return pre + [ast.Raise(exc=e, cause=c)]
        if isinstance(s, ast.With):
            for it in s.items:
                it.context_expr = self.expr(it.context_expr, pre, sc)
                if it.optional_vars is not None and not isinstance(it.optional_vars, ast.Name):
                    raise NotImplementedError("with target")
            s.body = (self.block(s.body, sc) if infunc else s.body) or [ast.Pass()]
            return pre + [s]
        if not infunc:
            raise NotImplementedError(f"module-level {type(s).__name__}")
        if isinstance(s, ast.Return):
            val = self.expr(s.value, pre, sc) if s.value is not None else const(None)
            return pre + [
                ast.If(
                    test=rtcall("ret", _name(sc.frame), val),
                    body=[ast.Return(value=rtcall("leave_gen" if getattr(sc, "isgen", False) else "leave", _name(sc.frame)))],
                    orelse=[],
                )
            ]
        if isinstance(s, ast.If):
            return self.if_(s, sc)
        if isinstance(s, ast.For):
            return self.for_(s, sc)
        if isinstance(s, ast.While):
            return self.while_(s, sc)
        if isinstance(s, ast.Break):
            return [ast.If(test=ast.Call(func=_attr(_name(sc.loop), "brk"), args=[], keywords=[]), body=[ast.Break()], orelse=[])]
        if isinstance(s, ast.Continue):
            return [ast.Expr(ast.Call(func=_attr(_name(sc.loop), "cont"), args=[], keywords=[]))]
        if isinstance(s, ast.Try):
            return self.try_(s, sc)
        if isinstance(s, ast.Match):
            raise NotImplementedError("match statement")
        raise NotImplementedError(type(s).__name__)

    def assign(self, target, val, sc):
        if isinstance(target, ast.Name):
            return [ast.Assign(targets=[target], value=val)]
        if isinstance(target, ast.Attribute):
            pre = []
            o = self.expr(target.value, pre, sc)
            return pre + [ast.Expr(rtcall("setattr", o, const(target.attr), val))]
        if isinstance(target, ast.Subscript):
            pre = []
            # evaluation order: value first, then object and key
            t = self.fresh("t")
            o = self.expr(target.value, pre, sc)
            k = self.slice(target.slice, pre, sc)
            return [ast.Assign(targets=[_name(t, ast.Store())], value=val)] + pre + [ast.Expr(rtcall("setitem", o, k, _name(t)))]
        if isinstance(target, (ast.Tuple, ast.List)):
            t = self.fresh("t")
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            out = [ast.Assign(targets=[_name(t, ast.Store())], value=rtcall("unpack", val, const(n), const(star[0] if star else -1)))]
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                out += self.assign(e, ast.Subscript(value=_name(t), slice=const(i), ctx=ast.Load()), sc)
            return out
        raise NotImplementedError("assign target")

    def if_(self, s, sc):
        pre = []
        test = self.expr(s.test, pre, sc)
        B = self.fresh("b")
        names = stored_names(s.body + s.orelse)
        sc.snap.update(names)
        out = pre + [ast.Assign(targets=[_name(B, ast.Store())], value=rtcall("branch", test, _name(sc.loop) if sc.loop else const(None)))]
        S0, S1 = self.fresh("s"), self.fresh("s")
        if names:
            out.append(self.snap(S0, names))
        body = self.block(s.body, sc) or [ast.Pass()]
        out.append(ast.If(test=ast.Call(func=_attr(_name(B), "then"), args=[], keywords=[]), body=[self.guarded(body, B)], orelse=[]))
        if names:
            out.append(self.snap(S1, names))
            out.append(ast.If(test=ast.Call(func=_attr(_name(B), "is_sym"), args=[], keywords=[]), body=[self.restore(S0, names)], orelse=[]))
        orelse = self.block(s.orelse, sc) if s.orelse else []
        out.append(
            ast.If(
                test=ast.Call(func=_attr(_name(B), "other"), args=[], keywords=[]),
                body=[self.guarded(orelse, B)] if orelse else [ast.Pass()],
                orelse=[],
            )
        )
        out.append(ast.Expr(ast.Call(func=_attr(_name(B), "end"), args=[], keywords=[])))
        if names:
            # concrete then: S1 is current; merge() returns the right one
            cur = ast.Tuple(elts=[_name(n) for n in names], ctx=ast.Load())
            out.append(
                ast.Assign(
                    targets=[ast.Tuple(elts=[_name(n, ast.Store()) for n in names], ctx=ast.Store())],
                    value=ast.Call(func=_attr(_name(B), "merge"), args=[_name(S1), cur], keywords=[]),
                )
            )
        return out

    def loop_common(self, s, sc, L):
        names = stored_names(s.body + ([s.target] if isinstance(s, ast.For) else []))
        sc.snap.update(names)
        S0 = self.fresh("s")
        old = sc.loop
        sc.loop = L
        body = []
        if isinstance(s, ast.For):
            body += self.assign(s.target, ast.Call(func=_attr(_name(L), "value"), args=[], keywords=[]), sc)
        body += self.block(s.body, sc)
        sc.loop = old
        it = []
        if names:
            it.append(self.snap(S0, names))
        it.append(ast.If(test=ast.Call(func=_attr(_name(L), "then"), args=[], keywords=[]), body=[self.guarded_loop(body or [ast.Pass()], L)], orelse=[]))
        it.append(ast.Expr(ast.Call(func=_attr(_name(L), "iter_end"), args=[], keywords=[])))
        if names:
            it.append(self.merge_assign(names, L, None, S0))
        it.append(ast.If(test=ast.Call(func=_attr(_name(L), "stop"), args=[], keywords=[]), body=[ast.Break()], orelse=[]))
        return it

    def guarded_loop(self, body, L):
        return self.guarded(body, L)

    def loop_else(self, s, sc, L):
        out = [ast.Expr(ast.Call(func=_attr(_name(L), "end"), args=[], keywords=[]))]
        if s.orelse:
            R = self.fresh("r")
            names = stored_names(s.orelse)
            sc.snap.update(names)
            S0 = self.fresh("s")
            out.append(ast.Assign(targets=[_name(R, ast.Store())], value=ast.Call(func=_attr(_name(L), "else_region"), args=[], keywords=[])))
            if names:
                out.append(self.snap(S0, names))
            body = self.block(s.orelse, sc) or [ast.Pass()]
            out.append(ast.If(test=ast.Call(func=_attr(_name(R), "then"), args=[], keywords=[]), body=[self.guarded(body, R)], orelse=[]))
            out.append(ast.Expr(ast.Call(func=_attr(_name(R), "end"), args=[], keywords=[])))
            if names:
                out.append(self.merge_assign(names, R, None, S0))
        return out

    def for_(self, s, sc):
        pre = []
        it = self.expr(s.iter, pre, sc)
        L = self.fresh("l")
        out = pre + [ast.Assign(targets=[_name(L, ast.Store())], value=rtcall("for_loop", _name(sc.frame), it))]
        body = self.loop_common(s, sc, L)
        # a native break inside guarded code jumps out of this while
        out.append(ast.While(test=ast.Call(func=_attr(_name(L), "advance"), args=[], keywords=[]), body=body, orelse=[]))
        out += self.loop_else(s, sc, L)
        return out

    def while_(self, s, sc):
        pre = []
        test = self.expr(s.test, pre, sc)
        L = self.fresh("l")
        out = [ast.Assign(targets=[_name(L, ast.Store())], value=rtcall("while_loop", _name(sc.frame)))]
        body = self.loop_common(s, sc, L)
        out.append(
            ast.While(
                test=const(True),
                body=pre + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.Call(func=_attr(_name(L), "test"), args=[test], keywords=[])), body=[ast.Break()], orelse=[])] + body,
                orelse=[],
            )
        )
        out += self.loop_else(s, sc, L)
        return out

    def try_(self, s, sc):
        T = self.fresh("t")
        simple = (
            len(s.body) == 1
            and isinstance(s.body[0], (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Return, ast.AnnAssign))
            and not s.finalbody
            and not s.orelse
            and all(h.type is not None for h in s.handlers)
        )
        pre = []
        types = [self.expr(h.type, pre, sc) if h.type is not None else _name("Exception") for h in s.handlers]
        tnames = []
        out = list(pre)
        for t in types:
            tn = self.fresh("x")
            tnames.append(tn)
            out.append(ast.Assign(targets=[_name(tn, ast.Store())], value=rtcall("exc_type", t)))
        out.append(
            ast.Assign(
                targets=[_name(T, ast.Store())],
                value=rtcall("try_begin", _name(sc.frame), const(simple), ast.Tuple(elts=[_name(t) for t in tnames], ctx=ast.Load())),
            )
        )
        names = stored_names([s])
        sc.snap.update(names)
        S0, S1 = self.fresh("s"), self.fresh("s")
        if names:
            out.append(self.snap(S0, names))
        import copy

        hcopy = copy.deepcopy(s.handlers) if simple else []
        body = self.block(s.body, sc) or [ast.Pass()]
        body.append(ast.Expr(ast.Call(func=_attr(_name(T), "body_done"), args=[], keywords=[])))
        handlers = []
        for h, tn in zip(s.handlers, tnames):
            hb = [ast.Expr(ast.Call(func=_attr(_name(T), "unwind"), args=[], keywords=[]))]
            vn = h.name
            E = self.fresh("e")
            if vn:
                hb.append(ast.Assign(targets=[_name(vn, ast.Store())], value=_name(E)))
            hb += self.block(h.body, sc)
            handlers.append(ast.ExceptHandler(type=_name(tn), name=E, body=hb))
        orelse = self.block(s.orelse, sc) if s.orelse else []
        final = []
        if s.finalbody:
            final = [ast.Expr(ast.Call(func=_attr(_name(T), "final"), args=[], keywords=[]))] + self.block(s.finalbody, sc)
        if handlers or final:
            out.append(ast.Try(body=body, handlers=handlers, orelse=orelse, finalbody=final))
        else:
            out += body + orelse
        out.append(ast.Expr(ast.Call(func=_attr(_name(T), "end"), args=[], keywords=[])))
        if simple:
            for i, h in enumerate(hcopy):
                R = self.fresh("r")
                inner = [ast.Assign(targets=[_name(R, ast.Store())], value=ast.Call(func=_attr(_name(T), "pending_region"), args=[const(i)], keywords=[]))]
                if names:
                    inner.append(self.snap(S1, names))
                    inner.append(self.restore(S0, names))
                hb = []
                if h.name:
                    hb.append(ast.Assign(targets=[_name(h.name, ast.Store())], value=ast.Call(func=_attr(_name(T), "pending_exc"), args=[const(i)], keywords=[])))
                hb += self.block(h.body, sc)
                inner.append(ast.If(test=ast.Call(func=_attr(_name(R), "then"), args=[], keywords=[]), body=[self.guarded(hb or [ast.Pass()], R)], orelse=[]))
                inner.append(ast.Expr(ast.Call(func=_attr(_name(R), "end"), args=[], keywords=[])))
                if names:
                    inner.append(self.merge_assign(names, R, None, S1))
                out.append(ast.If(test=ast.Call(func=_attr(_name(T), "has_pending"), args=[const(i)], keywords=[]), body=inner, orelse=[]))
        return out

    # ------------------------------------------------------------- expressions
    def slice(self, e, pre, sc):
        if isinstance(e, ast.Slice):
            f = lambda x: const(None) if x is None else self.expr(x, pre, sc)
            return ast.Call(func=_attr(_name(RT), "slice_"), args=[f(e.lower), f(e.upper), f(e.step)], keywords=[])
        if isinstance(e, ast.Tuple):
            return ast.Tuple(elts=[self.slice(x, pre, sc) for x in e.elts], ctx=ast.Load())
        return self.expr(e, pre, sc)

    def thunk(self, e, pre, sc):
        """A zero-argument callable evaluating e later."""
        sub = []
        nonlocals = [n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)]
        x = self.expr(e, sub, sc)
        if not sub and not nonlocals:
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=x
            )
        name = self.fresh("h")
        body = sub + [ast.Return(value=x)]
        if nonlocals and sc.kind == "func":
            sc.snap.update(nonlocals)
            body = [ast.Nonlocal(names=sorted(set(nonlocals)))] + body
        pre.append(
            ast.FunctionDef(
                name=name,
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=body, decorator_list=[], returns=None, type_params=[],
            )
        )
        return _name(name)

    def expr(self, e, pre, sc):
        if e is None:
            return None
        if isinstance(e, (ast.Constant, ast.Name)):
            return e
        ex = lambda x: self.expr(x, pre, sc)
        if isinstance(e, ast.Attribute):
            e.value = ex(e.value)
            return rtcall("getattr", e.value, const(e.attr))
        if isinstance(e, ast.Subscript):
            o = ex(e.value)
            return rtcall("getitem", o, self.slice(e.slice, pre, sc))
        if isinstance(e, ast.BinOp):
            return rtcall("bop", const(OPS[type(e.op)]), ex(e.left), ex(e.right))
        if isinstance(e, ast.UnaryOp):
            v = ex(e.operand)
            if isinstance(e.op, ast.Not):
                return rtcall("not_", v)
            return rtcall("uop", const({ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]), v)
        if isinstance(e, ast.BoolOp):
            fn = "and_" if isinstance(e.op, ast.And) else "or_"
            first = ex(e.values[0])
            cur = first
            return rtcall(fn, cur, *[self.thunk(v, pre, sc) for v in e.values[1:]])
        if isinstance(e, ast.Compare):
            left = ex(e.left)
            if len(e.ops) == 1:
                return rtcall("cmp", const(CMPS[type(e.ops[0])]), left, ex(e.comparators[0]))
            ops = ast.Tuple(elts=[const(CMPS[type(o)]) for o in e.ops], ctx=ast.Load())
            return rtcall("cmp_chain", ops, left, *[ex(c) for c in e.comparators])
        if isinstance(e, ast.IfExp):
            return rtcall("ifexp", ex(e.test), self.thunk(e.body, pre, sc), self.thunk(e.orelse, pre, sc))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
                return e
            if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
                return e
            f = ex(e.func)
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    args.append(ast.Starred(value=rtcall("star", ex(a.value)), ctx=ast.Load()))
                else:
                    args.append(ex(a))
            kws = [ast.keyword(arg=k.arg, value=ex(k.value)) for k in e.keywords]
            return ast.Call(func=_attr(_name(RT), "call"), args=[f] + args, keywords=kws)
        if isinstance(e, ast.List):
            elts = [ast.Starred(value=rtcall("star", ex(x.value)), ctx=ast.Load()) if isinstance(x, ast.Starred) else ex(x) for x in e.elts]
            return rtcall("mklist", *elts)
        if isinstance(e, ast.Tuple):
            e.elts = [ast.Starred(value=rtcall("star", ex(x.value)), ctx=ast.Load()) if isinstance(x, ast.Starred) else ex(x) for x in e.elts]
            return e
        if isinstance(e, ast.Set):
            return rtcall("mkset", *[ex(x) for x in e.elts])
        if isinstance(e, ast.Dict):
            pairs = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    pairs.append(ast.Tuple(elts=[_attr(_name(RT), "DSTAR"), ex(v)], ctx=ast.Load()))
                else:
                    pairs.append(ast.Tuple(elts=[ex(k), ex(v)], ctx=ast.Load()))
            return rtcall("mkdict", *pairs)
        if isinstance(e, ast.JoinedStr):
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(v)
                else:
                    spec = ex(v.format_spec) if v.format_spec is not None else const("")
                    parts.append(rtcall("fmt", ex(v.value), const(v.conversion), spec))
            return rtcall("joinstr", *parts)
        if isinstance(e, ast.Lambda):
            name = self.fresh("h")
            fn = ast.FunctionDef(name=name, args=e.args, body=[ast.Return(value=e.body)], decorator_list=[], returns=None, type_params=[])
            p, f = self.function(fn, sc)
            pre += p
            pre.append(f)
            return _name(name)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, pre, sc)
        if isinstance(e, ast.NamedExpr):
            sc.snap.add(e.target.id)
            e.value = ex(e.value)
            return e
        if isinstance(e, ast.Starred):
            return ast.Starred(value=rtcall("star", ex(e.value)), ctx=ast.Load())
        if isinstance(e, ast.Slice):
            return self.slice(e, pre, sc)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            raise NotImplementedError("yield as expression")
        raise NotImplementedError(type(e).__name__)

    def comp(self, e, pre, sc):
        name = self.fresh("h")
        first = self.expr(e.generators[0].iter, pre, sc)
        arg = self.fresh("a")
        if isinstance(e, ast.DictComp):
            elt = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        else:
            elt = e.elt
        body = [ast.Expr(ast.Yield(value=elt))]
        gens = e.generators
        for i in reversed(range(len(gens))):
            g = gens[i]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=_name(arg) if i == 0 else g.iter, body=body, orelse=[])]
        fn = ast.FunctionDef(
            name=name,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[], returns=None, type_params=[],
        )
        p, f = self.function(fn, sc)
        pre += p
        pre.append(f)
        kind = {ast.ListComp: "complist", ast.SetComp: "compset", ast.GeneratorExp: "compgen", ast.DictComp: "compdict"}[type(e)]
        return rtcall(kind, ast.Call(func=_name(name), args=[first], keywords=[]))


STUBS = {"rich": "harness.richstub", "altair": "harness.altstub", "jinja2": "harness.jinjastub"}
_DEFINED = {}


def _stub_names(stub):
    """what a stand-in module defines"""
    if stub not in _DEFINED:
        fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *stub.split(".")) + ".py"
        with open(fn) as f:
            _DEFINED[stub] = set(stored_names(ast.parse(f.read()).body))
    return _DEFINED[stub]


class _Redirect(ast.NodeTransformer):
    """display libraries are replaced by stand-ins that keep their content"""

    def visit_ImportFrom(self, n):
        stub = STUBS.get((n.module or "").split(".")[0]) if n.level == 0 else None
        if stub is None:
            return n
        have = _stub_names(stub)
        out = []
        for names, mod in (([a for a in n.names if a.name in have], stub), ([a for a in n.names if a.name not in have], n.module)):
            if names:
                out.append(ast.copy_location(ast.ImportFrom(module=mod, names=names, level=0), n))
        return out

    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name in STUBS and a.name != "rich":
                new = ast.Import(names=[ast.alias(name=STUBS[a.name], asname=a.asname)]) if a.asname else ast.ImportFrom(
                    module=STUBS[a.name].rpartition(".")[0], names=[ast.alias(name=STUBS[a.name].rpartition(".")[2], asname=a.name)], level=0)
                out.append(ast.copy_location(new, n))
            else:
                out.append(ast.copy_location(ast.Import(names=[a]), n))
        return out


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    if modname not in STUBS.values():
        tree = ast.fix_missing_locations(_Redirect().visit(tree))
    # remember source lines of every function for evidence
    x = Xform(modname)
    m = x.module(tree)
    return compile(m, filename, "exec"), x
