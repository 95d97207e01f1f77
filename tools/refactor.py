#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the package's source, and which checks raise an alarm on them.

    python3 -m tools.refactor [--root DIR] [--each] [--write DIR] [name ...]

Every rewrite is applied to all functions at once (--each: to one function at a time) in memory; all rules then
run on the result.  A report here is a false alarm to repair.  --write leaves the rewritten tree on disk, so that the
repository's own tests can confirm that a rewrite keeps the behaviour.
"""
import argparse
import ast
import copy
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

PURE = (ast.Name, ast.Constant)
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def pure(e):
    if isinstance(e, PURE):
        return True
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    return False


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(op=ast.Not(), operand=e)


def walk_scope(node):
    """nodes of this function only"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPES):
            todo.extend(ast.iter_child_nodes(n))


class Base(ast.NodeTransformer):
    """rewrites statement lists of one function (nested functions are left alone unless they are visited themselves)"""

    def __init__(self):
        self.n = 0
        self.changed = 0
        self.extra = []          # functions to add to the enclosing class / module

    def fresh(self, p='tmp'):
        self.n += 1
        return '%s_%s_%d' % (p, type(self).__name__.lower(), self.n)

    def func(self, fn):
        self.fn = fn
        fn.body = self.block(fn.body, True)

    def block(self, stmts, tail=False):
        out = []
        for s in stmts:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, SCOPES):
                    setattr(s, f, self.block(b))
            for h in getattr(s, 'handlers', []):
                h.body = self.block(h.body)
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return self.whole(out, tail)

    def stmt(self, s):
        return s

    def whole(self, stmts, tail):
        return stmts


class RenameLocals(Base):
    def func(self, fn):
        stored = set()
        skip = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
            if isinstance(n, SCOPES) and n is not fn and hasattr(n, 'name'):
                skip.add(n.name)
                if isinstance(n, ast.ClassDef):
                    for m in n.body:
                        for x in ast.walk(m):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                skip.add(x.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                skip.add(n.name)
        ren = {s: s + '_renamed' for s in stored - skip}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]
                self.changed += 1


class ReturnTemp(Base):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, PURE):
            t = self.fresh('result')
            self.changed += 1
            return [ast.Assign(targets=[name(t, ast.Store())], value=s.value), ast.Return(value=name(t))]
        return s


class AssignTemp(Base):
    """self.x = E  ->  t = E; self.x = t"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)) \
                and not isinstance(s.value, PURE):
            if isinstance(s.targets[0], ast.Subscript) and not (pure(s.targets[0].value) and pure(s.targets[0].slice)):
                return s
            t = self.fresh('value')
            self.changed += 1
            return [ast.Assign(targets=[name(t, ast.Store())], value=s.value),
                    ast.Assign(targets=s.targets, value=name(t))]
        return s


class ArgTemp(Base):
    """f(E1, E2) -> a = E1; b = E2; f(a, b)  for call statements and assignments whose function is a plain path"""
    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(s, ast.Assign) and not all(isinstance(t, ast.Name) or pure(t) for t in s.targets):
            return s
        if isinstance(c, ast.Call) and pure(c.func) and not (isinstance(c.func, ast.Name) and c.func.id == 'super') \
                and not any(isinstance(a, ast.Starred) for a in c.args) and all(k.arg for k in c.keywords):
            pre = []
            for h in list(c.args) + [k.value for k in c.keywords]:
                if isinstance(h, (ast.GeneratorExp, ast.Lambda)) or isinstance(h, ast.Constant):
                    continue
                if isinstance(h, ast.Name):
                    continue
                t = self.fresh('arg')
                pre.append(ast.Assign(targets=[name(t, ast.Store())], value=copy.deepcopy(h)))
                for i, a in enumerate(c.args):
                    if a is h:
                        c.args[i] = name(t)
                for k in c.keywords:
                    if k.value is h:
                        k.value = name(t)
            if pre:
                self.changed += 1
                return pre + [s]
        return s


class ReceiverTemp(Base):
    """a.b.c(...) -> r = a.b; r.c(...)"""
    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Attribute) \
                and pure(c.func.value) and (not isinstance(s, ast.Assign) or all(isinstance(t, ast.Name) for t in s.targets)):
            t = self.fresh('receiver')
            pre = ast.Assign(targets=[name(t, ast.Store())], value=c.func.value)
            c.func = ast.Attribute(value=name(t), attr=c.func.attr, ctx=ast.Load())
            self.changed += 1
            return [pre, s]
        return s


class InvertIf(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            self.changed += 1
            return ast.If(test=negate(s.test), body=s.orelse, orelse=s.body)
        return s


class CondTemp(Base):
    """if E: -> c = E; if c:"""
    def whole(self, stmts, tail):
        out = []
        for s in stmts:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                t = self.fresh('cond')
                out.append(ast.Assign(targets=[name(t, ast.Store())], value=s.test))
                s.test = name(t)
                self.changed += 1
            out.append(s)
        return out


class Guard(Base):
    """a final 'if c: A' of a function or a loop body becomes an early exit"""
    def func(self, fn):
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(fn))
        fn.body = self.block(fn.body)
        if not gen:
            fn.body = self.early(fn.body, ast.Return(value=None))

    def early(self, b, exit):
        s = b[-1]
        if isinstance(s, ast.If) and not s.orelse:
            self.changed += 1
            return b[:-1] + [ast.If(test=negate(s.test), body=[exit], orelse=[])] + s.body
        return b

    def stmt(self, s):
        if isinstance(s, (ast.For, ast.While)):
            s.body = self.early(s.body, ast.Continue())
        return s


class NestGuard(Base):
    """if c: return/continue/raise; rest  ->  if c: ... else: rest"""
    def whole(self, stmts, tail):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)) \
                    and i + 1 < len(stmts):
                self.changed += 1
                s.orelse = self.whole(stmts[i + 1:], tail)
                return stmts[:i + 1]
        return stmts


class ElseAfterExit(Base):
    """if c: ...; raise  else: B  ->  if c: ...raise; B"""
    def whole(self, stmts, tail):
        out = []
        for s in stmts:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)):
                rest, s.orelse = s.orelse, []
                out.extend(rest)
                self.changed += 1
        return out


class NestedIf(Base):
    """if a and b: -> if a: if b:"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            self.changed += 1
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(test=t, body=b, orelse=[])]
            return b
        return s


class JoinIf(Base):
    """if a: if b: X -> if a and b: X"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) \
                and not s.body[0].orelse:
            self.changed += 1
            return ast.If(test=ast.BoolOp(op=ast.And(), values=[s.test, s.body[0].test]), body=s.body[0].body, orelse=[])
        return s


class DeMorgan(Base):
    def stmt(self, s):
        if isinstance(s, ast.If):
            if isinstance(s.test, ast.BoolOp):
                op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
                s.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[negate(v) for v in s.test.values]))
                self.changed += 1
            elif isinstance(s.test, ast.Compare) and len(s.test.ops) == 1:
                inv = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
                       ast.IsNot: ast.Is}
                k = inv.get(type(s.test.ops[0]))
                if k:
                    self.changed += 1
                    s.test = ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=s.test.left, ops=[k()],
                                                                         comparators=s.test.comparators))
        return s


class FlipCompare(Base):
    """a < b -> b > a"""
    FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def stmt(self, s):
        fields = [f for f in ('test', 'value') if isinstance(getattr(s, f, None), ast.AST)]
        for f in fields:
            for n in ast.walk(getattr(s, f)):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in self.FL:
                    n.left, n.comparators[0] = n.comparators[0], n.left
                    n.ops[0] = self.FL[type(n.ops[0])]()
                    self.changed += 1
        return s


class UnComp(Base):
    """a comprehension assigned or returned or passed to one call becomes a loop"""
    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Return)) or s.value is None:
            return s
        v = s.value
        holder = None
        if isinstance(v, ast.Call) and len(v.args) >= 1 and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) \
                and isinstance(v.func, (ast.Name, ast.Attribute)) and pure(v.func) \
                and not (isinstance(v.args[0], ast.GeneratorExp) and getattr(v.func, 'id', '') in ('any', 'all', 'next')):
            holder, comp = v, v.args[0]
        elif isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
            comp = v
        else:
            return s
        used = {n.id for n in ast.walk(self.fn) if isinstance(n, ast.Name)}
        ren = {}
        for g in comp.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    ren[n.id] = n.id + '_it'
        comp = copy.deepcopy(comp)
        first = comp.generators[0].iter
        for part in [comp]:
            for n in ast.walk(part):
                if isinstance(n, ast.Name) and n.id in ren:
                    n.id = ren[n.id]
        t = self.fresh('items')
        if isinstance(comp, ast.DictComp):
            init = ast.Dict(keys=[], values=[])
            add = ast.Assign(targets=[ast.Subscript(value=name(t), slice=comp.key, ctx=ast.Store())], value=comp.value)
        elif isinstance(comp, ast.SetComp):
            init = ast.Call(func=name('set'), args=[], keywords=[])
            add = ast.Expr(ast.Call(func=ast.Attribute(value=name(t), attr='add', ctx=ast.Load()), args=[comp.elt], keywords=[]))
        else:
            init = ast.List(elts=[], ctx=ast.Load())
            add = ast.Expr(ast.Call(func=ast.Attribute(value=name(t), attr='append', ctx=ast.Load()), args=[comp.elt], keywords=[]))
        b = [add]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                b = [ast.If(test=c, body=b, orelse=[])]
            b = [ast.For(target=g.target, iter=g.iter, body=b, orelse=[])]
        self.changed += 1
        if holder is not None:
            holder.args[0] = name(t)
        else:
            s.value = name(t)
        return [ast.Assign(targets=[name(t, ast.Store())], value=init)] + b + [s]


class ToComp(Base):
    """x = []; for v in xs: x.append(e)  ->  x = [e for v in xs]"""
    def whole(self, stmts, tail):
        out = []
        i = 0
        while i < len(stmts):
            s = stmts[i]
            n = stmts[i + 1] if i + 1 < len(stmts) else None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) \
                    and isinstance(s.value, (ast.List, ast.Dict)) and not getattr(s.value, 'elts', getattr(s.value, 'keys', None)) \
                    and isinstance(n, ast.For) and not n.orelse and len(n.body) == 1:
                b = n.body[0]
                ifs = []
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs = [b.test]
                    b = b.body[0]
                tgt = ast.unparse(s.targets[0])
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and ast.unparse(b.value.func) == tgt + '.append' \
                        and tgt not in ast.unparse(b.value.args[0]):
                    g = ast.comprehension(target=n.target, iter=n.iter, ifs=ifs, is_async=0)
                    out.append(ast.Assign(targets=s.targets, value=ast.ListComp(elt=b.value.args[0], generators=[g])))
                    self.changed += 1
                    i += 2
                    continue
                if isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Subscript) and len(b.targets) == 1 \
                        and ast.unparse(b.targets[0].value) == tgt and tgt not in ast.unparse(b.value):
                    g = ast.comprehension(target=n.target, iter=n.iter, ifs=ifs, is_async=0)
                    out.append(ast.Assign(targets=s.targets, value=ast.DictComp(key=b.targets[0].slice, value=b.value,
                                                                             generators=[g])))
                    self.changed += 1
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class Enumerate(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') in
                                           ('enumerate', 'range', 'zip')):
            t = self.fresh('pos')
            s.target = ast.Tuple(elts=[name(t, ast.Store()), s.target], ctx=ast.Store())
            s.iter = ast.Call(func=name('enumerate'), args=[s.iter], keywords=[])
            self.changed += 1
        return s


class ListLoop(Base):
    """for x in e -> for x in list(e)"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') == 'range'):
            s.iter = ast.Call(func=name('list'), args=[s.iter], keywords=[])
            self.changed += 1
        return s


class ItemsToKeys(Base):
    """for k, v in d.items(): -> for k in d.keys(): v = d[k]"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) \
                and s.iter.func.attr == 'items' and pure(s.iter.func.value) and isinstance(s.target, ast.Tuple) \
                and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) \
                and not any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == s.target.elts[0].id
                            for b in s.body for n in ast.walk(b)):
            d = s.iter.func.value
            k, v = s.target.elts
            s.target = k
            s.iter.func.attr = 'keys'
            s.body = [ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=name(k.id), ctx=ast.Load()))] + s.body
            self.changed += 1
        return s


class LoopTemp(Base):
    """for x in E: -> xs = E; for x in xs:"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            t = self.fresh('seq')
            pre = ast.Assign(targets=[name(t, ast.Store())], value=s.iter)
            s.iter = name(t)
            self.changed += 1
            return [pre, s]
        return s


class UnpackLater(Base):
    """for a, b in E: -> for p in E: a, b = p"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            t = self.fresh('pair')
            s.body = [ast.Assign(targets=[s.target], value=name(t))] + s.body
            s.target = name(t, ast.Store())
            self.changed += 1
        return s


class IfExpToIf(Base):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            v = s.value
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = v.body, v.orelse
            self.changed += 1
            return ast.If(test=v.test, body=[a], orelse=[b])
        return s


class IfToIfExp(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(ast.Module(a.targets, [])) == \
                    ast.dump(ast.Module(b.targets, [])):
                self.changed += 1
                return ast.Assign(targets=a.targets, value=ast.IfExp(test=s.test, body=a.value, orelse=b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                self.changed += 1
                return ast.Return(value=ast.IfExp(test=s.test, body=a.value, orelse=b.value))
        return s


class SplitUnpack(Base):
    """a, b = x, y -> separate; a = b = x -> separate"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) > 1 and isinstance(s.value, PURE):
            self.changed += 1
            return [ast.Assign(targets=[t], value=copy.deepcopy(s.value)) for t in s.targets]
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call):
            t = self.fresh('tup')
            self.changed += 1
            return [ast.Assign(targets=[name(t, ast.Store())], value=s.value)] + \
                   [ast.Assign(targets=[e], value=ast.Subscript(value=name(t), slice=ast.Constant(i), ctx=ast.Load()))
                    for i, e in enumerate(s.targets[0].elts)]
        return s


class AugPlain(Base):
    """x += e -> x = x + e for counters"""
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and (pure(s.target)):
            self.changed += 1
            l = copy.deepcopy(s.target)
            l.ctx = ast.Load()
            return ast.Assign(targets=[s.target], value=ast.BinOp(left=l, op=s.op, right=s.value))
        return s


class PlainAug(Base):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and pure(s.targets[0]) and isinstance(s.value, ast.BinOp) \
                and ast.unparse(s.value.left) == ast.unparse(s.targets[0]) and isinstance(s.value.right, ast.Constant):
            self.changed += 1
            return ast.AugAssign(target=s.targets[0], op=s.value.op, value=s.value.right)
        return s


class SwapIndependent(Base):
    """two neighbouring assignments to different plain targets whose values are plain paths, constants or displays"""
    def simple(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and (isinstance(s.targets[0], ast.Name) or (
                isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name))):
            v = s.value
            if isinstance(v, (ast.Constant, ast.Name)) or (isinstance(v, (ast.List, ast.Dict, ast.Tuple)) and not any(
                    isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) for n in ast.walk(v))) or \
                    (isinstance(v, ast.Attribute) and pure(v)):
                return True
        return False

    def whole(self, stmts, tail):
        i = 0
        while i + 1 < len(stmts):
            a, b = stmts[i], stmts[i + 1]
            if self.simple(a) and self.simple(b):
                ta, tb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
                na = {ast.unparse(n) for n in ast.walk(b) if isinstance(n, (ast.Name, ast.Attribute))}
                nb = {ast.unparse(n) for n in ast.walk(a) if isinstance(n, (ast.Name, ast.Attribute))}
                if ta not in na and tb not in nb and ta != tb:
                    stmts[i], stmts[i + 1] = b, a
                    self.changed += 1
                    i += 2
                    continue
            i += 1
        return stmts


class FString(Base):
    """f'..' -> '..'.format(..)"""
    def func(self, fn):
        o = self

        class V(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                fmt, args = '', []
                for v in n.values:
                    if isinstance(v, ast.Constant):
                        fmt += v.value.replace('{', '{{').replace('}', '}}')
                    elif v.format_spec is None and v.conversion == -1:
                        fmt += '{}'
                        args.append(v.value)
                    else:
                        return n
                o.changed += 1
                return ast.Call(func=ast.Attribute(value=ast.Constant(fmt), attr='format', ctx=ast.Load()), args=args, keywords=[])
        V().visit(fn)


class ToFString(Base):
    """'a{}b'.format(x), x + 'lit' -> f-string"""
    def func(self, fn):
        o = self

        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) \
                        and isinstance(n.func.value.value, str) and not n.keywords:
                    parts = n.func.value.value.split('{}')
                    if len(parts) == len(n.args) + 1 and not any('{' in p or '}' in p for p in parts):
                        vals = []
                        for i, p in enumerate(parts):
                            if p:
                                vals.append(ast.Constant(p))
                            if i < len(n.args):
                                vals.append(ast.FormattedValue(value=n.args[i], conversion=-1))
                        o.changed += 1
                        return ast.JoinedStr(values=vals)
                return n

            def visit_BinOp(self, n):
                self.generic_visit(n)
                if isinstance(n.op, ast.Add):
                    l, r = n.left, n.right
                    if isinstance(r, ast.Constant) and isinstance(r.value, str) and not isinstance(l, ast.Constant):
                        o.changed += 1
                        return ast.JoinedStr(values=[ast.FormattedValue(value=l, conversion=-1), r])
                return n
        V().visit(fn)


class ExtractBody(Base):
    """a loop body or branch without exits becomes a private helper"""
    def func(self, fn):
        self.fn = fn
        if self.cls is None or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')
                                   for d in fn.decorator_list):
            return
        if not fn.args.args or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
            return
        self.selfname = fn.args.args[0].arg
        self.locals = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | \
            {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a} | \
            {n.id for n in walk_scope(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {n.name for n in walk_scope(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        fn.body = self.block(fn.body)

    def stmt(self, s):
        if isinstance(s, ast.For) and self.ok(s.body, s):
            s.body = self.pull(s.body)
        elif isinstance(s, ast.If):
            if len(s.body) > 0 and self.ok(s.body, s):
                s.body = self.pull(s.body)
        return s

    def ok(self, body, holder):
        if len(body) == 1 and isinstance(body[0], (ast.Expr, ast.Assign)) and len(ast.unparse(body[0])) < 30:
            return False
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp,
                                  ast.DictComp, ast.ClassDef, ast.Try)):
                    return False
                if isinstance(n, ast.Name) and n.id == 'super':
                    return False
        stored = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        inside = {id(n) for b in body for n in ast.walk(b)}
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Name) and n.id in stored and id(n) not in inside:
                return False
        return True

    def pull(self, body):
        stored = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        used = sorted({n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name)} & self.locals - stored - {self.selfname})
        h = '_%s_part_%d' % (self.fn.name.strip('_'), len(self.extra) + 1)
        self.extra.append(ast.FunctionDef(name=h, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=self.selfname)] + [ast.arg(arg=u) for u in used], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[], type_params=[]))
        self.changed += 1
        return [ast.Expr(ast.Call(func=ast.Attribute(value=name(self.selfname), attr=h, ctx=ast.Load()),
                                  args=[name(u) for u in used], keywords=[]))]


class ExtractExpr(Base):
    """self.x = E (a call or an expression with calls)  ->  self.x = self._helper(..)"""
    func_ok = ExtractBody.func

    def func(self, fn):
        ExtractBody.func(self, fn)

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not isinstance(s.value, PURE) \
                and not pure(s.value) and len(ast.unparse(s.value)) > 25 \
                and not any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Yield))
                            or isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(s.value)):
            used = sorted({n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)} & self.locals - {self.selfname})
            h = '_%s_value_%d' % (self.fn.name.strip('_'), len(self.extra) + 1)
            self.extra.append(ast.FunctionDef(name=h, args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=self.selfname)] + [ast.arg(arg=u) for u in used], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=[ast.Return(value=s.value)], decorator_list=[], type_params=[]))
            s.value = ast.Call(func=ast.Attribute(value=name(self.selfname), attr=h, ctx=ast.Load()),
                               args=[name(u) for u in used], keywords=[])
            self.changed += 1
        return s


class ExtractCond(Base):
    """if E: -> if self._cond(..):"""
    def func(self, fn):
        ExtractBody.func(self, fn)

    def stmt(self, s):
        if isinstance(s, ast.If) and not pure(s.test) \
                and not any(isinstance(n, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))
                            or isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(s.test)):
            used = sorted({n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)} & self.locals - {self.selfname})
            h = '_%s_test_%d' % (self.fn.name.strip('_'), len(self.extra) + 1)
            self.extra.append(ast.FunctionDef(name=h, args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=self.selfname)] + [ast.arg(arg=u) for u in used], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=[ast.Return(value=s.test)], decorator_list=[], type_params=[]))
            s.test = ast.Call(func=ast.Attribute(value=name(self.selfname), attr=h, ctx=ast.Load()),
                              args=[name(u) for u in used], keywords=[])
            self.changed += 1
        return s


class Delegate(Base):
    """the whole body moves to a private method"""
    def func(self, fn):
        if self.cls is None or fn.decorator_list or fn.name == '__init__' or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs \
                or not fn.args.args or fn.name.startswith('__'):
            return
        if any(isinstance(n, ast.Name) and n.id in ('super', '__class__') for n in ast.walk(fn)):
            return
        h = '_do_' + fn.name.rstrip('_')
        g = copy.deepcopy(fn)
        g.name = h
        g.args.defaults = []
        self.extra.append(g)
        ps = [a.arg for a in fn.args.args]
        doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
        fn.body = doc + [ast.Return(value=ast.Call(func=ast.Attribute(value=name(ps[0]), attr=h, ctx=ast.Load()),
                                                   args=[name(p) for p in ps[1:]], keywords=[]))]
        self.changed += 1


class Noise(Base):
    """statements that do nothing"""
    def func(self, fn):
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body[i:i] = ast.parse('_unused = 0\nif False:\n    _unused = 1\nassert True').body
        self.changed += 1


class Getattr(Base):
    """if x: return True; return False  /  literal displays: [] -> list(), {} -> dict()"""
    def func(self, fn):
        o = self

        class V(ast.NodeTransformer):
            def visit_List(self, n):
                self.generic_visit(n)
                if not n.elts and isinstance(n.ctx, ast.Load):
                    o.changed += 1
                    return ast.Call(func=name('list'), args=[], keywords=[])
                return n

            def visit_Dict(self, n):
                self.generic_visit(n)
                if not n.keys:
                    o.changed += 1
                    return ast.Call(func=name('dict'), args=[], keywords=[])
                return n
        fn.body = [V().visit(s) for s in fn.body]


class InstanceSplit(Base):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B); x in (a, b) -> x == a or x == b"""
    def func(self, fn):
        o = self

        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple) and pure(n.args[0]):
                    o.changed += 1
                    return ast.BoolOp(op=ast.Or(), values=[ast.Call(func=name('isinstance'), args=[copy.deepcopy(n.args[0]), t],
                                                                    keywords=[]) for t in n.args[1].elts])
                return n

            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) \
                        and pure(n.left) and n.comparators[0].elts:
                    o.changed += 1
                    return ast.BoolOp(op=ast.Or(), values=[ast.Compare(left=copy.deepcopy(n.left), ops=[ast.Eq()], comparators=[t])
                                                           for t in n.comparators[0].elts])
                return n
        fn.body = [V().visit(s) for s in fn.body]


class LambdaDef(Base):
    """x = lambda a: E / f(lambda a: E) -> nested def"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and s.value is not None:
            pre = []
            o = self

            class V(ast.NodeTransformer):
                def visit_Lambda(self, n):
                    t = o.fresh('fn')
                    o.changed += 1
                    pre.append(ast.FunctionDef(name=t, args=n.args, body=[ast.Return(value=n.body)], decorator_list=[], type_params=[]))
                    return name(t)

                def visit_ListComp(self, n):
                    return n
                visit_GeneratorExp = visit_DictComp = visit_ListComp
            s.value = V().visit(s.value)
            return pre + [s]
        return s


class WhileLoop(Base):
    """for x in E: -> it = iter over an index of list(E)"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and not any(isinstance(n, ast.Continue) for n in ast.walk(s)) and not (
                isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') in ('range', 'enumerate', 'zip')):
            q, i = self.fresh('seq'), self.fresh('k')
            self.changed += 1
            return [ast.Assign(targets=[name(q, ast.Store())], value=ast.Call(func=name('list'), args=[s.iter], keywords=[])),
                    ast.For(target=name(i, ast.Store()), iter=ast.Call(func=name('range'), args=[
                        ast.Call(func=name('len'), args=[name(q)], keywords=[])], keywords=[]),
                        body=[ast.Assign(targets=[s.target], value=ast.Subscript(value=name(q), slice=name(i), ctx=ast.Load()))] + s.body,
                        orelse=[])]
        return s


class BoolReturn(Base):
    """return a in b (comparison) -> if a in b: return True; return False"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare):
            self.changed += 1
            return [ast.If(test=s.value, body=[ast.Return(value=ast.Constant(True))], orelse=[]), ast.Return(value=ast.Constant(False))]
        return s


class KwDict(Base):
    """positional arguments of calls to methods of the package become keyword arguments"""
    def func(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == 'self' and self.cls is not None and not any(isinstance(a, ast.Starred) for a in n.args):
                m = next((x for x in self.cls.body if isinstance(x, ast.FunctionDef) and x.name == n.func.attr), None)
                if m is None or m.args.vararg or m.args.posonlyargs or any(
                        isinstance(d, ast.Name) and d.id in ('staticmethod', 'property') for d in m.decorator_list):
                    continue
                ps = [a.arg for a in m.args.args][1:]
                if len(n.args) > len(ps) or not n.args:
                    continue
                n.keywords = [ast.keyword(arg=p, value=a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []
                self.changed += 1


class AndTrailing(Base):
    """x.append(e) -> x += [e] on plain local or attribute lists; d.update({k: v}) style left alone"""
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and s.value.func.attr == 'append' and pure(s.value.func.value) and len(s.value.args) == 1:
            self.changed += 1
            return ast.Expr(ast.Call(func=ast.Attribute(value=s.value.func.value, attr='extend', ctx=ast.Load()),
                                     args=[ast.List(elts=s.value.args, ctx=ast.Load())], keywords=[]))
        return s


class HoistSelf(Base):
    """self.a read more than once in a statement-free-of-stores function -> local alias at its first use"""
    def func(self, fn):
        if not fn.args.args:
            return
        me = fn.args.args[0].arg
        if me != 'self':
            return
        cnt, bad = {}, set()
        calls = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if isinstance(n.ctx, ast.Store):
                    bad.add(n.attr)
                cnt[n.attr] = cnt.get(n.attr, 0) + 1
        # only attributes used as a receiver of container methods or subscripts everywhere: the object is not replaced
        ok = [a for a, c in cnt.items() if c > 1 and a not in bad and a in self.stable]
        if not ok or calls or fn.name == '__init__':
            return
        pre = []
        for a in sorted(ok):
            t = 'local_' + a.strip('_')
            for n in ast.walk(fn):
                pass

            class V(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    self.generic_visit(n)
                    if isinstance(n.value, ast.Name) and n.value.id == me and n.attr == a:
                        return name(t)
                    return n
            fn.body = [V().visit(s) for s in fn.body]
            pre.append(ast.Assign(targets=[name(t, ast.Store())],
                                  value=ast.Attribute(value=name(me), attr=a, ctx=ast.Load())))
            self.changed += 1
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body[i:i] = pre


class UpdateToSet(Base):
    """d.update({k: v}) -> d[k] = v"""
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and s.value.func.attr == 'update' and len(s.value.args) == 1 and not s.value.keywords \
                and isinstance(s.value.args[0], ast.Dict) and all(s.value.args[0].keys):
            d = s.value.args[0]
            if len(d.keys) > 1:
                return s
            self.changed += 1
            return [ast.Assign(targets=[ast.Subscript(value=s.value.func.value, slice=k, ctx=ast.Store())], value=v, lineno=0)
                    for k, v in zip(d.keys, d.values)]
        return s


class ExprRewrite(Base):
    """one expression after the other"""
    def expr(self, n):
        return n

    def func(self, fn):
        me = self

        class V(ast.NodeTransformer):
            def generic_visit(self, n):
                super().generic_visit(n)
                return me.expr(n) if isinstance(n, ast.expr) else n
        fn.body = [V().visit(s) for s in fn.body]


class KeysIn(ExprRewrite):
    """k in d.keys() -> k in d; for k in d.keys() likewise"""
    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = n.comparators[0]
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys' and not c.args:
                n.comparators = [c.func.value]
                self.changed += 1
        return n


class NotIn(ExprRewrite):
    """not x in y -> x not in y, and back"""
    def expr(self, n):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) \
                and len(n.operand.ops) == 1 and isinstance(n.operand.ops[0], (ast.In, ast.Is)):
            self.changed += 1
            op = ast.NotIn() if isinstance(n.operand.ops[0], ast.In) else ast.IsNot()
            return ast.Compare(left=n.operand.left, ops=[op], comparators=n.operand.comparators)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.IsNot)):
            self.changed += 1
            op = ast.In() if isinstance(n.ops[0], ast.NotIn) else ast.Is()
            return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=n.left, ops=[op], comparators=n.comparators))
        return n


class KindTuple(ExprRewrite):
    """isinstance(a, X) or isinstance(a, Y) <-> isinstance(a, (X, Y))"""
    def expr(self, n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 \
                and isinstance(n.args[1], ast.Tuple) and pure(n.args[0]):
            self.changed += 1
            return ast.BoolOp(op=ast.Or(), values=[ast.Call(func=name('isinstance'), args=[n.args[0], t], keywords=[])
                                                   for t in n.args[1].elts])
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and all(
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'isinstance' and not isinstance(v.args[1], ast.Tuple)
                and ast.dump(v.args[0]) == ast.dump(n.values[0].args[0]) for v in n.values):
            self.changed += 1
            return ast.Call(func=name('isinstance'), args=[n.values[0].args[0],
                                                           ast.Tuple(elts=[v.args[1] for v in n.values], ctx=ast.Load())], keywords=[])
        return n


class Containers(ExprRewrite):
    """x in (a, b) <-> x in [a, b] and x == a or x == b -> x in (a, b)"""
    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = n.comparators[0]
            if isinstance(c, (ast.Tuple, ast.List)):
                self.changed += 1
                n.comparators = [(ast.List if isinstance(c, ast.Tuple) else ast.Tuple)(elts=c.elts, ctx=ast.Load())]
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and all(
                isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], ast.Eq) and pure(v.left)
                and ast.dump(v.left) == ast.dump(n.values[0].left) for v in n.values if isinstance(n.values[0], ast.Compare)) \
                and all(isinstance(v, ast.Compare) for v in n.values):
            self.changed += 1
            return ast.Compare(left=n.values[0].left, ops=[ast.In()],
                               comparators=[ast.Tuple(elts=[v.comparators[0] for v in n.values], ctx=ast.Load())])
        return n


class Chain(ExprRewrite):
    """a < b and b < c -> a < b < c; a chained comparison is taken apart"""
    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 2 and pure(n.comparators[0]):
            self.changed += 1
            return ast.BoolOp(op=ast.And(), values=[ast.Compare(left=n.left, ops=[n.ops[0]], comparators=[n.comparators[0]]),
                                                    ast.Compare(left=n.comparators[0], ops=[n.ops[1]], comparators=[n.comparators[1]])])
        return n


class TruthLen(ExprRewrite):
    """len(x) > 0 / == 0 in a test written the other way round: >= 1 / < 1"""
    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) \
                and n.left.func.id == 'len' and isinstance(n.comparators[0], ast.Constant):
            k, op = n.comparators[0].value, n.ops[0]
            if isinstance(op, ast.Gt):
                r = ast.GtE(), k + 1
            elif isinstance(op, ast.Eq) and k == 0:
                r = ast.Lt(), 1
            elif isinstance(op, ast.Lt):
                r = ast.LtE(), k - 1
            else:
                return n
            self.changed += 1
            return ast.Compare(left=n.left, ops=[r[0]], comparators=[ast.Constant(r[1])])
        return n


class TruthList(ExprRewrite):
    """len(x) > 0 -> bool(x), len(x) == 0 -> not x (x no array: to be judged)"""
    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) \
                and n.left.func.id == 'len' and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
            if isinstance(n.ops[0], ast.Gt):
                self.changed += 1
                return ast.Call(func=name('bool'), args=[n.left.args[0]], keywords=[])
            if isinstance(n.ops[0], ast.Eq):
                self.changed += 1
                return ast.UnaryOp(op=ast.Not(), operand=n.left.args[0])
        return n


class ConstOut(Base):
    """literals of a function become constants of the module"""
    def func(self, fn):
        me = self
        if any('jit' in ast.unparse(d) for d in fn.decorator_list):
            return

        class V(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                return n

            def visit_Expr(self, n):
                return n if isinstance(n.value, ast.Constant) else self.generic_visit(n)

            def visit_Constant(self, n):
                v = n.value
                if isinstance(v, bool) or v is None or v is ... or v in (0, 1, -1, ''):
                    return n
                Base.count = getattr(Base, 'count', 0) + 1
                t = 'CONST_%s_%d' % (fn.name.strip('_').upper(), Base.count)
                me.extra.append(ast.Assign(targets=[name(t, ast.Store())], value=ast.Constant(v), lineno=0))
                me.changed += 1
                return name(t)
        fn.body = [V().visit(s) for s in fn.body]


class ExtendLoop(Base):
    """xs.extend(ys) -> for y in ys: xs.append(y)"""
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and s.value.func.attr == 'extend' and pure(s.value.func.value) and len(s.value.args) == 1:
            v = self.fresh('el')
            self.changed += 1
            return ast.For(target=name(v, ast.Store()), iter=s.value.args[0], orelse=[], lineno=0, body=[
                ast.Expr(ast.Call(func=ast.Attribute(value=s.value.func.value, attr='append', ctx=ast.Load()), args=[name(v)], keywords=[]))])
        return s


class SplitAssign(Base):
    """a = b = c -> a = c; b = a"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) > 1:
            self.changed += 1
            t = self.fresh()
            return [ast.Assign(targets=[name(t, ast.Store())], value=s.value, lineno=0)] + [
                ast.Assign(targets=[x], value=name(t), lineno=0) for x in s.targets]
        return s


class ListMap(ExprRewrite):
    """list(x for ..) and map/filter of a lambda -> comprehension"""
    def expr(self, n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('map', 'filter') and len(n.args) == 2 \
                and isinstance(n.args[0], ast.Lambda) and len(n.args[0].args.args) == 1:
            f = n.args[0]
            self.changed += 1
            v = f.args.args[0].arg
            return ast.GeneratorExp(elt=f.body if n.func.id == 'map' else name(v), generators=[ast.comprehension(
                target=name(v, ast.Store()), iter=n.args[1], ifs=[f.body] if n.func.id == 'filter' else [], is_async=0)])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'list' and len(n.args) == 1 \
                and isinstance(n.args[0], ast.GeneratorExp):
            self.changed += 1
            return ast.ListComp(elt=n.args[0].elt, generators=n.args[0].generators)
        return n


class KwCalls(ExprRewrite):
    """arguments by name in calls of functions and classes of the same module"""
    def expr(self, n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            d = self.module.get(n.func.id)
            if d is None:
                return n
            if isinstance(d, ast.ClassDef):
                d = next((x for x in d.body if isinstance(x, ast.FunctionDef) and x.name == '__init__'), None)
                if d is None:
                    return n
                ps = [a.arg for a in d.args.args][1:]
            else:
                ps = [a.arg for a in d.args.args]
            if d.args.vararg or d.args.posonlyargs or len(n.args) > len(ps):
                return n
            n.keywords = [ast.keyword(arg=p, value=a) for p, a in zip(ps, n.args)] + n.keywords
            n.args = []
            self.changed += 1
        return n


ALL = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, Base) and v not in (Base, ExprRewrite)}


def stable_attrs(cls):
    """attributes assigned only in the constructor"""
    out, other = set(), set()
    for m in cls.body:
        if isinstance(m, ast.FunctionDef):
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Store):
                    (out if m.name == '__init__' else other).add(n.attr)
    return out - other


def rewrite(src, T, only=None):
    """source after applying the rewrite to every function (or those named in only); (new source, number of changes)"""
    tree = ast.parse(src)
    module = {d.name: d for d in tree.body if isinstance(d, (ast.FunctionDef, ast.ClassDef))}
    total = 0
    names = []

    def visit(body, cls, qual):
        nonlocal total
        extra = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                visit(s.body, s, qual + s.name + '.')
            elif isinstance(s, ast.FunctionDef):
                q = qual + s.name
                if only is not None and q not in only:
                    continue
                t = T()
                t.cls = cls
                t.module = module
                t.stable = stable_attrs(cls) if cls is not None else set()
                t.func(s)
                total += t.changed
                if t.changed:
                    names.append(q)
                extra += t.extra
                for n in walk_scope(s):
                    if isinstance(n, ast.FunctionDef) and T not in (ExtractBody, ExtractExpr, ExtractCond, Delegate):
                        t2 = T()
                        t2.cls = None
                        t2.module = module
                        t2.stable = set()
                        t2.func(n)
                        total += t2.changed
        consts = [e for e in extra if isinstance(e, ast.Assign)]
        if cls is not None:
            top.extend(consts)
        else:
            top.extend(consts)
        body.extend(e for e in extra if e not in consts)
    top = []
    visit(tree.body, None, '')
    at = 0
    for i, d in enumerate(tree.body):
        if isinstance(d, (ast.Import, ast.ImportFrom)) or i == 0 and isinstance(d, ast.Expr):
            at = i + 1
    at = next((i for i, d in enumerate(tree.body) if isinstance(d, (ast.FunctionDef, ast.ClassDef))), at)
    tree.body[at:at] = top
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n', total, names


def sources(root):
    out = {}
    for d, ds, fs in os.walk(os.path.join(root, 'numerous')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                out[os.path.relpath(p, root)] = open(p, encoding='utf-8').read()
    return out


def judge(root, overlay, rules):
    from check import known
    from sa.world import World, AnalysisError
    from sa.spec import Ctx
    from sa.registry import RULES
    w = World(root, overlay=overlay)
    out = {}
    for pid in sorted(RULES):
        if rules and pid not in rules:
            continue
        c = Ctx(w)
        c.tier = 'quick'
        try:
            for fn in RULES[pid]:
                c.run(fn)
        except AnalysisError as e:
            out[pid] = ('broken', str(e)[:200])
            continue
        kn = known(pid)
        fresh = [f for f in c.findings if f.key() not in kn]
        if fresh:
            out[pid] = ('ALARM', '; '.join('%s @ %s' % (f.what[:int(os.environ.get('W', '300'))], f.where) for f in fresh))
        elif c.undecided:
            out[pid] = ('undecided', '%d: %s' % (len(c.undecided), str(c.undecided[0])[:200]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--each', action='store_true')
    ap.add_argument('--write')
    ap.add_argument('--rules', default='')
    ap.add_argument('--und', action='store_true')
    ap.add_argument('--mix', type=int, default=0, help='number of random mixtures')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('names', nargs='*')
    a = ap.parse_args()
    src = sources(a.root)
    rules = set(a.rules.split(',')) - {''}
    bad = 0
    if a.mix:
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(8) as ex:
            for sd, (n, log, r) in ex.map(mixed, [(a.root, src, a.seed + i, rules, a.names) for i in range(a.mix)]):
                r = {p: v for p, v in r.items() if v[0] != 'undecided' or a.und}
                bad += len(r)
                print('mix %d: %d rewrites (%s) %s' % (sd, n, ' '.join(log), 'quiet' if not r else ''), flush=True)
                for p, (st, tx) in r.items():
                    print('      ', p, st, tx, flush=True)
        return 1 if bad else 0
    for k in a.names or sorted(ALL):
        over, n, where = {}, 0, {}
        for rel, s in src.items():
            t, c, names = rewrite(s, ALL[k])
            if c:
                over[rel] = t
                n += c
                where[rel] = names
        if a.write:
            for rel, t in over.items():
                p = os.path.join(a.write, rel)
                open(p, 'w', encoding='utf-8').write(t)
            continue
        if a.each:
            jobs = [(rel, q) for rel in where for q in where[rel]]
            from concurrent.futures import ProcessPoolExecutor
            with ProcessPoolExecutor(8) as ex:
                for (rel, q), r in zip(jobs, ex.map(one, [(a.root, rel, src[rel], k, q, rules) for rel, q in jobs])):
                    for p, (st, tx) in r.items():
                        if st == 'undecided' and not a.und:
                            continue
                        bad += 1
                        print('%-14s %-45s %s %s %s' % (k, q, p, st, tx), flush=True)
            continue
        r = judge(a.root, over, rules)
        r = {p: v for p, v in r.items() if v[0] != 'undecided' or a.und}
        bad += len(r)
        print('%-14s %4d rewrites  %s' % (k, n, 'quiet' if not r else ''), flush=True)
        for p, (st, tx) in r.items():
            print('      ', p, st, tx, flush=True)
    return 1 if bad else 0


def mixture(src, seed, names=()):
    import random
    rnd = random.Random(seed)
    ks = rnd.sample(sorted(names or ALL), min(len(names or ALL), 9))
    over, n = {}, 0
    for rel, s in sorted(src.items()):
        t = s
        for k in ks:
            fs = set()

            def collect(body, q):
                for x in body:
                    if isinstance(x, ast.ClassDef):
                        collect(x.body, q + x.name + '.')
                    elif isinstance(x, ast.FunctionDef) and rnd.random() < 0.6:
                        fs.add(q + x.name)
            collect(ast.parse(t).body, '')
            t2, c, _ = rewrite(t, ALL[k], fs)
            if c:
                t, n = t2, n + c
        if t != s:
            over[rel] = t
    return over, n, ks


def mixed(j):
    root, src, seed, rules, names = j
    over, n, ks = mixture(src, seed, names)
    return seed, (n, ks, judge(root, over, rules))


def one(j):
    root, rel, s, k, q, rules = j
    t, c, _ = rewrite(s, ALL[k], {q})
    return judge(root, {rel: t}, rules)


if __name__ == '__main__':
    sys.exit(main())
