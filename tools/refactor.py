#!/usr/bin/env python3
"""development aid: behaviour-preserving rewrite of the whole package in a copy, to see whether the checks stay quiet.
usage: refactor.py DEST VARIANT   (VARIANT: any of the letters r i m t c l)
 r return through a temporary   i invert if/else   m move method bodies into helper methods   t split chained statements into temporaries
 c swap comparison sides  l for loops over lists become index loops (only over names)"""
import ast, sys, os, shutil, glob
dest, var = sys.argv[1:3]
shutil.copytree('/repo/thetis', dest + '/thetis')


class T(ast.NodeTransformer):
    def __init__(self):
        self.cls = []
        self.n = 0

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.generic_visit(node)
        self.cls.pop()
        if 'm' in var:
            new = []
            for f in node.body:
                new.append(f)
                if isinstance(f, ast.FunctionDef) and len(f.body) >= 3 and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                    dec = {ast.unparse(d).split('(')[0] for d in f.decorator_list}
                    if dec & {'staticmethod', 'classmethod', 'abstractmethod', 'abstractproperty', 'contextmanager'} or not f.args.args \
                            or f.args.args[0].arg != 'self' or any('setter' in d or 'validate' in d or 'observe' in d or 'default' in d for d in dec):
                        continue
                    if f.name.startswith('__') and f.name not in ('__init__', '__call__', '__str__'):
                        continue
                    doc = []
                    body = f.body
                    if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                        doc, body = body[:1], body[1:]
                    if len(body) < 2:
                        continue
                    a = f.args
                    name = f'_{f.name.strip("_")}_body_{node.name}'.lstrip('_')
                    name = '_' + name
                    g = ast.FunctionDef(name=name, args=ast.arguments(
                        posonlyargs=[], args=[ast.arg(x.arg) for x in a.args], vararg=a.vararg and ast.arg(a.vararg.arg),
                        kwonlyargs=[ast.arg(x.arg) for x in a.kwonlyargs], kw_defaults=[None]*len(a.kwonlyargs), kwarg=a.kwarg and ast.arg(a.kwarg.arg),
                        defaults=[]), body=body, decorator_list=[], type_params=[])
                    call = ast.Call(func=ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()),
                                    args=[ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                    keywords=[ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                    f.body = doc + [ast.Return(call)]
                    new.append(g)
            node.body = new
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if 'r' in var and node.value is not None and not isinstance(node.value, (ast.Name, ast.Constant)):
            return [ast.Assign([ast.Name('result_', ast.Store())], node.value), ast.Return(ast.Name('result_', ast.Load()))]
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if 'i' in var and node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if 'c' in var and len(node.ops) == 1:
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            k = type(node.ops[0])
            if k in sw:
                return ast.Compare(node.comparators[0], [sw[k]()], [node.left])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if 't' in var and isinstance(node.op, (ast.Add, ast.Sub)) and isinstance(node.target, ast.Name) and isinstance(node.value, ast.BinOp):
            return [ast.Assign([ast.Name('tmp_', ast.Store())], node.value), ast.AugAssign(node.target, node.op, ast.Name('tmp_', ast.Load()))]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if 's' in var and isinstance(node.op, ast.Mult) and not any(isinstance(x, (ast.Constant, ast.List, ast.Tuple, ast.JoinedStr)) for x in (node.left, node.right)):
            return ast.BinOp(node.right, ast.Mult(), node.left)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if 'l' in var and isinstance(node.target, ast.Name) and not node.orelse:
            return [ast.Assign([ast.Name('seq_', ast.Store())], ast.Call(ast.Name('list', ast.Load()), [node.iter], [])),
                    ast.For(node.target, ast.Name('seq_', ast.Load()), node.body, [])]
        return node


for f in glob.glob(dest + '/thetis/**/*.py', recursive=True):
    s = open(f).read()
    t = ast.parse(s)
    t = T().visit(t)
    ast.fix_missing_locations(t)
    open(f, 'w').write(ast.unparse(t) + '\n')
