"""Rewrites a copy of /repo without changing what it does: python3 tools/refactor.py KIND DEST

unparse    every file printed afresh from its syntax tree
temps      conditions, returned values and loop iterables go through local variables
helpers    every plain function and method delegates to a new one that does the work
locals     local variables are renamed, statements `pass` added
flip       `if a: X else: Y` becomes `if not a: Y else: X`; a < b becomes b > a; x += 1 becomes x = x + 1 for ints
"""
import ast, os, shutil, subprocess, sys, glob

KIND, DEST = sys.argv[1:3]
FILES = ['sus-tool.py'] + glob.glob('/repo/proofchains/**/*.py', recursive=True) + glob.glob('/repo/lib/*/bitcoin/**/*.py', recursive=True) + \
    glob.glob('/repo/lib/*/proofmarshal/**/*.py', recursive=True)
FILES = sorted({os.path.relpath(os.path.join('/repo', f), '/repo') for f in FILES if '/test' not in f})


class Temps(ast.NodeTransformer):
    n = 0

    def tmp(self, value):
        self.n += 1
        name = '_value%d' % self.n
        return ast.Assign([ast.Name(name, ast.Store())], value), ast.Name(name, ast.Load())

    infn = False

    def visit_FunctionDef(self, node):
        old, self.infn = self.infn, True
        self.generic_visit(node)
        self.infn = old
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if not self.infn:
            return node
        a, node.test = self.tmp(node.test)
        return [a, node]

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None:
            return node
        a, node.value = self.tmp(node.value)
        return [a, node]

    def visit_For(self, node):
        self.generic_visit(node)
        a, node.iter = self.tmp(node.iter)
        return [a, node]


class Helpers(ast.NodeTransformer):
    """f(args) becomes f(args): return f_work(args), in classes through self/cls"""
    def handle(self, body, in_class):
        out = []
        for n in body:
            plain = isinstance(n, ast.FunctionDef) and not n.name.startswith('__') and not n.args.posonlyargs and not n.args.kwonlyargs \
                and not any(isinstance(x, (ast.Name, ast.Call)) and getattr(x, 'id', getattr(getattr(x, 'func', None), 'id', '')) == 'super' for x in ast.walk(n)) \
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) and False for x in ast.walk(n))
            decos = [d.id if isinstance(d, ast.Name) else '?' for d in getattr(n, 'decorator_list', [])]
            if plain and (decos in ([], ['classmethod'], ['staticmethod'])):
                import copy
                work = copy.deepcopy(n)
                work.name = '_work_' + n.name if in_class else n.name + '_work'
                names = [a.arg for a in n.args.args]
                rest = names[1:] if in_class and decos != ['staticmethod'] else names
                if in_class and decos == ['staticmethod'] or in_class and not names:
                    out.append(n)
                    continue
                fn = ast.Attribute(ast.Name(names[0], ast.Load()), work.name, ast.Load()) if in_class else ast.Name(work.name, ast.Load())
                args = [ast.Name(a, ast.Load()) for a in rest]
                if n.args.vararg:
                    args.append(ast.Starred(ast.Name(n.args.vararg.arg, ast.Load()), ast.Load()))
                kw = [ast.keyword(None, ast.Name(n.args.kwarg.arg, ast.Load()))] if n.args.kwarg else []
                work.args.defaults = []
                doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
                n.body = doc + [ast.Return(ast.Call(fn, args, kw))]
                self.generic_visit(work)
                out += [work, n]
            else:
                out.append(self.visit(n))
        return out

    def visit_ClassDef(self, node):
        # an override that calls the base would find the overriding helper: only classes that nothing in the file derives from
        return node if node.name in BASES else self._class(node)

    def _class(self, node):
        node.body = self.handle(node.body, True)
        return node

    def visit_Module(self, node):
        node.body = self.handle(node.body, False)
        return node


class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for x in ast.walk(node) if x is not node) or \
           any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') in ('locals', 'eval') for x in ast.walk(node)):
            self.generic_visit(node)
            return node
        args = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
        names = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        names |= {x.name for x in ast.walk(node) if isinstance(x, ast.ExceptHandler) and x.name}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = 'the_' + x.id.strip('_')
            if isinstance(x, ast.ExceptHandler) and x.name in names:
                x.name = 'the_' + x.name.strip('_')
        node.body = node.body[:1] + [ast.Pass()] + node.body[1:]
        return node


class Flip(ast.NodeTransformer):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            node.test, node.body, node.orelse = ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        swap = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(node.ops) == 1 and type(node.ops[0]) in swap and not any(isinstance(x, ast.Call) for x in ast.walk(node)):
            node.left, node.comparators, node.ops = node.comparators[0], [node.left], [swap[type(node.ops[0])]()]
        return node


shutil.rmtree(DEST, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', DEST], check=True)
BASES = set()
trees = {f: ast.parse(open('/repo/' + f).read()) for f in FILES}
for t in trees.values():
    for x in ast.walk(t):
        if isinstance(x, ast.ClassDef):
            for b in x.bases:
                BASES.add(getattr(b, 'attr', getattr(b, 'id', '')))
for f, t in trees.items():
    t = {'unparse': lambda t: t, 'temps': Temps().visit, 'helpers': Helpers().visit, 'locals': Locals().visit, 'flip': Flip().visit}[KIND](t)
    ast.fix_missing_locations(t)
    open(os.path.join(DEST, f), 'w').write(ast.unparse(t) + '\n')
