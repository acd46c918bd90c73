"""print a python file without docstrings, comments, partial declarations (for reading)"""
import ast, sys
for f in sys.argv[1:]:
    t = ast.parse(open(f).read())
    class X(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            if n.name in ("compute_partials", "initialize", "linearize"): 
                n.body = [b for b in n.body if n.name == "initialize"] or [ast.Pass()]
                if n.name != "initialize": return None
            return self.strip(n)
        def visit_ClassDef(self, n): return self.strip(n)
        def strip(self, n):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): n.body = n.body[1:] or [ast.Pass()]
            n.body = [b for b in n.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and getattr(b.value.func, "attr", "") == "declare_partials")] or [ast.Pass()]
            self.generic_visit(n); return n
    print("####", f); print(ast.unparse(X().visit(t)))
