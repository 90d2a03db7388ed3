"""Parses repository and contract modules; nothing is rewritten, functions are kept as ast nodes."""
import ast
import os
import warnings

PKG = "wfa_planning_evaluation_framework"


class ClassInfo:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods, self.attrs, self.fields, self.defaults = {}, {}, [], {}
        self.namedtuple = any(isinstance(b, ast.Name) and b.id == "NamedTuple" for b in node.bases)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decs = [ast.unparse(d) for d in s.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    self.methods[s.name + "@setter"] = (s, "setter")
                    continue
                kind = "method"
                if "property" in decs:
                    kind = "property"
                elif "staticmethod" in decs:
                    kind = "static"
                elif "classmethod" in decs:
                    kind = "classmethod"
                self.methods[s.name] = (s, kind)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append(s.target.id)
                if s.value is not None:
                    self.defaults[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value

    def __repr__(self):
        return f"ClassInfo({self.name})"


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.short = name[len(PKG) + 1:] if name.startswith(PKG + ".") else name
        with open(path) as f:
            self.src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        self.cache = {}
        self.scan(self.tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = (s.module, a.name)
            elif isinstance(s, (ast.If, ast.Try)):
                self.scan(s.body)


class Loader:
    def __init__(self, repo, extra=None):
        self.repo = repo
        self.mods = {}
        self.extra = extra or {}     # module name -> path (contracts)

    def path_of(self, name):
        if name in self.extra:
            return self.extra[name]
        if name == PKG or name.startswith(PKG + "."):
            rel = name[len(PKG):].strip(".").replace(".", "/")
            base = os.path.join(self.repo, "src", rel)
            if os.path.isfile(base + ".py"):
                return base + ".py"
            if os.path.isfile(os.path.join(base, "__init__.py")):
                return os.path.join(base, "__init__.py")
        if name.startswith("wfa_cardinality_estimation_evaluation_framework.") and not name.endswith(".estimator_noisers"):
            # the dependency is absent: its assumed contract (the same stub the run-time part executes)
            f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs", name.replace(".", "/") + ".py")
            if os.path.isfile(f):
                return f
        return None

    def module(self, name):
        if name not in self.mods:
            p = self.path_of(name)
            self.mods[name] = Module(name, p) if p else None
        return self.mods[name]
