"""Load the package under analysis from its current source."""
import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "src", "tranquilo")
PKG = "tranquilo"


class Broken(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable file)."""


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source, path)
        except SyntaxError as e:
            raise Broken(f"cannot parse {path}: {e}") from e
        self.defs = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = ("def", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name)
                    else:
                        top = a.name.split(".")[0]
                        self.defs[top] = ("import", top)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for tgt in st.targets:
                    for n in ast.walk(tgt):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = ("assign", st)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = ("assign", st)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for sub in ("body", "orelse", "finalbody"):
                    self._collect(getattr(st, sub, []) or [])
                for h in getattr(st, "handlers", []):
                    self._collect(h.body)


class Project:
    def __init__(self, src=None):
        self.src = src or SRC
        self.modules = {}
        if not os.path.isdir(self.src):
            raise Broken(f"no package at {self.src}")
        for root, dirs, files in os.walk(self.src):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(root, fn)
                rel = os.path.relpath(path, self.src)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                name = ".".join([PKG] + rel)
                self.modules[name] = Module(name, path)
        # reference definitions used by the rules; not part of the program
        self.modules["oracle"] = Module("oracle", os.path.join(os.path.dirname(os.path.abspath(__file__)), "oracle.py"))

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            if n == "oracle":
                continue
            h.update(n.encode())
            h.update(self.modules[n].source.encode())
        return h.hexdigest()[:16]

    def rel(self, module):
        return os.path.relpath(self.modules[module].path, REPO)

    def lookup_def(self, qual):
        """'tranquilo.region.Region' -> (module, node) following re-exports."""
        mod, _, name = qual.rpartition(".")
        seen = set()
        while (mod, name) not in seen:
            seen.add((mod, name))
            m = self.modules.get(mod)
            if m is None:
                return None
            d = m.defs.get(name)
            if d is None:
                return None
            if d[0] == "def":
                return m, d[1]
            if d[0] == "from":
                mod, name = d[1], d[2]
                continue
            return None
        return None
