"""Parse the package under analysis and resolve names to definitions."""
import ast
import hashlib
import os
import re


class AnalysisError(Exception):
    pass


def doctext(node, name):
    """The documented type of a parameter, as written."""
    t = None
    doc = ast.get_docstring(node) or "" if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else ""
    for m in re.finditer(r"^[ \t]*(\w+(?:, *\w+)*) *: +(.+?) *$", doc, re.M):
        if name in [x.strip() for x in m.group(1).split(",")]:
            t = m.group(2)
            break
    for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
        if a.arg == name and a.annotation is not None:
            t = ast.unparse(a.annotation)
    return t


class Func:
    def __init__(self, fid, node, mod, cls=None):
        self.fid, self.node, self.mod, self.cls = fid, node, mod, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "")
                for d in getattr(node, "decorator_list", [])]
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = "property" in decs or "cached_property" in decs


class Class:
    def __init__(self, cid, node, mod):
        self.cid, self.node, self.mod = cid, node, mod
        self.methods, self.attrs, self.fields = {}, {}, []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(cid + "." + s.name, s, mod, self)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append((s.target.id, s.value))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
        self.bases = node.bases
        self.is_nt = False
        self.base_classes = []


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.syms = {}
        self.toplevel = []


class Program:
    def __init__(self, root, pkg="pymars"):
        self.root = root
        self.mods = {}
        self.funcs = {}
        self.classes = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory {base} not found")
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.mods[rel] = Module(rel, p, src)
        for m in self.mods.values():
            self._collect(m, m.tree.body)
        for c in self.classes.values():
            for b in c.bases:
                r = self._base(c.mod, b)
                if isinstance(r, Class):
                    c.base_classes.append(r)
                elif r == "typing.NamedTuple":
                    c.is_nt = True

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.mods):
            h.update(k.encode() + b"\0" + self.mods[k].src.encode() + b"\0")
        return h.hexdigest()[:16]

    def _base(self, mod, b):
        if isinstance(b, ast.Name):
            s = self.lookup(mod, b.id)
            if s and s[0] == "class":
                return s[1]
            if s and s[0] == "ext":
                return s[1]
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
            s = self.lookup(mod, b.value.id)
            if s and s[0] == "ext":
                return s[1] + "." + b.attr
        return None

    def _collect(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{m.name}.{s.name}", s, m)
                self.funcs[f.fid] = f
                m.syms[s.name] = ("func", f)
            elif isinstance(s, ast.ClassDef):
                c = Class(f"{m.name}.{s.name}", s, m)
                self.classes[c.cid] = c
                for f in c.methods.values():
                    self.funcs[f.fid] = f
                m.syms[s.name] = ("class", c)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.syms[a.asname] = ("ext", a.name)
                    else:
                        m.syms[a.name.split(".")[0]] = ("ext", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                self._importfrom(m, s, m.syms)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.syms[t.id] = ("expr", s.value)
                m.toplevel.append(s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                m.syms[s.target.id] = ("expr", s.value)
            elif isinstance(s, ast.Try):
                keep = dict(m.syms)
                for h in s.handlers:
                    self._collect(m, h.body)
                self._collect(m, s.body)
                self._collect(m, s.orelse)
                self._collect(m, s.finalbody)
            elif isinstance(s, (ast.If, ast.With)):
                self._collect(m, getattr(s, "orelse", []))
                self._collect(m, s.body)
            else:
                m.toplevel.append(s)

    def _importfrom(self, m, s, syms):
        if s.level:
            parts = m.name.split(".")
            is_pkg = os.path.basename(m.path) == "__init__.py"
            up = s.level - (1 if is_pkg else 0)
            basep = parts[: len(parts) - up] if up else parts
            target = ".".join(basep + ([s.module] if s.module else []))
        else:
            target = s.module or ""
        for a in s.names:
            nm = a.asname or a.name
            full = f"{target}.{a.name}"
            if full in self.mods:
                syms[nm] = ("mod", full)
            elif target in self.mods:
                syms[nm] = ("from", target, a.name)
            else:
                syms[nm] = ("ext", full)

    def lookup(self, mod, name, seen=()):
        s = mod.syms.get(name)
        if s is None:
            return None
        if s[0] == "from":
            m2 = self.mods[s[1]]
            if (s[1], s[2]) in seen:
                return None
            r = self.lookup(m2, s[2], seen + ((s[1], s[2]),))
            return r
        if s[0] == "expr":
            return ("expr", s[1], mod, name)
        return s

    def mro(self, c):
        out = [c]
        for b in c.base_classes:
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None
