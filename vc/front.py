"""Front end: parses the C++ sources of /repo with clang on every run and indexes the functions, classes,
fields and enumerators found in the resulting AST.  Nothing is cached between runs."""
import json, os, re, subprocess, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
BASEFLAGS = ["-std=c++14", "-I/usr/include/hdf5/serial", "-I" + REPO + "/_build", "-I" + REPO + "/libsrc",
             "-I/usr/include/gdal", "-DWITH_GDAL", "-Wno-everything"]


class FrontError(Exception):
    pass


def clang_json(path, filt, extra=()):
    cmd = ["clang++"] + BASEFLAGS + list(extra) + ["-fsyntax-only", "-Xclang", "-ast-dump=json",
                                                   "-Xclang", "-ast-dump-filter=" + filt, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise FrontError("clang failed on %s: %s" % (path, r.stderr[-2000:]))
    dec = json.JSONDecoder()
    s = r.stdout
    i, n, out = 0, len(s), []
    while i < n:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out


# ------------------------------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "a", "n", "name")

    def __init__(self, k, a=None, n=None, name=None):
        self.k, self.a, self.n, self.name = k, a, n, name

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.a, self.n, self.name) == (o.k, o.a, o.n, o.name)

    def __hash__(self):
        return hash((self.k, self.name, self.n))

    def __repr__(self):
        if self.k == "ptr":
            return "%r*" % (self.a,)
        if self.k == "arr":
            return "%r[%s]" % (self.a, self.n)
        if self.k == "tmpl":
            return "%s<%s>" % (self.name, ",".join(map(repr, self.a)))
        return self.name or self.k


VOID = Ty("void")
BOOL = Ty("bool")
REAL = Ty("real")
STR = Ty("str")
NULLT = Ty("null")


def INT(bits=64, signed=False):
    return Ty("int", bits, 1 if signed else 0)


SIZE = INT(64, False)
INT32 = INT(32, True)
_INTS = {
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
    "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
    "size_t": (64, False), "std::size_t": (64, False), "hsize_t": (64, False), "hid_t": (64, True), "herr_t": (32, True),
    "size_type": (64, False), "ptrdiff_t": (64, True), "ssize_t": (64, True), "htri_t": (32, True), "difference_type": (64, True),
    "__int128": (128, True), "hssize_t": (64, True), "std::streamsize": (64, True), "std::ptrdiff_t": (64, True),
    "uint64_t": (64, False), "int64_t": (64, True), "uint32_t": (32, False), "int32_t": (32, True),
}
_TMPL = {"vector", "shared_ptr", "unique_ptr", "map", "pair", "__normal_iterator", "initializer_list", "function",
         "_Rb_tree_iterator", "_Rb_tree_const_iterator", "set", "array", "__shared_ptr_access", "__shared_ptr", "list", "unordered_map", "tuple"}


def _split_top(s, sep=","):
    out, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == sep and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


_tycache = {}


def parse_type(s):
    t = _tycache.get(s)
    if t is None:
        t = _parse_type(s)
        _tycache[s] = t
    return t


def _parse_type(s):
    s = s.strip()
    for q in ("const ", "volatile ", "struct ", "class ", "enum ", "typename ", "mutable "):
        while s.startswith(q):
            s = s[len(q):].strip()
    while True:
        for q in (" const", " volatile", "*const", "*__restrict", "&&", "&"):
            if s.endswith(q):
                s = s[:-len(q)].strip() + ("*" if q.startswith("*") else "")
                break
        else:
            break
    if s.endswith("]"):
        d = 0
        # the first top-level bracket is the outermost dimension
        i = 0
        dd = 0
        while i < len(s):
            if s[i] in "<(":
                dd += 1
            elif s[i] in ">)":
                dd -= 1
            elif s[i] == "[" and dd == 0:
                break
            i += 1
        base, rest = s[:i], s[i:]
        dims = re.findall(r"\[([^\]]*)\]", rest)
        t = parse_type(base)
        for dd in reversed(dims):
            t = Ty("arr", t, int(dd) if dd.strip().isdigit() else None)
        return t
    if s.endswith(")"):
        if "::*)" in s or re.search(r"\(\w+(::\w+)*::\*\)", s):
            return Ty("memptr", name=s)
        if "(*)" in s:
            return Ty("fptr", name=s)
        return Ty("func", name=s)
    if s.endswith("*"):
        e = parse_type(s[:-1])
        if e.k == "int" and e.a == 8:
            return STR
        return Ty("ptr", e)
    if s == "void":
        return VOID
    if s == "bool" or s == "_Bool":
        return BOOL
    if s in ("double", "float", "long double"):
        return Ty("real", name="float") if s == "float" else REAL
    if s in _INTS:
        b, g = _INTS[s]
        return INT(b, g)
    if s in ("std::nullptr_t", "nullptr_t"):
        return NULLT
    if s in ("std::string", "string") or s.startswith("std::basic_string<") or s.startswith("std::__cxx11::basic_string<") or s.startswith("basic_string<"):
        if s.endswith(">") or s in ("std::string", "string"):
            return STR
    m = re.match(r"^(?:std::|__gnu_cxx::|std::__cxx11::)*([A-Za-z_0-9]+)\s*<(.*)>$", s)
    if m and m.group(1) in _TMPL:
        args = tuple(parse_type(x) for x in _split_top(m.group(2)))
        n = m.group(1)
        if n in ("vector", "shared_ptr", "unique_ptr", "set", "initializer_list"):
            args = args[:1]
        if n in ("map",):
            args = args[:2]
        return Ty("tmpl", args, None, n)
    return Ty("class", name=s)


def node_type(n):
    t = n.get("type") or {}
    q = t.get("desugaredQualType") or t.get("qualType") or "void"
    return parse_type(q)


# ------------------------------------------------------------------------------------------ translation units
def strip_ns(q):
    return q


class Func:
    def __init__(self, tu, node, qname, cls):
        self.tu, self.node, self.qname, self.cls = tu, node, qname, cls
        self.params = [c for c in node.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        self.body = next((c for c in node.get("inner", []) if c.get("kind") in ("CompoundStmt", "CXXTryStmt")), None)
        self.inits = [c for c in node.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
        self.is_static = node.get("storageClass") == "static"
        self.virtual = node.get("virtual", False)
        q = node.get("type", {}).get("qualType", "")
        self.sig = q
        self.mangled = node.get("mangledName")
        self.file = node.get("_file")
        self.line = node.get("_line")

    def __repr__(self):
        return "<Func %s>" % self.qname


def main_name(path):
    return "geomodelgrids_main_" + os.path.basename(path).rsplit(".", 1)[0]


class TU:
    def __init__(self, path, extra=()):
        self.path, self.extra = path, tuple(extra)
        self.decl = {}      # id -> node
        self.qn = {}        # id -> qualified name (records, namespaces, functions, fields)
        self.owner = {}     # field id / method id -> class qname
        self.funcs = {}     # id -> Func
        self.enumval = {}   # id -> value
        self.globals = {}
        if "/bin/" in path:  # main of a program: given a name of its own (the only change)
            extra = tuple(extra) + ("-Dmain=" + main_name(path),)
        for o in clang_json(path, "geomodelgrids", extra):
            self._index_root(o)

    def _locs(self, root):
        # fill in file names: clang prints "file" only when it changes
        cur = [None, None]

        def upd(loc):
            if not isinstance(loc, dict):
                return
            for k in ("spellingLoc", "expansionLoc"):
                if k in loc:
                    upd(loc[k])
            if "file" in loc:
                cur[0] = loc["file"]
            if "line" in loc:
                cur[1] = loc["line"]

        def walk(n):
            upd(n.get("loc"))
            r = n.get("range")
            if n.get("kind", "").endswith("Decl"):
                n["_file"], n["_line"] = cur
            if isinstance(r, dict):
                upd(r.get("begin"))
                n["_line"] = cur[1] if "_line" not in n else n["_line"]
                upd(r.get("end"))
            for c in n.get("inner", []) or []:
                if isinstance(c, dict):
                    walk(c)
        walk(root)

    def _index_root(self, o):
        self._locs(o)
        pfx = ""
        pid = o.get("parentDeclContextId")
        if pid and pid in self.qn:
            pfx = self.qn[pid] + "::"
        elif o.get("previousDecl") in self.qn:
            q = self.qn[o["previousDecl"]]
            pfx = q[:-len(o.get("name", ""))] if o.get("name") else q + "::"
        self._index(o, pfx, self.qn.get(pid) if pid else None)

    def _index(self, n, pfx, ctx):
        k = n.get("kind", "")
        i = n.get("id")
        if k.endswith("Decl"):
            self.decl[i] = n
        name = n.get("name", "")
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            q = pfx + name if name else pfx.rstrip(":")
            self.qn[i] = q
            for c in n.get("inner", []) or []:
                self._index(c, (q + "::") if q else "", ctx)
            return
        if k in ("CXXRecordDecl", "ClassTemplateDecl", "ClassTemplateSpecializationDecl"):
            q = pfx + name
            if n.get("previousDecl") in self.qn:
                q = self.qn[n["previousDecl"]]
            self.qn[i] = q
            for c in n.get("inner", []) or []:
                self._index(c, q + "::", q)
            return
        if k == "EnumDecl":
            q = pfx + name
            self.qn[i] = q
            v = -1
            for c in n.get("inner", []) or []:
                if c.get("kind") == "EnumConstantDecl":
                    v += 1
                    for e in c.get("inner", []) or []:
                        vv = _constval(e)
                        if vv is not None:
                            v = vv
                    self.enumval[c["id"]] = v
                    self.decl[c["id"]] = c
                    self.qn[c["id"]] = pfx + c.get("name", "")
                    if ctx:
                        self.enumval[(q, c.get("name"))] = v
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            q = pfx + name
            if n.get("previousDecl") in self.qn:
                q = self.qn[n["previousDecl"]]
                ctx = self.owner.get(n["previousDecl"], ctx)
                pn = self.decl.get(n["previousDecl"]) or {}
                if pn.get("virtual"):
                    n["virtual"] = True
                if pn.get("storageClass") == "static":
                    n["storageClass"] = "static"
            self.qn[i] = q
            self.owner[i] = ctx
            f = Func(self, n, q, ctx if k != "FunctionDecl" else None)
            self.funcs[i] = f
            for c in n.get("inner", []) or []:
                self._index_inner(c)
            return
        if k == "FunctionTemplateDecl":
            for c in n.get("inner", []) or []:
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                    self._index(c, pfx, ctx)
            return
        if k in ("FieldDecl", "VarDecl", "TypedefDecl", "TypeAliasDecl"):
            self.qn[i] = pfx + name
            self.owner[i] = ctx
            return
        if k == "AccessSpecDecl":
            return

    def _index_inner(self, n):
        if not isinstance(n, dict):
            return
        k = n.get("kind", "")
        if k.endswith("Decl"):
            self.decl[n["id"]] = n
            if k == "CXXRecordDecl":   # local class / lambda
                self.qn[n["id"]] = n.get("name", "lambda@" + n["id"])
                for c in n.get("inner", []) or []:
                    if c.get("kind") in ("CXXMethodDecl",):
                        self.funcs[c["id"]] = Func(self, c, "lambda::" + c.get("name", ""), "lambda")
                        self.decl[c["id"]] = c
        for c in n.get("inner", []) or []:
            self._index_inner(c)

    def find_global(self, name):
        """the declaration of a helper outside namespace geomodelgrids: ask clang for it (node ids differ between runs: found by name)"""
        if name in self.globals:
            return self.globals[name]
        self.globals[name] = None
        for o in clang_json(self.path, name, self.extra):
            if o.get("name") != name:
                continue
            self._locs(o)
            if (o.get("_file") or "").startswith(REPO):
                self.globals[name] = o
                if o.get("kind") in ("EnumDecl", "FunctionDecl"):
                    self._index(o, "", None)
                if "init" in o or o.get("inner"):
                    break
        return self.globals[name]

    def enumerator(self, rd):
        """value of an enumerator declared outside namespace geomodelgrids, None if it is not the repository's"""
        v = self.enumval.get(rd["id"])
        if v is not None:
            return v
        t = ((rd.get("type") or {}).get("qualType") or "").replace("enum ", "")
        d = self.find_global(t) if t.isidentifier() else None
        if d and d.get("kind") == "EnumDecl":
            for c in d.get("inner", []) or []:
                if c.get("kind") == "EnumConstantDecl" and c.get("name") == rd.get("name"):
                    return self.enumval.get(c["id"])
        return None


def _constval(e):
    if e.get("kind") == "ConstantExpr" and "value" in e:
        try:
            return int(e["value"])
        except ValueError:
            return None
    if e.get("kind") == "IntegerLiteral":
        return int(e["value"])
    for c in e.get("inner", []) or []:
        v = _constval(c)
        if v is not None:
            return v
    return None


class Program:
    """All translation units of interest."""

    def __init__(self, files, extra=()):
        self.tus = {}
        paths = [f if f.startswith("/") else os.path.join(REPO, f) for f in files]
        self.errors = {}

        def load(p):
            try:
                return TU(p, extra)
            except Exception as e:  # reported by the caller as 'could not be brought within reach'
                return e
        with ThreadPoolExecutor(8) as ex:
            for p, r in zip(paths, ex.map(load, paths)):
                if isinstance(r, TU):
                    self.tus[p] = r
                else:
                    self.errors[p] = r
        if self.errors:
            raise FrontError("; ".join("%s: %s" % (k, v) for k, v in self.errors.items()))
        self.by_mangled, self.by_q = {}, {}
        self.classes = {}   # qname -> {'fields': [(name, Ty)], 'bases': [...]}
        for tu in self.tus.values():
            for f in tu.funcs.values():
                self._addf(f)
            for i, n in tu.decl.items():
                if n.get("kind") == "CXXRecordDecl" and n.get("completeDefinition"):
                    q = tu.qn[i]
                    if q not in self.classes:
                        flds = [(c["name"], node_type(c), c) for c in n.get("inner", []) if c.get("kind") == "FieldDecl" and "name" in c]
                        self.classes[q] = {"fields": flds, "bases": [self._resolve(parse_type(b["type"].get("desugaredQualType") or b["type"]["qualType"]).name) for b in n.get("bases", [])],
                                           "tu": tu, "node": n}

    def _resolve(self, n):
        return n or ""

    def _addf(self, f):
        if f.mangled and f.body is not None or f.node.get("kind") == "CXXConstructorDecl" and f.body is not None:
            old = self.by_mangled.get(f.mangled)
            if old is None:
                self.by_mangled[f.mangled] = f
                self.by_q.setdefault(f.qname, []).append(f)

    def func(self, qname, nparams=None):
        c = self.by_q.get(qname, [])
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if not c:
            raise FrontError("function %s not found in the sources" % qname)
        return c[0]

    def cls(self, name):
        if name in self.classes:
            return name
        name2 = name.replace("class ", "").strip()
        if name2 in self.classes:
            return name2
        c = [q for q in self.classes if q.endswith("::" + name2)]
        return c[0] if c else name2

    def subclasses(self, name):
        return [q for q, c in self.classes.items() if name in c["bases"] or any(b.split("::")[-1] == name.split("::")[-1] for b in c["bases"])]

    def field_type(self, cls, fname):
        seen = [cls]
        while seen:
            q = seen.pop()
            c = self.classes.get(self.cls(q))
            if not c:
                continue
            for n, t, _ in c["fields"]:
                if n == fname:
                    return self.cls(q), t
            seen += c["bases"]
        return None, None
