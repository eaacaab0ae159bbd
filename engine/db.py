"""Loads the extracted syntax trees of all translation units."""
import json, os, re


class Ty:
    __slots__ = ("c", "n", "s", "ref", "const", "el", "w", "u", "repo", "usr", "len", "lam")

    def __init__(self):
        self.c = "other"
        self.n = self.s = ""
        self.ref = 0
        self.const = False
        self.el = []
        self.w = 0
        self.u = False
        self.repo = False
        self.usr = None
        self.len = None
        self.lam = False

    def __repr__(self):
        return "%s%s%s" % ("const " if self.const else "", self.s, ["", "&", "&&"][self.ref])


def simple(name):
    t = Ty()
    t.c, t.n, t.s = {"double": ("float", "double", "double"), "int": ("int", "int", "int"), "bool": ("bool", "bool", "bool"),
                     "size_t": ("int", "unsigned long", "unsigned long"), "void": ("void", "void", "void"),
                     "string": ("rec", "std::basic_string", "std::string")}[name]
    t.w = {"double": 64, "int": 32, "size_t": 64}.get(name, 0)
    t.u = name == "size_t"
    return t


T_DOUBLE, T_INT, T_BOOL, T_SIZE, T_STR = simple("double"), simple("int"), simple("bool"), simple("size_t"), simple("string")

_strip_memo = {}


def strip_templates(q):
    """qualified name without template arguments (keeps operator names)"""
    r = _strip_memo.get(q)
    if r is not None:
        return r
    out, depth, i = [], 0, 0
    while i < len(q):
        if depth == 0 and q.startswith("operator", i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == "_")):
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\]|[-+*/%^&|~!=,]+)", q[i:])
            if m:
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        c = q[i]
        if c == "<":
            depth += 1
        elif c == ">" and depth:
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = _strip_memo[q] = "".join(out)
    return r


class TU:
    def __init__(self, path, data):
        self.path = path
        self.raw = data["types"]
        self.cache = [None] * len(self.raw)

    def ty(self, i):
        if i is None or i < 0:
            return T_INT
        t = self.cache[i]
        if t is not None:
            return t
        t = self.cache[i] = Ty()
        o = self.raw[i]
        if o is None:
            return t
        t.c = o["c"]
        t.s = o.get("s", "")
        t.n = o.get("n", t.s)
        t.ref = o.get("ref", 0)
        t.const = o.get("const", False)
        t.w = o.get("w", 0)
        t.u = o.get("u", False)
        t.repo = o.get("repo", False)
        t.usr = o.get("usr")
        t.len = o.get("len")
        t.lam = o.get("lambda", False)
        t.el = [(self.ty(x) if isinstance(x, int) else (x.get("int") if isinstance(x, dict) else None)) for x in o.get("el", [])]
        return t


class Func:
    def __init__(self, usr, o, tu):
        self.usr, self.o, self.tu = usr, o, tu
        self.q, self.n = o["q"], o["n"]
        self.file, self.line = o["file"], o["line"]
        self.kind = o["kind"]
        self.rec = o.get("recusr")
        self.qs = strip_templates(self.q)

    def __repr__(self):
        return "%s (%s:%d)" % (self.q, self.file, self.line)


class Rec:
    def __init__(self, usr, o, tu):
        self.usr, self.o, self.tu = usr, o, tu
        self.n = o["n"]
        self.fields = o["fields"]
        self.bases = o["bases"]
        self.methods = o["methods"]


class DB:
    def __init__(self, files, loaded=None):
        self.funcs, self.recs, self.enums, self.globals = {}, {}, {}, {}
        self.recname = {}
        self.units = []
        self.loaded = loaded if loaded is not None else []
        if loaded is None:
            for f in files:
                data = json.load(open(f))
                self.loaded.append((TU(f, data), data))
        for tu, data in self.loaded:
            self.units.append(tu)
            for u, o in data["funcs"].items():
                if o and u not in self.funcs:
                    self.funcs[u] = Func(u, o, tu)
                elif o:
                    # internal-linkage functions of the same name in two files (main): keep both by file
                    if self.funcs[u].file != o["file"]:
                        self.funcs[u + "@" + o["file"]] = Func(u, o, tu)
            for u, o in data["records"].items():
                if o and u not in self.recs:
                    r = self.recs[u] = Rec(u, o, tu)
                    self.recname.setdefault(r.n, r)
            for n, o in data["enums"].items():
                self.enums.setdefault(n, o)
            for u, o in data["globals"].items():
                if o and u not in self.globals:
                    self.globals[u] = (o, tu)
        self.byname = {}
        for f in self.funcs.values():
            self.byname.setdefault(f.qs, []).append(f)
        # overriders: base method usr -> list of (record usr, method usr)
        self.over = {}
        for r in self.recs.values():
            for m in r.methods:
                for b in m.get("ov", []):
                    self.over.setdefault(b, []).append((r.usr, m["usr"]))

    def programs(self):
        """{file of main: database of the translation units of that program}"""
        mains = {}
        for tu, data in self.loaded:
            for o in data["funcs"].values():
                if o and o["q"] == "main":
                    mains[o["file"]] = tu
        return {f: DB(None, [(t, d) for t, d in self.loaded if t is tu or t not in mains.values()]) for f, tu in mains.items()}

    def fn(self, name, file=None):
        l = [f for f in self.byname.get(name, []) if file is None or f.file.endswith(file)]
        return l

    def derived(self, usr, base):
        if usr == base:
            return True
        r = self.recs.get(usr)
        return r is not None and any(self.derived(b["usr"], base) for b in r.bases)

    def find_override(self, recusr, musr):
        """the final overrider of method musr in the dynamic class recusr"""
        def search(u):
            r = self.recs.get(u)
            if r is None:
                return None
            for m in r.methods:
                if m["usr"] == musr or self._ov_closure(m, musr):
                    return m["usr"]
            for b in r.bases:
                x = search(b["usr"])
                if x:
                    return x
            return None
        return search(recusr) or musr

    def _ov_closure(self, m, target):
        todo = list(m.get("ov", []))
        seen = set()
        while todo:
            x = todo.pop()
            if x == target:
                return True
            if x in seen:
                continue
            seen.add(x)
            for r in self.recs.values():
                for mm in r.methods:
                    if mm["usr"] == x:
                        todo += mm.get("ov", [])
        return False
