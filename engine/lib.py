"""Models of the library functions the analysed program calls (Eigen, iostreams, strings, containers, YAML, ...)."""
from core import *
import re
import core
from db import *

NPOS = 2 ** 64 - 1
STREAMS = ("std::basic_ostream", "std::basic_istream", "std::basic_ofstream", "std::basic_ifstream", "std::basic_stringstream",
           "std::basic_ostringstream", "std::basic_istringstream", "std::basic_ios", "std::ios_base", "std::basic_iostream",
           "std::basic_fstream")
VECS = ("std::vector", "std::deque", "std::list")
MAPS = ("std::unordered_map", "std::map")
SETS = ("std::unordered_set", "std::set")
PURE_MATH = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "log10", "log2", "cbrt", "sinh", "cosh", "tanh", "fmod",
             "exp2", "expm1", "log1p", "remainder"}


def strl(*parts):
    return leaf(Str(parts))


def satom(*a):
    x = atom(*a)
    x.info = "str"
    return leaf(Str((x,)))


def batom(*a):
    x = atom(*a)
    x.info = "bool"
    return bvar(x)


def concat(a, b):
    def f(x, y):
        return leaf(Str(as_str(x).parts + as_str(y).parts))
    return apply("concat", f, a, b)


def as_str(x):
    if isinstance(x, Str):
        return x
    if isinstance(x, (Poly, En)):
        p = as_poly(x)
        c = p.const()
        if c is not None and 0 <= c < 256:
            return Str((chr(int(c)),))
        return Str((atom("chr", p),))
    raise core_unmodelled("string of %r" % (x,))


def core_unmodelled(m):
    from core import Unmodelled
    return Unmodelled(m)


def is_vec(v):
    import interp
    return isinstance(v, interp.Agg)


def has_nan(p):
    return any(a.kind == "nan" for m, c in p.t for a, e in m)


class Lib:
    def __init__(self, I):
        self.I = I
        import interp
        self.Agg, self.LV = interp.Agg, interp.LV
        self.eigen_dim = interp.eigen_dim
        self.argparse = []
        self.argvals = {}
        self.serials = {}

    # ------------------------------------------------------------------ helpers
    def obj(self, e):
        """evaluated object operand (through -> when needed)"""
        if e.get("arrow"):
            p = self.I.scalar(self.I.rv(e["obj"]))
            return self.LV(self.I.deref(p), self.pointee(self.I.ety(e["obj"])))
        return self.I.ev_expr(e["obj"])

    def pointee(self, ty):
        if ty.c == "ptr" and ty.el:
            return ty.el[0]
        if ty.el and isinstance(ty.el[0], Ty):
            return ty.el[0]
        return ty

    def objlv(self, e):
        v = self.obj(e)
        if isinstance(v, self.LV):
            return v
        return self.I.materialise(v, self.I.ety(e["obj"]), "tmp")

    def operands(self, e):
        """all operands as values or lvalues: object first"""
        r = []
        if "obj" in e:
            r.append(self.obj(e))
        return r + [self.I.ev_expr(a) for a in e["args"]]

    def val(self, v):
        return self.I.load(v) if isinstance(v, self.LV) else v

    def sc(self, v):
        return self.I.scalar(v)

    def args(self, e):
        return [self.I.rv(a) for a in e["args"]]

    def sargs(self, e):
        return [self.I.scalar(self.I.rv(a)) for a in e["args"]]

    def rd(self, lv, *path, kind="num"):
        return self.I.read(lv.d, tuple(path), kind)

    def rdd(self, lv, path, default):
        """read a bookkeeping slot with a default when it was never written"""
        d = lv.d
        if d.is_leaf and isinstance(d.leaf, RefV):
            root, p, idx = self.I.split_ref(d.leaf)
            dct = self.I.st.setdefault(root, {}) if isinstance(root, str) else {}
            if dct.get(p + path) is None:
                dct[p + path] = default
            return self.I.read(d, path, self.I.kind_of(default))
        for c, r in leaf_conds(self.I.simp(d)):
            if isinstance(r, RefV):
                root, p, idx = self.I.split_ref(r)
                dct = self.I.st.setdefault(root, {})
                if dct.get(p + path) is None:
                    dct[p + path] = default
        return self.I.read(d, path, self.I.kind_of(default))

    def wr(self, lv, path, v):
        self.I.write(lv.d, path, v)

    def size_of(self, lv):
        if isinstance(lv, self.Agg):
            return lv.m[("#",)]
        ty = lv.ty
        if ty is not None and ty.n == "std::array":
            if len(ty.el) > 1 and isinstance(ty.el[1], int):
                return num(ty.el[1])
        if ty is not None and ty.c == "arr" and ty.len is not None:
            return num(ty.len)
        return self.rd(lv, "#")

    def vec(self, lv):
        """reference of the vector behind a container or wrapper"""
        return lv

    def elty(self, ty):
        if self.eigen_dim(ty):
            return T_DOUBLE
        if ty.n in MAPS:
            return ty.el[1]
        if ty.el and isinstance(ty.el[0], Ty):
            return ty.el[0]
        return None

    def itat(self, lv, i):
        return apply(None, lambda r: leaf(RefV("it", r.root, r.path, i)) if isinstance(r, RefV) else leaf(r), self.I.simp(lv.d))

    # ------------------------------------------------------------------ constructors
    def ctor_value(self, e, ty):
        """value of a library object construction, or None"""
        I = self.I
        n = ty.n
        fn = e["fn"]
        args = e["args"]
        cc = fn.get("cc")
        if n in ("std::unique_ptr", "std::shared_ptr"):
            if not args:
                return leaf(NULL)
            v = I.ev_expr(args[0])
            if isinstance(v, self.LV) and (v.ty is None or v.ty.n in ("std::unique_ptr", "std::shared_ptr")):
                val = I.scalar(I.load(v))
                if n == "std::unique_ptr":
                    I.store(v, leaf(NULL))
                return val
            return I.scalar(v)
        if n == "std::function":
            if not args:
                return leaf(NULL)
            return I.scalar(I.rv(args[0]))
        if I.is_strty(ty):
            return self.str_ctor(e, ty, args)
        if n in VECS:
            return self.vec_ctor(e, ty, args, cc)
        if n in MAPS + SETS:
            if not args or (cc not in ("copy", "move") and not (args[0]["k"] == "initlist")):
                return self.default_value(ty)
            if cc in ("copy", "move"):
                return self.I.rv(args[0])
            raise Unmodelled("construction of " + ty.s)
        if n in ("std::pair", "std::tuple"):
            if cc in ("copy", "move"):
                return I.rv(args[0])
            if not args:
                return I.zero(ty)
            if len(args) == len(ty.el):
                names = ("first", "second") if n == "std::pair" else ["t%d" % i for i in range(len(args))]
                return self.pack(names, [I.ev_expr(a) for a in args])
            if len(args) == 1:
                return I.rv(args[0])
            raise Unmodelled("construction of " + ty.s)
        if n == "std::optional":
            if not args:
                return self.Agg({("has",): FALSE})
            v = I.rv(args[0])
            if isinstance(v, self.Agg) and ("has",) in v.m:
                return v
            return self.pack(("has", "val"), [TRUE, v])
        d = self.eigen_dim(ty)
        if d:
            return self.eigen_ctor(e, ty, args, d)
        if n == "Eigen::Triplet":
            if cc in ("copy", "move"):
                return I.rv(args[0])
            if not args:
                return I.zero(ty)
            return self.pack(("row", "col", "value"), [I.scalar(I.rv(a)) for a in args])
        if n in ("YAML::Node",):
            if args:
                return I.rv(args[0])
            return self.Agg({("$node",): strl("?")})
        if n.startswith("std::chrono::"):
            if args:
                v = I.rv(args[0])
                return v if isinstance(v, self.Agg) else self.Agg({("$t",): v})
            return self.Agg({("$t",): self.clk()})
        if n in ("std::allocator", "std::fpos", "std::locale"):
            if n == "std::fpos" and args:
                return self.Agg({("$off",): I.scalar(I.rv(args[0]))})
            return self.Agg({})
        if n.startswith("std::") and n.split("::")[-1] in ("runtime_error", "logic_error", "invalid_argument", "out_of_range", "exception",
                                                          "range_error", "domain_error", "overflow_error"):
            for a in args:
                I.rv(a)
            return self.Agg({("$exc",): strl(n)})
        if self.is_eigen_expr(ty) and args:
            return I.rv(args[0])
        if n in ("std::less", "std::greater", "std::plus", "std::equal_to", "std::hash", "std::multiplies"):
            return self.Agg({("$fobj",): strl(n)})
        if n in ("__gnu_cxx::__normal_iterator",) or n.endswith("_iterator"):
            if args:
                return I.rv(args[0])
        if n == "std::initializer_list":
            return I.rv(args[0]) if args else self.Agg({("#",): ZERO})
        return None

    def pack(self, names, vals):
        m = {}
        for n, v in zip(names, vals):
            v = self.val(v)
            if isinstance(v, self.Agg):
                for k, x in v.m.items():
                    m[(n,) + k] = x
            else:
                m[(n,)] = v
        return self.Agg(m)

    def default_value(self, ty):
        n = ty.n
        if n in VECS or self.eigen_dim(ty) == "dyn":
            return self.Agg({("#",): ZERO})
        if n in MAPS + SETS:
            return self.Agg({("[]", "has"): FALSE})
        if n == "std::optional":
            return self.Agg({("has",): FALSE})
        if n in ("std::pair", "std::tuple"):
            return self.I.zero(ty)
        if n == "std::function":
            return leaf(NULL)
        return None

    def str_ctor(self, e, ty, args):
        I = self.I
        args = [a for a in args if I.ety(a).n not in ("std::allocator", "std::locale")]
        if not args:
            return strl()
        if len(args) == 2 and I.ety(args[0]).c == "int":
            n, c = self.sargs({"args": args})
            if n.is_leaf and n.leaf.const() is not None and c.is_leaf and c.leaf.const() is not None:
                return strl(chr(int(c.leaf.const())) * int(n.leaf.const()))
            return satom("strn", n, c)
        v = self.val(I.ev_expr(args[0]))
        v = I.scalar(v)
        if len(args) == 1 or I.ety(args[1]).c == "enum":
            return self.tostrv(v)
        raise Unmodelled("string construction")

    def tostrv(self, v):
        """string value from a char pointer / string value"""
        def f(x):
            if isinstance(x, Str):
                return leaf(x)
            if isinstance(x, (Poly, En)):
                return leaf(as_str(x))
            raise Unmodelled("string from %r" % (x,))
        return apply("tostrv", f, v)

    def vec_ctor(self, e, ty, args, cc):
        I = self.I
        args = [a for a in args if I.ety(a).n != "std::allocator"]
        if not args:
            return self.default_value(ty)
        t0 = I.ety(args[0])
        if cc in ("copy", "move"):
            v = I.ev_expr(args[0])
            r = self.val(v)
            if cc == "move" and isinstance(v, self.LV):
                self.wr(v, ("#",), ZERO)
            return r
        if t0.n == "std::initializer_list" or args[0]["k"] == "initlist":
            return I.rv(args[0])
        if len(args) == 2 and (t0.c == "ptr" or t0.n.endswith("_iterator")):
            b, en = [I.scalar(I.rv(a)) for a in args]
            return self.copy_range(b, en)
        if t0.c == "int":
            n = I.scalar(I.rv(args[0]))
            v = I.rv(args[1]) if len(args) > 1 else None
            return self.filled(ty, n, v)
        return I.rv(args[0])

    def filled(self, ty, n, v):
        et = self.elty(ty)
        if v is None:
            v = self.I.zero(et) if et is not None else ZERO
        m = {("#",): n}
        for k, x in (v.m if isinstance(v, self.Agg) else {(): v}).items():
            m[("[]",) + k] = shift(x)
        return self.Agg(m)

    def itpos(self, d):
        """an iterator whose position (but not its container) depends on conditions as one with a conditional position"""
        if d.is_leaf:
            return d
        r = idx = None
        for c, l in leaf_conds(d):
            if not isinstance(l, RefV) or l.kind != "it" or l.extra is None or r is not None and (l.root, l.path) != (r.root, r.path):
                raise Unmodelled("conditional iterator range")
            r = l
            idx = l.extra if idx is None else ite(c, l.extra, idx)
        return leaf(RefV("it", r.root, r.path, idx))

    def copy_range(self, b, en):
        I = self.I

        def pick(x, y):
            if not (isinstance(x, RefV) and isinstance(y, RefV) and x.kind == "it" and y.kind == "it" and (x.root, x.path) == (y.root, y.path)):
                raise Unmodelled("iterator range")
            return None
        b, en = self.itpos(b), self.itpos(en)
        pick(b.leaf, en.leaf)
        r = b.leaf
        m = {("#",): d_sub(en.leaf.extra, r.extra)}
        src = RefV("ptr", r.root, r.path)
        for s in I.subpaths(src):
            if s and s[0] == "[]":
                base = I.get1(src, s, "num")
                off = r.extra
                if off is not ZERO:
                    import interp
                    base = Subst({interp.ARGS[0]: d_add(dat(interp.ARGS[0]), off)}).d(base)
                m[s] = base
        return self.Agg(m)

    def eigen_ctor(self, e, ty, args, d):
        I = self.I
        cc = e["fn"].get("cc")
        if not args:
            return self.Agg({("#",): ZERO}) if d == "dyn" else (self.Agg({}) if not e.get("zero") else I.zero(ty))
        if args[0]["k"] == "initlist" and I.ety(args[0]).c != "rec" or (len(args) == 1 and I.ety(args[0]).n == "std::initializer_list"):
            raise Unmodelled("Eigen initialiser list")
        if d == "dyn":
            if len(args) == 1 and I.ety(args[0]).c == "int":
                return self.Agg({("#",): I.scalar(I.rv(args[0])), ("[]",): I.uninit("eigen", ("[]",), "num")})
            return self.eval_expr(I.rv(args[0]))
        if len(args) == d and d > 1 or (d == 1 and I.ety(args[0]).c != "rec"):
            return self.Agg({(str(i),): I.scalar(I.rv(a)) for i, a in enumerate(args)})
        if len(args) == 1:
            v = I.rv(args[0])
            if isinstance(v, self.Agg):
                return self.eval_expr(v)
            if isinstance(v, D) and I.has_ref(v):
                # from a pointer to consecutive numbers
                return self.Agg({(str(i),): I.read(I.deref(I.advance(v, num(i))), (), "num") for i in range(d)})
        raise Unmodelled("Eigen constructor")

    def eval_expr(self, v):
        return v if not isinstance(v, self.Agg) or v.tag is None else self.Agg(v.m)

    def is_eigen_expr(self, ty):
        return ty.n.startswith("Eigen::")

    def csvpolicies(self, s):
        """(separator, policies other than the default ones) of a type io::CSVReader<...>"""
        g = re.match(r"(?:class )?io::CSVReader<\d+\s*(?:,\s*(.*))?>$", s)
        if not g:
            raise Unmodelled("csv reader " + s)
        sep, extra = ",", []
        for x in re.findall(r"io::(\w+)\s*(<(?:'(?:\\.|[^'])'|[^<>'])*>)?", g.group(1) or ""):
            if x[0] == "trim_chars":
                continue
            if x[0] in ("no_quote_escape", "double_quote_escape"):
                c = re.search(r"'(\\.|[^'])'", x[1])
                if not c:
                    raise Unmodelled("csv reader " + s)
                sep = {"\\t": "\t"}.get(c.group(1), c.group(1))
            elif x[0] not in ("throw_on_overflow", "no_comment"):
                extra.append(x[0])
        return sep, tuple(extra)

    def ctor_into(self, lv, e):
        """construct library objects that carry bookkeeping state (streams, readers, solvers)"""
        I = self.I
        ty = lv.ty
        n = ty.n
        args = e["args"]
        if n in STREAMS:
            self.stream_init(lv, ty)
            if n in ("std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream"):
                if args:
                    self.stream_open(lv, ty, I.scalar(I.rv(args[0])), e, [I.scalar(I.rv(a)) for a in args[1:]])
            elif args and I.is_strty(I.ety(args[0])):
                s = I.scalar(I.rv(args[0]))
                self.wr(lv, ("$src",), s)
                self.wr(lv, ("$str",), s)
                self.wr(lv, ("$pos",), ZERO)
            return None
        if n == "io::CSVReader" or n == "io::LineReader":
            sep, extra = self.csvpolicies(ty.s) if n == "io::CSVReader" else (",", ())
            p = I.scalar(I.rv(args[0]))
            self.wr(lv, ("$src",), p)
            self.wr(lv, ("$line",), ZERO)
            self.wr(lv, ("$row",), ZERO)
            if I.content is not None and n == "io::CSVReader":
                I.content.csvsep = sep
            I.emit("open", ("csvreader", lv.d, p, extra), e)
            return None
        if n == "argparse::ArgumentParser":
            return None
        if n.startswith("Eigen::") or n.startswith("std::chrono") or n.startswith("std::") or n.startswith("argparse::") or n.startswith("YAML::"):
            if args and e["fn"].get("cc") in ("copy", "move"):
                v = I.rv(args[0])
                if isinstance(v, self.Agg):
                    I.store(lv, v)
                return None
            if args:
                if all(I.ety(a).c in ("int", "float", "bool", "enum") or I.is_strty(I.ety(a)) for a in args):
                    vals = [I.scalar(I.rv(a)) for a in args]
                    if n == "Eigen::SparseMatrix":
                        self.dims(lv, vals)
                        I.emit("sparse", ("resize", lv.d) + tuple(vals), e)
                    return None
                if n.startswith("Eigen::"):
                    v = I.ev_expr(args[0])
                    I.emit("solver", ("compute", lv.d, v.d if isinstance(v, self.LV) else None), e)
                    return None
                raise Unmodelled("construction of " + ty.s)
            if n == "Eigen::SparseMatrix":
                self.dims(lv, (ZERO, ZERO))
            return None
        raise Unmodelled("construction of " + ty.s)

    def is_sparse(self, e):
        v = self.obj(e)
        return getattr(v, "ty", None) is not None and "SparseMatrix" in (v.ty.s or "")

    def dims(self, lv, vals):
        """number of rows and columns of a sparse matrix"""
        self.wr(lv, ("$rows",), vals[0])
        self.wr(lv, ("$cols",), vals[-1])

    # ------------------------------------------------------------------ dispatch
    def call(self, e, fn, q):
        I = self.I
        rec = fn.get("rec") or ""
        name = q.split("::")[-1]
        h = I.hooks.get(q)
        if h is not None:
            r = h(I, None, None, e)
            if r is not NotImplemented:
                return r
        try:
            if rec in STREAMS:
                return self.stream_member(e, fn, name)
            if rec.startswith("Eigen::") or q.startswith("Eigen::"):
                return self.eigen(e, fn, q, name)
            if rec in VECS or rec == "std::array" or rec == "std::initializer_list":
                return self.vector(e, fn, name)
            if rec in MAPS + SETS or rec in ("std::__detail::_Node_iterator", "std::_Rb_tree_iterator", "std::__detail::_Node_const_iterator"):
                return self.map(e, fn, name, rec)
            if rec in ("std::basic_string", "std::basic_string_view", "std::filesystem::path"):
                return self.string(e, fn, name, rec)
            if rec in ("std::unique_ptr", "std::shared_ptr"):
                return self.uptr(e, fn, name)
            if rec == "__gnu_cxx::__normal_iterator" or rec == "std::reverse_iterator":
                return self.iterator(e, fn, name)
            if rec == "std::function":
                if name == "operator()":
                    return I.call_value(I.scalar(I.rv(e["obj"])), [I.ev_expr(a) for a in e["args"]], e)
                if name == "operator bool":
                    return I.tobool(I.scalar(I.rv(e["obj"])))
                if name == "operator=":
                    lv = self.objlv(e)
                    I.store(lv, I.scalar(I.rv(e["args"][0])))
                    return lv
            if rec.startswith("YAML::") or q.startswith("YAML::"):
                return self.yaml(e, fn, q, name)
            if rec.startswith("argparse::") or q.startswith("argparse::"):
                return self.argp(e, fn, q, name)
            if rec == "io::CSVReader":
                return self.csv(e, fn, name)
            if rec.startswith("std::chrono") or q.startswith("std::chrono"):
                return self.chrono(e, fn, name)
            if rec == "std::optional":
                return self.optional(e, fn, name)
            if rec in ("std::pair", "std::tuple") and name == "operator=":
                lv = self.objlv(e)
                I.store(lv, I.rv(e["args"][0]))
                return lv
            if rec == "std::exception" or rec.endswith("_error"):
                return satom("exc-what")
            if rec == "std::fpos":
                v = I.rv(e["obj"])
                return v.m[("$off",)] if isinstance(v, self.Agg) and ("$off",) in v.m else I.scalar(v)
            if rec == "std::numeric_limits":
                return self.limits(e, fn, name)
            if q.startswith("std::filesystem::"):
                return self.fs(e, fn, name)
            return self.free(e, fn, q, name)
        except NotImplementedError:
            return self.unknown(e, fn, q)

    def unknown(self, e, fn, q):
        """unmodelled library function: an uninterpreted function of its scalar arguments; anything it may write is lost"""
        I = self.I
        I.note_unmodelled(q, e)
        raise Unmodelled("library function " + q)

    def limits(self, e, fn, name):
        t = self.I.ety(e)
        if name == "infinity":
            return dat(atom("inf", pos=True))
        if name == "max" and t.c == "int":
            return num((1 << (t.w - (0 if t.u else 1))) - 1)
        if name in ("min", "lowest") and t.c == "int":
            return num(0 if t.u else -(1 << (t.w - 1)))
        if name in ("quiet_NaN", "signaling_NaN"):
            return dat(atom("nan"))
        if name == "max":
            return dat(atom("dblmax", pos=True))
        if name == "lowest":
            return d_neg(dat(atom("dblmax", pos=True)))
        if name == "epsilon":
            return num(Fraction(1, 2 ** 52))
        if name == "min":
            return dat(atom("dblmin", pos=True))
        raise NotImplementedError

    # ------------------------------------------------------------------ Eigen
    def isdyn(self, v):
        return ("[]",) in v.m or ("#",) in v.m

    def zipw(self, f, a, b):
        """component-wise combination; scalars are broadcast"""
        Agg = self.Agg
        if isinstance(a, Agg) and isinstance(b, Agg):
            m = {}
            for k in a.m:
                if k == ("#",):
                    m[k] = a.m[k]
                else:
                    m[k] = f(a.m[k], b.m[k])
            return Agg(m)
        if isinstance(a, Agg):
            return Agg({k: (x if k == ("#",) else f(x, shift(b) if k == ("[]",) else b)) for k, x in a.m.items()})
        return Agg({k: (x if k == ("#",) else f(shift(a) if k == ("[]",) else a, x)) for k, x in b.m.items()})

    def mapw(self, f, a):
        return self.Agg({k: (x if k == ("#",) else f(x)) for k, x in a.m.items()})

    def total(self, v, node=None):
        if self.isdyn(v):
            import interp
            t = self.I.tmp_name("et")
            return mk_sum(t, P0, as_poly(v.m[("#",)].leaf), Subst({interp.ARGS[0]: dat(t)}).d(v.m[("[]",)]))
        r = ZERO
        for k in sorted(v.m):
            r = d_add(r, v.m[k])
        return r

    def zero_like(self, v):
        return self.mapw(lambda x: ZERO, v)

    def dims_from(self, fn, ty):
        """component count of a static Eigen function such as Vector3d::Zero()"""
        import re
        s = fn["q"]
        m = re.search(r"Eigen::(?:Matrix|Array)<\s*[\w ]+,\s*(-?\d+),\s*(-?\d+)", s) or re.search(r"Eigen::(?:Matrix|Array)<\s*[\w ]+,\s*(-?\d+),\s*(-?\d+)", ty.s)
        if not m:
            raise Unmodelled("shape of " + s)
        r, c = int(m.group(1)), int(m.group(2))
        return "dyn" if r < 0 or c < 0 else r * c

    def comp(self, v, i, ty):
        """component access: lvalue of an lvalue, value of a value; i is an index D"""
        I = self.I
        if isinstance(v, self.LV):
            d = self.eigen_dim(v.ty) if v.ty is not None else None
            if d is None:
                subs = [s for r in [v.d.leaf] for s in I.subpaths(r)] if v.d.is_leaf else []
                d = "dyn" if ("#",) in subs else len([s for s in subs if len(s) == 1 and s[0].isdigit()])
            if d == "dyn":
                return self.LV(I.index(v.d, i), T_DOUBLE)
            if i.is_leaf and isinstance(i.leaf, Poly) and i.leaf.const() is not None:
                k = int(i.leaf.const())
                if not 0 <= k < d:
                    raise Unmodelled("component index out of range")
                return self.LV(I.field(v.d, str(k)), T_DOUBLE)
            r = I.field(v.d, str(d - 1))
            for k in reversed(range(d - 1)):
                r = ite(cmp("==", i, num(k), False), I.field(v.d, str(k)), r)
            return self.LV(r, T_DOUBLE)
        if self.isdyn(v):
            return I.sub_args(v.m[("[]",)], [i], True)
        d = len(v.m)
        if i.is_leaf and isinstance(i.leaf, Poly) and i.leaf.const() is not None:
            return v.m[(str(int(i.leaf.const())),)]
        r = v.m[(str(d - 1),)]
        for k in reversed(range(d - 1)):
            r = ite(cmp("==", i, num(k), False), v.m[(str(k),)], r)
        return r

    def norm2(self, v):
        return self.total(self.mapw(lambda x: d_mul(x, x), v))

    def eigen(self, e, fn, q, name):
        I = self.I
        Agg, LV = self.Agg, self.LV
        rec = fn.get("rec") or ""
        ty = I.ety(e)
        if name in ("operator<<", "operator,") and e.get("op") in ("<<", ",") or name in ("operator<<", "operator,"):
            if rec in ("Eigen::CommaInitializer",) or name == "operator,":
                o = I.ev_expr(e["obj"])
                if not (isinstance(o, Agg) and o.tag and o.tag[0] == "comma"):
                    raise Unmodelled("comma initialiser")
                lv, i = o.tag[1], o.tag[2]
                return self.comma(lv, i, e["args"][0])
            if "obj" in e:
                return self.comma(self.objlv(e), 0, e["args"][0])
            # stream output of a vector: a row has blanks between its coefficients, a column has line ends
            s = I.ev_expr(e["args"][0])
            a = self.strip(e["args"][1])
            v = self.val(I.ev_expr(e["args"][1]))
            if not isinstance(s, LV) or not isinstance(v, Agg) or ("0",) not in v.m or ("#",) in v.m:
                raise NotImplementedError
            tn = I.ety(e["args"][1])
            row = tn.n.startswith("Eigen::Transpose") or I.ety(a).n.startswith("Eigen::Transpose")
            if not row and not tn.n.startswith("Eigen::Matrix"):
                raise NotImplementedError
            k = 0
            while (str(k),) in v.m:
                if k:
                    self.emit_out(s, strl(" " if row else "\n"), "str", e)
                self.emit_out(s, v.m[(str(k),)], "double", e)
                k += 1
            return s
        if name == "finished":
            return I.ev_expr(e["obj"]).tag[1]
        if name in ("Zero", "Ones", "Constant", "UnitX", "UnitY", "UnitZ", "Unit"):
            d = self.dims_from(fn, ty)
            a = self.sargs(e)
            if name.startswith("Unit"):
                ax = {"UnitX": 0, "UnitY": 1, "UnitZ": 2}.get(name)
                if ax is None:
                    ax = int(a[-1].leaf.const())
                return Agg({(str(i),): num(1 if i == ax else 0) for i in range(d)})
            v = ZERO if name == "Zero" else ONE if name == "Ones" else a[-1]
            if d == "dyn":
                return Agg({("#",): a[0], ("[]",): shift(v)})
            return Agg({(str(i),): v for i in range(d)})
        if rec in ("Eigen::SparseMatrix", "Eigen::SparseMatrixBase", "Eigen::SparseCompressedBase", "Eigen::PlainObjectBase") and name == "operator=" and rec != "Eigen::PlainObjectBase":
            raise NotImplementedError
        if rec == "Eigen::SparseMatrix" or rec.startswith(("Eigen::SparseMatrixBase", "Eigen::SparseCompressedBase", "Eigen::EigenBase")) and self.is_sparse(e):
            lv = self.objlv(e)
            if name == "setFromTriplets":
                a = self.sargs(e)
                I.emit("triplets", (lv.d, a[0], a[1], self.rdd(lv, ("$rows",), ZERO), self.rdd(lv, ("$cols",), ZERO)), e)
                return leaf(VOID)
            if name in ("rows", "cols", "size", "outerSize", "innerSize") and not e["args"]:
                r, c = self.rdd(lv, ("$rows",), ZERO), self.rdd(lv, ("$cols",), ZERO)
                if name in ("rows", "cols"):
                    return r if name == "rows" else c
                if name == "size":
                    return d_mul(r, c)
                raise NotImplementedError
            if name in ("resize", "setZero", "reserve", "makeCompressed", "data", "setIdentity"):
                a = self.sargs(e)
                if name == "resize" and len(a) == 2:
                    self.dims(lv, a)
                I.emit("sparse", (name, lv.d) + tuple(a), e)
                return leaf(VOID)
            raise NotImplementedError
        if name in ("compute", "solve", "solveWithGuess", "info", "setTolerance", "setMaxIterations", "analyzePattern", "factorize",
                    "iterations", "error") and not rec.startswith("Eigen::Matrix"):
            return self.solver(e, name)
        if name in ("x", "y", "z", "w") and not e["args"]:
            return self.comp(self.obj(e), num("xyzw".index(name)), ty)
        if name in ("operator[]", "operator()", "coeff", "coeffRef", "value"):
            o = self.obj(e)
            if name == "value" and not e["args"]:
                return self.total(self.val(o))
            return self.comp(o, I.scalar(I.rv(e["args"][0])), ty)
        if name in ("setZero", "setOnes", "setConstant", "fill"):
            lv = self.objlv(e)
            a = self.sargs(e)
            v = ZERO if name == "setZero" else ONE if name == "setOnes" else a[-1]
            d = self.eigen_dim(lv.ty)
            if d == "dyn":
                if (name in ("setZero", "setOnes") and a) or len(a) == 2:
                    self.wr(lv, ("#",), a[0])
                self.set_all(lv, v)
            else:
                for i in range(d or 3):
                    self.wr(lv, (str(i),), v)
            return lv
        if name in ("resize", "conservativeResize"):
            lv = self.objlv(e)
            a = self.sargs(e)
            self.wr(lv, ("#",), a[0])
            if name == "resize":
                self.set_all(lv, I.uninit("eigen-resize", ("[]",), "num"), raw=True)
            return leaf(VOID)
        if name in ("size", "rows"):
            o = self.obj(e)
            if isinstance(o, LV):
                d = self.eigen_dim(o.ty)
                return self.rd(o, "#") if d == "dyn" or d is None else num(d)
            return o.m[("#",)] if self.isdyn(o) else num(len(o.m))
        if name == "data":
            lv = self.objlv(e)
            return self.itat(lv, ZERO)
        if name in ("begin", "end"):
            lv = self.objlv(e)
            return self.itat(lv, ZERO if name == "begin" else self.rd(lv, "#"))
        if name in ("operator=",):
            lv = self.objlv(e)
            v = I.rv(e["args"][0])
            I.store(lv, self.eval_expr(v))
            return lv
        if name in ("operator+=", "operator-=", "operator*=", "operator/="):
            v = I.rv(e["args"][0])
            lv = self.objlv(e)
            f = {"+": d_add, "-": d_sub, "*": d_mul, "/": I.divide}[name[8]]
            I.store(lv, self.zipw(f, I.load(lv), v))
            return lv
        ops = self.operands(e)
        vals = [self.eval_expr(self.val(o)) for o in ops]
        if name in ("operator+", "operator-", "operator*", "operator/") or name in ("cwiseProduct", "cwiseQuotient"):
            if len(vals) == 1:
                return self.mapw(d_neg, vals[0])
            a, b = vals
            f = {"+": d_add, "-": d_sub, "*": d_mul, "/": I.divide, "P": d_mul, "Q": I.divide}[name[8] if name.startswith("op") else name[5]]
            if name == "operator*" and isinstance(a, Agg) and isinstance(b, Agg) and "Array" not in ty.s:
                ta = I.ety(e["obj"]) if "obj" in e else None
                if "Array" not in (ta.s if ta else ""):
                    raise Unmodelled("matrix product")
            return self.zipw(f, a, b)
        v = vals[0]
        if name in ("array", "matrix", "eval", "noalias", "derived", "transpose", "asDiagonal", "homogeneous") and name in ("array", "matrix", "eval", "noalias", "derived", "transpose"):
            return ops[0] if isinstance(ops[0], LV) and name == "noalias" else v
        if name in ("abs", "cwiseAbs"):
            return self.mapw(d_abs, v)
        if name in ("abs2", "cwiseAbs2", "square"):
            return self.mapw(lambda x: d_mul(x, x), v)
        if name in ("sqrt", "cwiseSqrt"):
            return self.mapw(d_sqrt, v)
        if name in ("max", "cwiseMax", "min", "cwiseMin") and len(vals) == 2:
            return self.zipw(d_max if "ax" in name else d_min, v, vals[1])
        if name in ("inverse", "cwiseInverse"):
            return self.mapw(lambda x: I.divide(ONE, x), v)
        if name == "dot":
            return self.total(self.zipw(d_mul, v, vals[1]))
        if name == "cross":
            a, b = [[x.m[(str(i),)] for i in range(3)] for x in vals]
            return Agg({(str(i),): d_sub(d_mul(a[(i + 1) % 3], b[(i + 2) % 3]), d_mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)})
        if name == "squaredNorm":
            return self.norm2(v)
        if name in ("norm", "stableNorm"):
            return d_sqrt(self.norm2(v))
        if name == "normalized":
            # a zero vector stays zero
            n2 = self.norm2(v)
            n = d_sqrt(n2)
            pos = cmp(">", n2, ZERO)
            return self.mapw(lambda x: ite(pos, I.divide(x, n), x), v)
        if name == "normalize":
            lv = ops[0]
            n2 = self.norm2(v)
            n = d_sqrt(n2)
            pos = cmp(">", n2, ZERO)
            I.store(lv, self.mapw(lambda x: ite(pos, I.divide(x, n), x), v))
            return leaf(VOID)
        if name in ("sum", "trace"):
            return self.total(v)
        if name == "prod" and not self.isdyn(v):
            r = ONE
            for k in sorted(v.m):
                r = d_mul(r, v.m[k])
            return r
        if name == "mean" and not self.isdyn(v):
            return I.divide(self.total(v), num(len(v.m)))
        if name in ("maxCoeff", "minCoeff") and not self.isdyn(v) and not fn["ps"]:
            r = None
            for k in sorted(v.m):
                r = v.m[k] if r is None else (d_max if name == "maxCoeff" else d_min)(r, v.m[k])
            return r
        if name in ("any", "all") and not self.isdyn(v):
            r = TRUE if name == "all" else FALSE
            for k in sorted(v.m):
                r = (d_and if name == "all" else d_or)(r, I.tobool(v.m[k]))
            return r
        if name in ("operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!="):
            op = name[8:]
            r = self.zipw(lambda x, y: cmp(op, x, y), v, vals[1])
            if op in ("==", "!=") and "Array" not in I.ety(e).s:
                t = self.zipw(lambda x, y: cmp("==", x, y), v, vals[1])
                c = TRUE
                for k in sorted(t.m):
                    c = d_and(c, t.m[k])
                return c if op == "==" else d_not(c)
            return r
        if name in ("operator&&", "operator||"):
            return self.zipw(d_and if "&" in name else d_or, v, vals[1])
        if name == "lpNorm":
            p = (fn.get("ti") or [None])[0]
            if p == 1:
                return self.total(self.mapw(d_abs, v))
            if p == 2:
                return d_sqrt(self.norm2(v))
            if p == -1:
                r = None
                for k in sorted(v.m):
                    x = d_abs(v.m[k])
                    r = x if r is None else d_max(r, x)
                return r
        if name in ("head", "tail", "segment") and not self.isdyn(v):
            a = self.sargs(e)
            import re
            mm = re.search(r"(\d+)>?$", fn["q"].split("::")[-1])
            raise NotImplementedError
        if name == "cast":
            if ty.s.find("float") >= 0:
                return self.mapw(lambda d: apply(None, lambda x: dat(atom("f32", as_poly(x))), d), v)
            return v
        if name in ("allFinite",):
            r = TRUE
            for k in sorted(v.m):
                r = d_and(r, self.isfinite(v.m[k]))
            return r
        if name in ("hasNaN",):
            r = FALSE
            for k in sorted(v.m):
                r = d_or(r, self.isnan(v.m[k]))
            return r
        raise NotImplementedError

    def comma(self, lv, i, arg):
        I = self.I
        v = I.rv(arg)
        if isinstance(v, self.Agg):
            for k in range(len(v.m)):
                I.store(self.comp(lv, num(i + k), None), v.m[(str(k),)])
            i += len(v.m)
        else:
            I.store(self.comp(lv, num(i), None), v)
            i += 1
        return self.Agg({}, ("comma", lv, i))

    def set_all(self, lv, v, raw=False):
        """write v to every element of a dynamic vector"""
        I = self.I
        for c, r in leaf_conds(I.simp(lv.d)):
            if not isinstance(r, RefV):
                continue
            root, path, idx = I.split_ref(r)
            if idx:
                raise Unmodelled("bulk assignment to a nested vector")
            g = d_and(I.live, c)
            val = v if raw else shift(v)
            b = I.birth.get(root)
            if b is not None and b[0] == I.depth and b[1] is g:
                g = TRUE
            dct = I.st.setdefault(root, {})
            old = dct.get(path + ("[]",))
            if g is not TRUE:
                if old is None:
                    old = I.uninit(root, path + ("[]",), "num")
                val = ite(g, val, old)
            dct[path + ("[]",)] = val

    def solver(self, e, name):
        I = self.I
        o = self.objlv(e)
        if name == "info":
            n = self.rdd(o, ("$solved",), ZERO)
            I.emit("solver", ("info", o.d), e)
            return apply(None, lambda x: dat(atom("solverinfo", as_poly(x))), n)
        if name in ("solve", "solveWithGuess"):
            b = I.ev_expr(e["args"][0])
            bv = self.val(b)
            n = d_add(self.rdd(o, ("$solved",), ZERO), ONE)
            self.wr(o, ("$solved",), n)
            I.emit("solver", ("solve", o.d, b.d if isinstance(b, self.LV) else None, bv), e)
            import interp
            return self.Agg({("#",): bv.m[("#",)], ("[]",): dat(atom("solution", patom(interp.ARGS[0])))})
        if name in ("compute", "factorize", "analyzePattern"):
            a = I.ev_expr(e["args"][0])
            I.emit("solver", (name, o.d, a.d if isinstance(a, self.LV) else None), e)
            return o
        if name in ("iterations", "error"):
            return dat(atom("solver" + name))
        a = self.sargs(e)
        I.emit("solver", (name, o.d) + tuple(a), e)
        return o

    # ------------------------------------------------------------------ vectors
    def append(self, lv, val, e, ctor=None):
        I = self.I
        n = self.rd(lv, "#")
        I.append_target(lv, n)
        slot = self.LV(I.index(lv.d, n), self.elty(lv.ty))
        if ctor is not None:
            ctor(slot)
            v = I.load(slot)
        else:
            I.store(slot, val)
            v = val
        self.wr(lv, ("#",), d_add(n, ONE))
        I.emit("append", (lv.d, v, n), e)
        return slot

    def vector(self, e, fn, name):
        I = self.I
        o = self.obj(e)
        if isinstance(o, self.Agg):
            o = I.materialise(o, I.ety(e["obj"]), "tmp")
        lv = o
        if name in ("size", "empty", "length"):
            n = self.size_of(lv)
            return n if name != "empty" else cmp("==", n, ZERO, False)
        if name in ("operator[]", "at"):
            i = I.scalar(I.rv(e["args"][0]))
            I.access(lv, i, name, e)
            return self.LV(I.index(lv.d, i), self.elty(lv.ty))
        if name == "front":
            return self.LV(I.index(lv.d, ZERO), self.elty(lv.ty))
        if name == "back":
            return self.LV(I.index(lv.d, d_sub(self.size_of(lv), ONE)), self.elty(lv.ty))
        if name in ("begin", "cbegin", "data"):
            return self.itat(lv, ZERO)
        if name in ("end", "cend"):
            return self.itat(lv, self.size_of(lv))
        if name in ("rbegin", "rend"):
            x = self.size_of(lv) if name == "rbegin" else ZERO
            return apply(None, lambda r: leaf(RefV("rit", r.root, r.path, x)), I.simp(lv.d))
        if name in ("reserve", "shrink_to_fit"):
            self.args(e)
            return leaf(VOID)
        if name == "clear":
            I.emit("clear", (lv.d,), e)
            self.wr(lv, ("#",), ZERO)
            return leaf(VOID)
        if name == "pop_back":
            I.emit("mutate", (name, lv.d), e)
            self.wr(lv, ("#",), d_sub(self.rd(lv, "#"), ONE))
            return leaf(VOID)
        if name == "resize":
            n = I.scalar(I.rv(e["args"][0]))
            v = I.rv(e["args"][1]) if len(e["args"]) > 1 else None
            self.vresize(lv, n, v)
            I.emit("vresize", (lv.d, n), e)
            return leaf(VOID)
        if name in ("assign", "fill"):
            a = [I.rv(x) for x in e["args"]]
            if name == "fill":
                a = [self.size_of(lv)] + a
            if len(a) == 2 and not (isinstance(a[0], D) and I.has_ref(a[0])):
                v = self.filled(lv.ty, a[0], a[1])
            elif len(a) == 2:
                v = self.copy_range(a[0], a[1])
            else:
                v = a[0]
            if lv.ty.n == "std::array":
                v.m.pop(("#",), None)
            I.emit("clear", (lv.d,), e)
            I.store(lv, v)
            return leaf(VOID)
        if name == "operator=":
            v = I.ev_expr(e["args"][0])
            val = self.val(v)
            I.store(lv, val)
            I.emit("vassign", (lv.d,), e)
            return lv
        if name == "push_back":
            v = I.ev_expr(e["args"][0])
            return self.append(lv, self.val(v), e) and leaf(VOID)
        if name == "emplace_back":
            et = self.elty(lv.ty)
            return self.emplace(lv, et, e)
        if name in ("erase", "insert", "swap", "emplace", "pop_front"):
            for a in e["args"]:
                I.rv(a)
            I.emit("mutate", (name, lv.d), e)
            # contents are no longer known
            a = atom("mutated", name, I.where(e))
            self.wr(lv, ("#",), dat(atom("size", a)))
            for c, r in leaf_conds(I.simp(lv.d)):
                root, path, idx = I.split_ref(r)
                for s in I.subpaths(r):
                    if s and s[0] == "[]":
                        k = I.kind_of(I.st[root][path + s])
                        nn = sum(1 for p in path + s if p == "[]")
                        import interp
                        I.st[root][path + s] = I.tv(k, atom("mutated", name, I.where(e), ".".join(s), *[patom(interp.ARGS[i]) for i in range(nn)]))
            return leaf(VOID)
        raise NotImplementedError

    def emplace(self, lv, et, e):
        I = self.I
        args = e["args"]
        if et is not None and et.c == "rec" and et.repo:
            if len(args) == 1 and I.ety(args[0]).usr == et.usr:
                return self.append(lv, I.rv(args[0]), e)
            return self.append(lv, None, e, lambda slot: self.construct_rec(slot, et, args, e))
        vals = [I.rv(a) for a in args]
        if et is not None and et.n == "Eigen::Triplet":
            v = vals[0] if len(vals) == 1 else self.pack(("row", "col", "value"), vals)
        elif et is not None and self.eigen_dim(et) and len(vals) > 1:
            v = self.Agg({(str(i),): I.scalar(x) for i, x in enumerate(vals)})
        elif et is not None and et.n in ("std::pair", "std::tuple") and len(vals) > 1:
            v = self.pack(("first", "second") if et.n == "std::pair" else ["t%d" % i for i in range(len(vals))], vals)
        elif len(vals) == 1:
            v = vals[0]
        elif not vals:
            v = I.zero(et)
        else:
            raise Unmodelled("emplace_back")
        return self.append(lv, v, e)

    def construct_rec(self, slot, ty, args, e):
        """construct a repository class from arguments given to a library function"""
        I = self.I
        r = I.db.recs.get(ty.usr)
        cands = []
        for m in (r.methods if r else []):
            if m.get("ctor"):
                f = I.db.funcs.get(m["usr"])
                if f is not None and len(f.o["params"]) >= len(args):
                    cands.append(f)
        vals = [I.ev_expr(a) for a in args]
        cands.sort(key=lambda f: len(f.o["params"]))
        for f in cands:
            ps = f.o["params"]
            if len(ps) != len(args) and not all(p.get("def") for p in ps[len(args):]):
                continue
            av = []
            for a, p in zip(vals, ps):
                pt = f.tu.ty(p["t"])
                if pt.ref:
                    av.append(a if isinstance(a, self.LV) else I.materialise(a, pt, "arg"))
                else:
                    av.append(self.val(a))
            for p in ps[len(args):]:
                pt = f.tu.ty(p["t"])
                import interp
                fr = interp.Frame(f, f.tu, None)
                I.frames.append(fr)
                v = I.rv(p["def"])
                I.frames.pop()
                av.append(I.materialise(v, pt, "arg") if pt.ref else v)
            h = I.hooks.get("ctor:" + f.qs)
            I.call_func(f, slot.d, av, e)
            return
        if not args:
            I.default_init(slot)
            return
        raise Unmodelled("constructor of " + ty.s)

    def vresize(self, lv, n, v=None):
        import interp
        I = self.I
        ty = lv.ty
        et = self.elty(ty)
        if v is None:
            v = I.zero(et) if et is not None else ZERO
        old = self.rd(lv, "#")
        items = v.m if isinstance(v, self.Agg) else {(): v}
        for c, r in leaf_conds(I.simp(lv.d)):
            if not isinstance(r, RefV):
                continue
            root, path, idx = I.split_ref(r)
            if idx:
                raise Unmodelled("resize of a nested vector")
            g = d_and(I.live, c)
            b = I.birth.get(root)
            if b is not None and b[0] == I.depth and b[1] is g:
                g = TRUE
            dct = I.st.setdefault(root, {})
            for k, x in items.items():
                p = path + ("[]",) + k
                o = dct.get(p)
                if o is None:
                    o = I.uninit(root, p, I.kind_of(x))
                nv = ite(cmp("<", dat(interp.ARGS[0]), old, False), o, shift(x))
                dct[p] = ite(g, nv, o)
        self.wr(lv, ("#",), n)

    def iterator(self, e, fn, name):
        I = self.I
        o = self.obj(e)
        if name == "operator*":
            p = I.scalar(self.val(o))
            return self.LV(I.deref(p), I.ety(e))
        if name == "operator->":
            return I.scalar(self.val(o))
        if name in ("operator++", "operator--"):
            lv = o
            old = I.scalar(I.load(lv))
            I.store(lv, I.advance(old, ONE if "+" in name else num(-1)))
            return old if e["args"] else lv
        if name in ("operator+", "operator-"):
            b = I.scalar(I.rv(e["args"][0]))
            return I.binop(name[8], I.scalar(self.val(o)), b, False)
        if name in ("operator+=", "operator-="):
            b = I.scalar(I.rv(e["args"][0]))
            I.store(o, I.advance(I.load(o), b if "+" in name else d_neg(b)))
            return o
        if name == "operator[]":
            b = I.scalar(I.rv(e["args"][0]))
            return self.LV(I.deref(I.advance(self.val(o), b)), I.ety(e))
        if name == "base":
            return I.scalar(self.val(o))
        raise NotImplementedError

    # ------------------------------------------------------------------ maps
    def map(self, e, fn, name, rec):
        I = self.I
        if rec.startswith("std::__detail") or rec.startswith("std::_Rb"):
            p = I.scalar(I.rv(e["obj"]))
            if name == "operator->":
                return p
            if name == "operator*":
                return self.LV(I.deref(p), I.ety(e))
            raise NotImplementedError
        lv = self.objlv(e)
        a = self.sargs(e) if name not in ("operator=", "insert", "emplace", "insert_or_assign", "try_emplace") else None
        ref = lambda k: I.index(lv.d, k)
        isset = rec in SETS

        def mapit(kind, k):
            return apply(None, lambda r: leaf(RefV(kind, r.root, r.path, k)), I.simp(lv.d))
        if name == "find":
            return mapit("mapit", a[0])
        if name in ("end", "cend"):
            return mapit("mapend", None)
        if name in ("count", "contains"):
            h = I.read(ref(a[0]), ("has",), "bool")
            return h if name == "contains" else ite(h, ONE, ZERO)
        if name in ("at",):
            has = I.read(ref(a[0]), ("has",), "bool")
            I.emit("mapat", (lv.d, a[0], has), e)
            I.do_throw(None, e, d_and(I.live, d_not(has)))
            return self.LV(I.field(ref(a[0]), "second"), self.elty(lv.ty))
        if name == "operator[]":
            has = I.read(ref(a[0]), ("has",), "bool")
            z = I.zero(self.elty(lv.ty))
            for k, x in (z.m if isinstance(z, self.Agg) else {(): z}).items():
                I.write(ref(a[0]), ("second",) + k, x, d_and(I.live, d_not(has)))
            I.write(ref(a[0]), ("has",), TRUE)
            return self.LV(I.field(ref(a[0]), "second"), self.elty(lv.ty))
        if name in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            vs = [I.rv(x) for x in e["args"]]
            if isset:
                k = I.scalar(vs[0])
                I.write(ref(k), ("has",), TRUE)
                return self.Agg({})
            if len(vs) == 2:
                k, v = I.scalar(vs[0]), vs[1]
            elif isinstance(vs[0], self.Agg) and ("first",) in vs[0].m:
                k = vs[0].m[("first",)]
                sub = {p[1:]: x for p, x in vs[0].m.items() if p[0] == "second"}
                v = sub[()] if list(sub) == [()] else self.Agg(sub)
            else:
                raise Unmodelled("map insertion")
            has = I.read(ref(k), ("has",), "bool")
            g = I.live if name == "insert_or_assign" else d_and(I.live, d_not(has))
            for p, x in (v.m if isinstance(v, self.Agg) else {(): v}).items():
                I.write(ref(k), ("second",) + p, x, g)
            I.write(ref(k), ("has",), TRUE)
            return self.Agg({("second",): d_not(has)})
        if name == "clear":
            for c, r in leaf_conds(I.simp(lv.d)):
                root, path, idx = I.split_ref(r)
                p = path + ("[]", "has")
                g = d_and(I.live, c)
                b = I.birth.get(root)
                if b is not None and b[0] == I.depth and b[1] is g:
                    g = TRUE
                old = I.st[root].get(p, FALSE)
                I.st[root][p] = d_and(old, d_not(g))
            return leaf(VOID)
        if name == "erase":
            I.write(ref(a[0]), ("has",), FALSE)
            return leaf(VOID)
        if name == "reserve":
            return leaf(VOID)
        if name == "operator=":
            I.store(lv, I.rv(e["args"][0]))
            return lv
        raise NotImplementedError

    def optional(self, e, fn, name):
        I = self.I
        o = self.objlv(e)
        if name in ("has_value", "operator bool"):
            return self.rd(o, "has", kind="bool")
        if name in ("value", "operator*"):
            return self.LV(I.field(o.d, "val"), self.elty(o.ty))
        if name == "operator->":
            return I.field(o.d, "val")
        if name == "value_or":
            b = I.rv(e["args"][0])
            a = I.load(self.LV(I.field(o.d, "val"), self.elty(o.ty)))
            return I.merge(self.rd(o, "has", kind="bool"), a, b)
        if name == "operator=":
            v = I.rv(e["args"][0])
            if isinstance(v, self.Agg) and ("has",) in v.m:
                I.store(o, v)
            else:
                I.store(o, self.pack(("has", "val"), [TRUE, v]))
            return o
        if name == "reset":
            self.wr(o, ("has",), FALSE)
            return leaf(VOID)
        raise NotImplementedError

    # ------------------------------------------------------------------ smart pointers
    def uptr(self, e, fn, name):
        I = self.I
        o = I.ev_expr(e["obj"])
        if name in ("get", "operator->"):
            return I.scalar(self.val(o))
        if name == "operator*":
            return self.LV(I.deref(I.scalar(self.val(o))), I.ety(e))
        if name == "operator bool":
            return I.tobool(I.scalar(self.val(o)))
        if name == "reset":
            a = self.sargs(e)
            I.store(o, a[0] if a else leaf(NULL))
            return leaf(VOID)
        if name == "release":
            v = I.scalar(self.val(o))
            I.store(o, leaf(NULL))
            return v
        if name == "operator=":
            v = I.ev_expr(e["args"][0])
            x = I.scalar(self.val(v))
            if isinstance(v, self.LV) and fn.get("rec") == "std::unique_ptr":
                I.store(v, leaf(NULL))
            I.store(o, x)
            return o
        if name == "swap":
            v = I.ev_expr(e["args"][0])
            a, b = I.load(o), I.load(v)
            I.store(o, b)
            I.store(v, a)
            return leaf(VOID)
        raise NotImplementedError

    # ------------------------------------------------------------------ strings and paths
    def string(self, e, fn, name, rec):
        I = self.I
        ispath = rec == "std::filesystem::path"
        o = self.obj(e)
        s = I.scalar(self.val(o))
        if name in ("c_str", "string", "native", "data", "u8string", "generic_string", "str", "operator basic_string", "lexically_normal") or name.startswith("operator basic_string") or name.startswith("operator std::"):
            return s
        if name in ("operator=", "assign"):
            v = self.tostrv(I.scalar(I.rv(e["args"][0])))
            I.store(o, v)
            return o
        if name in ("operator+=", "append", "push_back", "concat"):
            a = [I.scalar(I.rv(x)) for x in e["args"]]
            if len(a) != 1:
                raise NotImplementedError
            I.store(o, concat(s, self.tostrv(a[0])))
            return o
        if name == "operator/=":
            a = I.scalar(I.rv(e["args"][0]))
            I.store(o, self.join(s, self.tostrv(a)))
            return o
        if name in ("empty",):
            return streq(s, strl())
        if name in ("size", "length"):
            return self.strlen(s)
        if name == "clear":
            I.store(o, strl())
            return leaf(VOID)
        if name in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            a = self.sargs(e)
            sub = self.tostrv(a[0])
            pos = a[1] if len(a) > 1 else ZERO
            return self.find(name, s, sub, pos)
        if name in ("starts_with", "ends_with", "contains"):
            sub = self.tostrv(self.sargs(e)[0])

            def f(x, y):
                cx, cy = x.const(), y.const()
                if cx is not None and cy is not None:
                    return leaf({"starts_with": cx.startswith, "ends_with": cx.endswith, "contains": lambda z: z in cx}[name](cy))
                return batom(name, leaf(x), leaf(y))
            return apply(("swith", name), f, s, sub)
        if name == "compare":
            a = self.sargs(e)
            if len(a) == 1:
                t = self.tostrv(a[0])
                if s.is_leaf and t.is_leaf and s.leaf.const() is not None and t.leaf.const() is not None:
                    x, y = s.leaf.const(), t.leaf.const()
                    return num((x > y) - (x < y))
                return ite(streq(s, self.tostrv(a[0])), ZERO, dat(atom("strcompare", s, self.tostrv(a[0]))))
            if len(a) == 3:
                return self.compare_sub(s, a[0], a[1], self.tostrv(a[2]))
            raise NotImplementedError
        if name == "substr":
            a = self.sargs(e)
            n = a[1] if len(a) > 1 else None
            return self.substr(s, a[0], n)
        if name in ("extension", "filename", "parent_path", "stem", "root_path", "relative_path"):
            return self.pathpart(name, s)
        if name == "replace_extension":
            a = self.sargs(e)
            x = apply(None, lambda x, y: leaf(Str((atom("replext", leaf(x), leaf(y)),))), s, self.tostrv(a[0]))
            I.store(o, x)
            return o
        if name in ("has_extension", "has_filename", "has_parent_path", "is_absolute", "is_relative"):
            return apply(None, lambda x: batom(name, leaf(x)), s)
        if name in ("operator[]", "at", "front", "back"):
            i = I.scalar(I.rv(e["args"][0])) if e["args"] else (ZERO if name == "front" else num(-1))
            return apply(None, lambda x, y: self.charat(x, y), s, i)
        if name == "erase" or name == "pop_back" or name == "insert" or name == "replace" or name == "resize":
            a = self.sargs(e)
            x = satom("stredit", name, I.where(e), s)
            I.store(o, x)
            return o
        raise NotImplementedError

    def charat(self, x, y):
        c, i = x.const(), as_poly(y).const()
        if c is not None and i is not None and -len(c) <= i < len(c):
            return num(ord(c[int(i)]))
        if c is not None and i == len(c):
            return ZERO
        return dat(atom("charat", leaf(x), as_poly(y)))

    def strlen(self, s):
        def f(x):
            n = P0
            for p in x.parts:
                n = p_add(n, pconst(len(p.encode())) if isinstance(p, str) else patom(atom("len", leaf(Str((p,))))))
            return leaf(n)
        return apply("strlen", f, s)

    def find(self, name, s, sub, pos):
        I = self.I

        def f(x, y, p):
            cx, cy, cp = x.const(), as_str(y).const(), as_poly(p).const()
            if cx is not None and cy is not None and cp is not None:
                r = {"find": lambda: cx.find(cy, int(cp)), "rfind": lambda: cx.rfind(cy),
                     "find_first_of": lambda: next((k for k in range(int(cp), len(cx)) if cx[k] in cy), -1),
                     "find_first_not_of": lambda: next((k for k in range(int(cp), len(cx)) if cx[k] not in cy), -1)}.get(name)
                if r is not None:
                    k = r()
                    return num(k if k >= 0 else NPOS)
            if name == "find" and cp == 0 or name == "rfind" and cp in (0, NPOS):
                c = I.content.contains(x, as_str(y)) if I.content is not None else None
                if c is None:
                    c = batom("contains", leaf(x), leaf(y))
                a = atom("findpos", name, leaf(x), leaf(y), nn=True)
            else:
                c = batom("found", name, leaf(x), leaf(y), as_poly(p))
                a = atom("findpos", name, leaf(x), leaf(y), as_poly(p), nn=True)
            a.info = "int"
            core.UPPER[a] = pconst(NPOS)
            return ite(c, dat(a), num(NPOS))
        return apply(("strfind", name) if I.content is None else None, f, s, sub, pos)

    def substr(self, s, p, n):
        def f(x, pp, *nn):
            c, cp = x.const(), as_poly(pp).const()
            cn = as_poly(nn[0]).const() if nn else Fraction(10 ** 9)
            if c is not None and cp is not None and cn is not None:
                return strl(c[int(cp):int(cp) + int(cn)])
            return satom("substr", leaf(x), as_poly(pp), *[as_poly(z) for z in nn])
        return apply("substr", f, s, p, *([n] if n is not None else []))

    def compare_sub(self, s, p, n, t):
        sub = self.substr(s, p, n)
        return ite(streq(sub, t), ZERO, ONE)

    def pathpart(self, name, s):
        def f(x):
            c = x.const()
            if c is not None:
                import os.path as P
                b = c.rsplit("/", 1)[-1]
                if name == "filename":
                    return strl(b)
                if name == "parent_path":
                    return strl(c.rsplit("/", 1)[0] if "/" in c else "")
                if name in ("extension", "stem"):
                    st, ex = (b, "") if b in (".", "..") or "." not in b[1:] else (b[:b.rindex(".")], b[b.rindex("."):])
                    return strl(ex if name == "extension" else st)
            # the last literal component decides the extension
            if name == "extension" and x.parts and isinstance(x.parts[-1], str):
                t = x.parts[-1]
                if "/" not in t and "." in t and not t.startswith("."):
                    return strl(t[t.rindex("."):])
            return satom(name, leaf(x))
        return apply(("pathpart", name), f, s)

    def join(self, a, b):
        def f(x, y):
            cy = y.const()
            if cy is not None and cy.startswith("/"):
                return leaf(y)
            cx = x.const()
            if cx == "":
                return leaf(y)
            sep = () if (x.parts and isinstance(x.parts[-1], str) and x.parts[-1].endswith("/")) else ("/",)
            return leaf(Str(x.parts + sep + y.parts))
        return apply("pathjoin", f, a, b)

    def fs(self, e, fn, name):
        I = self.I
        ops = [I.scalar(self.val(v)) for v in self.operands(e)] if not name == "operator<<" else None
        if name == "operator<<":
            return self.out_call(e)
        if name == "operator/":
            return self.join(self.tostrv(ops[0]), self.tostrv(ops[1]))
        if name in ("operator==", "operator!="):
            r = streq(self.tostrv(ops[0]), self.tostrv(ops[1]))
            return r if name.endswith("==") else d_not(r)
        if name in ("exists", "is_regular_file", "is_directory", "is_empty"):
            p = self.tostrv(ops[0])
            I.emit("fsquery", (name, p), e)
            return apply(None, lambda x: batom(name, leaf(x)), p)
        if name == "equivalent":
            a = [self.tostrv(x) for x in ops[:2]]
            return TRUE if a[0] is a[1] else batom("equivalent", *a)
        if name in ("absolute", "weakly_canonical", "canonical", "relative"):
            return apply(None, lambda x: satom(name, leaf(x)), self.tostrv(ops[0]))
        if name in ("create_directories", "create_directory", "copy_file", "copy", "remove", "remove_all", "rename", "resize_file", "create_symlink"):
            I.emit("fs", (name,) + tuple(ops), e)
            self.mayfail(name, e, *ops[:2])
            return batom("fsok", name, I.where(e))
        if name == "current_path" and not ops:
            return satom("cwd")
        if name in ("file_size", "last_write_time"):
            return dat(atom("size", ops[0]))
        if name in ("swap", "hash_value"):
            raise NotImplementedError
        raise NotImplementedError

    def mayfail(self, what, e, *args):
        """a library call that reports errors by an exception: relevant only where somebody catches it"""
        if self.I.tries:
            self.I.do_throw(None, e, d_and(self.I.live, batom("fails", what, *args)))

    # ------------------------------------------------------------------ YAML
    def yaml(self, e, fn, q, name):
        I = self.I
        if name == "LoadFile":
            p = self.tostrv(self.sargs(e)[0])
            I.emit("yamlload", (p,), e)
            self.mayfail("yamlload", e, p)
            return self.Agg({("$node",): strl("")})
        if "obj" in e:
            o = self.val(self.obj(e))
        else:
            o = self.val(I.ev_expr(e["args"][0]))
        key = o.m[("$node",)]
        if name == "operator[]":
            i = I.scalar(I.rv(e["args"][0]))

            def f(k, x):
                if isinstance(x, Str):
                    c = x.const()
                else:
                    c = as_poly(x).const()
                    c = None if c is None else str(int(c))
                if c is None:
                    raise Unmodelled("YAML key that is not a constant")
                kk = k.const()
                return strl(c if kk == "" else kk + "/" + c)
            return self.Agg({("$node",): apply("yamlkey", f, key, i)})
        if name in ("operator bool", "IsDefined", "IsScalar", "IsSequence", "operator!"):
            r = apply(None, lambda k: batom("hascfg", k.const()), key)
            return d_not(r) if name == "operator!" else r
        if name in ("as",):
            ty = I.ety(e)
            k = I.kind_ty(ty)
            tn = {"float": "double" if ty.w == 64 else "float", "bool": "bool"}.get(ty.c, "int" if ty.c == "int" else "string")
            if k is None:
                raise Unmodelled("YAML conversion to " + ty.s)
            v = apply(None, lambda x: I.tv(k, cfgatom(x.const(), tn)), key)
            if e["args"]:
                d = I.scalar(I.rv(e["args"][0]))
                return ite(apply(None, lambda x: batom("hascfg", x.const()), key), v, d)
            I.emit("cfgread", (key,), e)
            self.mayfail("cfgread", e, key, leaf(Str((tn,))))
            return v
        if name in ("size",):
            return apply(None, lambda x: dat(atom("size", x)), key)
        if name == "operator=":
            lv = self.objlv(e)
            I.store(lv, I.rv(e["args"][0]))
            return lv
        raise NotImplementedError

    # ------------------------------------------------------------------ argparse
    def argp(self, e, fn, q, name):
        I = self.I
        if name == "add_argument":
            names = [x.leaf.const() for x in self.sargs(e) if x.is_leaf and isinstance(x.leaf, Str)]
            rec = {"names": names, "action": None, "required": False, "default": None, "loc": I.where(e)}
            self.argparse.append(rec)
            return self.Agg({}, ("arg", rec))
        if name in ("required", "help", "action", "default_value", "metavar", "nargs", "implicit_value", "append", "remaining"):
            o = I.ev_expr(e["obj"])
            rec = o.tag[1] if isinstance(o, self.Agg) and o.tag else None
            if rec is None:
                raise Unmodelled("argparse argument")
            if name == "action":
                rec["action"] = I.scalar(I.rv(e["args"][0]))
            elif name == "required":
                rec["required"] = True
            elif name == "default_value":
                rec["default"] = I.rv(e["args"][0])
            return o
        if name in ("parse_args", "parse_known_args"):
            bad = batom("argerr")
            I.do_throw(None, e, d_and(I.live, bad))
            for rec in self.argparse:
                v = satom("argv", rec["names"][-1])
                if rec["action"] is not None:
                    try:
                        v = I.scalar(I.call_value(rec["action"], [I.materialise(v, T_STR, "arg")], e))
                    except Unmodelled:
                        raise
                for n in rec["names"]:
                    self.argvals[n] = v
            I.emit("parse_args", (), e)
            return leaf(VOID)
        if name in ("get", "present"):
            n = self.sargs(e)[0].leaf.const()
            v = self.argvals.get(n)
            if v is None:
                I.do_exit(num(134), e)
                return satom("argv", n)
            return v
        if name in ("add_description", "add_epilog"):
            return I.ev_expr(e["obj"])
        if name == "operator<<":
            return self.val(I.ev_expr(e["args"][0])) if False else I.ev_expr(e["args"][0])
        if name in ("help", "usage"):
            return satom("usage")
        raise NotImplementedError

    # ------------------------------------------------------------------ CSV reader
    def csv(self, e, fn, name):
        I = self.I
        lv = self.objlv(e)
        src = self.rd(lv, "$src", kind="str")
        if name == "next_line":
            n = self.rd(lv, "$line")
            self.wr(lv, ("$line",), d_add(n, ONE))
            C = I.content
            if C is not None:
                # next_line() returns a null pointer at the end of the file: no string can be made from it
                I.do_throw(None, e, d_and(I.live, d_not(apply(None, lambda s, k: C.lineok(s, as_poly(k), lambda s, k: TRUE), src, n))))
            fv = lambda s, k: satom("csvline", leaf(s), as_poly(k))
            return apply(None, fv if C is None else lambda s, k: C.line(s, as_poly(k), fv), src, n)
        if name == "read_header":
            a = [I.scalar(I.rv(x)) for x in e["args"]]
            pol = a[0]
            names = tuple(a[1:])
            c = pol.leaf.const() if pol.is_leaf and isinstance(pol.leaf, (Poly,)) else as_poly(pol.leaf).const()
            self.csvhead = (int(c), [x.leaf.const() for x in names])
            n = self.rd(lv, "$line")
            self.wr(lv, ("$line",), d_add(n, ONE))
            I.emit("csvheader", (pol, n) + names, e)
            if I.content is not None:
                I.do_throw(None, e, d_and(I.live, FALSE if I.content.csvheader(src, n, int(c), [x.leaf.const() for x in names]) else TRUE))
            if not int(c) & 2:
                ok = conj([self.csvhas(src, x.leaf.const()) for x in names])
                I.do_throw(None, e, d_and(I.live, d_not(ok)))
            return leaf(VOID)
        if name == "has_column":
            n = self.sargs(e)[0]

            def hc(s, c):
                if c.const() is None:
                    raise Unmodelled("column name")
                return self.csvhas(leaf(s), c.const())
            return apply(None, hc, src, n)
        if name == "read_row":
            pol, names = getattr(self, "csvhead", (0, []))
            row = self.rd(lv, "$row")
            C = I.content
            fo = lambda s, r: batom("csvrow", leaf(s), as_poly(r))
            ok = apply(None, fo if C is None else lambda s, r: C.csvrow(s, as_poly(r), fo), src, row)
            self.wr(lv, ("$row",), ite(ok, d_add(row, ONE), row))
            lvs = [I.ev_expr(a) for a in e["args"]]
            tys = [I.ety(a) for a in e["args"]]
            if C is not None:
                cols = [(names[i], self.csvtype(t)) for i, t in enumerate(tys) if i < len(names)]
                I.do_throw(None, e, d_and(d_and(I.live, ok), apply(None, lambda s, r: C.csvbad(s, as_poly(r), cols), src, row)))
            for i, (l, t) in enumerate(zip(lvs, tys)):
                nm = names[i] if i < len(names) else "?%d" % i
                k = I.kind_ty(t)
                tn = self.csvtype(t)
                fv = lambda s, r: I.tv(k, atom("csvtok", leaf(s), as_poly(r), nm, tn))
                v = apply(None, fv if C is None else lambda s, r: C.csvtok(s, as_poly(r), nm, tn, fv), src, row)
                has = self.csvhas(src, nm)
                I.write(l.d, (), v, d_and(I.live, d_and(ok, has)))
            I.emit("csvread", (lv.d, row, ok), e)
            return ok
        if name in ("set_header",):
            I.emit("csvsetheader", tuple(self.sargs(e)), e)
            return leaf(VOID)
        if name in ("get_file_line", "get_truncated_file_name"):
            return dat(atom("fileline"))
        if name == "set_file_line":
            return leaf(VOID)
        raise NotImplementedError

    def csvtype(self, t):
        return "int" if t.c == "int" else "double" if t.c == "float" and t.w == 64 else t.c + str(t.w)

    def csvhas(self, src, n):
        fo = lambda s: batom("csvhas", leaf(s), n)
        return apply(None, fo if self.I.content is None else lambda s: self.I.content.csvhas(s, n, fo), src)

    # ------------------------------------------------------------------ clocks
    def clk(self):
        return dat(atom("clk", self.I.tmp_atom()))

    def chrono(self, e, fn, name):
        I = self.I
        if name == "count":
            I.ev_expr(e["obj"])
            return self.clk()
        if name == "operator=" or name in ("operator-=", "operator+=", "operator*=", "operator/=", "operator%="):
            v = I.rv(e["args"][0])
            lv = self.objlv(e)
            I.store(lv, self.Agg({("$t",): self.clk()}))
            return lv
        for v in self.operands(e):
            pass
        if name in ("operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!="):
            return batom("clkcmp", I.tmp_atom())
        t = I.ety(e)
        if t.c in ("int", "float"):
            return self.clk()
        return self.Agg({("$t",): self.clk()})

    # ------------------------------------------------------------------ streams
    def stream_init(self, lv, ty):
        w = self.wr
        n = ty.n
        w(lv, ("$st",), TRUE)
        w(lv, ("$w",), ZERO)
        w(lv, ("$fill",), num(32))
        w(lv, ("$prec",), num(6))
        w(lv, ("$flt",), ZERO)
        w(lv, ("$bin",), ZERO)
        w(lv, ("$str",), strl())
        w(lv, ("$pos",), ZERO)
        w(lv, ("$line",), ZERO)
        w(lv, ("$src",), strl())

    def stream_open(self, lv, ty, path, e, mode=()):
        I = self.I
        p = self.tostrv(path)
        kind = "in" if ty.n == "std::basic_ifstream" else "out"
        self.wr(lv, ("$src",), p)
        C = I.content
        ok = apply(None, lambda x: C.opens if C is not None and kind == "in" and C.mine(x) else batom("openok", kind, leaf(x)), p)
        self.wr(lv, ("$st",), ok)
        self.wr(lv, ("$pos",), ZERO)
        self.wr(lv, ("$line",), ZERO)
        I.emit("open", (kind, lv.d, p) + tuple(m for m in mode if isinstance(m, D)), e)

    def st_ok(self, lv):
        return self.rdd(lv, ("$st",), TRUE)

    def stream_member(self, e, fn, name):
        I = self.I
        if name == "operator<<":
            return self.out_call(e)
        if name == "operator>>":
            return self.in_call(e)
        lv = self.objlv(e)
        if name in ("fail", "operator!"):
            return d_not(self.st_ok(lv))
        if name in ("operator bool",):
            return self.st_ok(lv)
        if name in ("good", "is_open"):
            return self.st_ok(lv)
        if name == "bad":
            return FALSE if False else d_not(batom("notbad", I.tmp_atom()))
        if name == "eof":
            src, pos = self.rdd(lv, ("$src",), strl()), self.rdd(lv, ("$pos",), ZERO)
            ln = self.rdd(lv, ("$line",), ZERO)
            return apply(None, lambda s, p, q: batom("eof", leaf(s), as_poly(p), as_poly(q)), src, pos, ln)
        if name == "clear":
            self.wr(lv, ("$st",), TRUE)
            return leaf(VOID)
        if name in ("seekg", "seekp"):
            self.sargs(e[:] if False else {"args": e["args"][:1]})
            self.wr(lv, ("$pos",), ZERO)
            self.wr(lv, ("$line",), ZERO)
            I.emit("seek", (lv.d,), e)
            return lv
        if name == "open":
            a = self.sargs(e)
            self.stream_open(lv, I.ety(e["obj"]), a[0], e, a[1:])
            return leaf(VOID)
        if name == "close":
            I.emit("close", (lv.d,), e)
            return leaf(VOID)
        if name == "str":
            if e["args"]:
                s = I.scalar(I.rv(e["args"][0]))
                for p, v in ((("$src",), s), (("$str",), s), (("$pos",), ZERO), (("$line",), ZERO)):
                    self.wr(lv, p, v)
                I.emit("strset", (lv.d, s), e)
                return leaf(VOID)
            b = self.rdd(lv, ("$bin",), ZERO)
            s = self.rdd(lv, ("$str",), strl())
            r = I.simp(lv.d)

            def f(x, y, z):
                if as_poly(x).const() == 0:
                    return leaf(y)
                return satom("content", z.root)
            v = apply(None, f, b, s, r)
            I.emit("str", (lv.d,), e)
            return v
        if name == "tellp":
            p = self.rdd(lv, ("$pos",), ZERO)
            return self.Agg({("$off",): p})
        if name == "write":
            return self.write(lv, e)
        if name in ("flush",):
            return lv
        if name == "put":
            return self.emit_out(lv, I.scalar(I.rv(e["args"][0])), "char", e)
        if name in ("precision", "width", "fill"):
            slot = {"precision": "$prec", "width": "$w", "fill": "$fill"}[name]
            old = self.rdd(lv, (slot,), {"$prec": num(6), "$w": ZERO, "$fill": num(32)}[slot])
            if e["args"]:
                self.wr(lv, (slot,), I.scalar(I.rv(e["args"][0])))
            return old
        if name in ("setf", "unsetf"):
            a = self.sargs(e)
            self.wr(lv, ("$flt",), dat(atom("fmtflag", a[0])))
            return ZERO
        if name == "exceptions":
            I.emit("streamexc", (lv.d,), e)
            raise NotImplementedError
        if name == "ignore":
            self.wr(lv, ("$pos",), d_add(self.rdd(lv, ("$pos",), ZERO), ONE))
            return lv
        if name == "get":
            raise NotImplementedError
        if name == "peek":
            return dat(atom("peek", I.tmp_atom()))
        if name in ("rdbuf", "sync_with_stdio", "tie", "imbue"):
            for a in e["args"]:
                I.ev_expr(a)
            return leaf(NULL)
        raise NotImplementedError

    def strip(self, a):
        while a["k"] == "cast":
            a = a["e"]
        return a

    def write(self, lv, e):
        """unformatted output of n bytes starting at a pointer"""
        I = self.I
        a0 = self.strip(e["args"][0])
        pt = I.ety(a0)
        p = I.scalar(I.rv(e["args"][0]))
        n = I.scalar(I.rv(e["args"][1]))
        et = pt.el[0] if pt.c == "ptr" and pt.el else None
        kinds = [x.kind for x in leaves_of(p) if isinstance(x, RefV)]
        val = None
        if any(isinstance(x, Str) for x in leaves_of(p)):
            val = p
        elif kinds and kinds[0] == "ptr" and et is not None and I.kind_ty(et) is not None:
            val = I.read(p, (), I.kind_ty(et))
        pos = self.rdd(lv, ("$pos",), ZERO)
        I.emit("binwrite", (lv.d, val if val is not None else p, n, et.s if et is not None else "?", et.w if et is not None else 0, pos), e)
        self.wr(lv, ("$pos",), d_add(pos, n))
        self.wr(lv, ("$bin",), ONE)
        return lv

    MANIP = {"std::fixed": 1, "std::scientific": 2, "std::defaultfloat": 0, "std::hexfloat": 3}

    def out_call(self, e):
        I = self.I
        ops = ([("obj", e["obj"])] if "obj" in e else []) + [("a", a) for a in e["args"]]
        s = self.obj(e) if "obj" in e else I.ev_expr(ops[0][1])
        a = ops[1][1]
        if not isinstance(s, self.LV):
            raise Unmodelled("output to a temporary stream")
        b = self.strip(a)
        if b["k"] == "fn":
            q = b["fn"]["q"].split("<")[0]
            if q == "std::endl":
                return self.emit_out(s, strl("\n"), "str", e)
            if q == "std::flush":
                return s
            if q == "std::ends":
                return self.emit_out(s, strl("\0"), "str", e)
            if q in self.MANIP:
                self.wr(s, ("$flt",), num(self.MANIP[q]))
                return s
            if q in ("std::dec", "std::left", "std::right", "std::noboolalpha", "std::noshowpos", "std::noshowpoint", "std::skipws"):
                return s
            if q in ("std::hex", "std::oct", "std::showpos", "std::boolalpha", "std::internal", "std::uppercase", "std::showpoint"):
                self.wr(s, ("$flt",), dat(atom("fmtflag", q)))
                return s
            raise Unmodelled("manipulator " + q)
        v = I.ev_expr(a)
        if isinstance(v, self.Agg) and v.tag and v.tag[0] == "manip":
            slot, x = v.tag[1], v.tag[2]
            self.wr(s, (slot,), x)
            return s
        ty = I.ety(a)
        if ty.n.startswith("argparse::"):
            return s
        v = I.scalar(self.val(v))
        if I.is_strty(ty) or ty.c in ("ptr", "arr") or I.kind_of(v) == "str":
            return self.emit_out(s, v, "path" if ty.n == "std::filesystem::path" else "str", e)
        if ty.c == "bool":
            return self.emit_out(s, v, "bool", e)
        if ty.c == "int":
            return self.emit_out(s, v, "char" if ty.w == 8 else "int", e)
        if ty.c == "float":
            return self.emit_out(s, v, "double" if ty.w == 64 else "float", e)
        if ty.c == "enum":
            return self.emit_out(s, v, "int", e)
        if ty.n == "std::fpos":
            return self.emit_out(s, v, "int", e)
        raise Unmodelled("output of " + ty.s)

    def emit_out(self, s, v, kind, e):
        I = self.I
        w = self.rdd(s, ("$w",), ZERO)
        fill = self.rdd(s, ("$fill",), num(32))
        prec = self.rdd(s, ("$prec",), num(6))
        flt = self.rdd(s, ("$flt",), ZERO)
        if kind == "char":
            v = apply("aschar", lambda x: leaf(as_str(x)), v)
            kind = "str"
        if kind == "bool":
            v = ite(v, ONE, ZERO)
            kind = "int"
        I.emit("out", (s.d, v, kind, w, fill, prec, flt), e)
        if w is not ZERO:
            self.wr(s, ("$w",), ZERO)
        if s.ty is None or s.ty.n in ("std::basic_stringstream", "std::basic_ostringstream") or self.is_sstream(s):
            old = self.rdd(s, ("$str",), strl())
            t = self.fmt(v, kind, w, fill, prec, flt)
            self.wr(s, ("$str",), concat(old, t))
            self.wr(s, ("$pos",), d_add(self.rdd(s, ("$pos",), ZERO), self.strlen(t)))
        return s

    def is_sstream(self, s):
        # any stream object that was default-initialised by us as a string stream keeps "$str"
        d = self.I.simp(s.d)
        if d.is_leaf and isinstance(d.leaf, RefV):
            root, p, idx = self.I.split_ref(d.leaf)
            return not root.startswith("g:") and p + ("$str",) in self.I.st.get(root, {}) and self.I.st[root].get(p + ("$src",)) is not None \
                and self.I.st[root][p + ("$src",)] is strl()
        return False

    def fmt(self, v, kind, w, fill, prec, flt):
        def f(x, ww, ff, pp, ll):
            if isinstance(x, Str):
                if as_poly(ww).const() == 0:
                    return leaf(x)
                c = x.const()
                if c is not None and as_poly(ww).const() is not None and as_poly(ff).const() is not None:
                    return strl(c.rjust(int(as_poly(ww).const()), chr(int(as_poly(ff).const()))))
                return satom("pad", leaf(x), as_poly(ww), as_poly(ff))
            p = as_poly(x)
            c = p.const()
            if kind == "int":
                if c is not None and as_poly(ww).const() is not None:
                    return strl(str(int(c)).rjust(int(as_poly(ww).const()), chr(int(as_poly(ff).const()))))
                if as_poly(ww).const() in (0, 1):
                    return satom("tostr", "int", p)
                return satom("fmt", "int", p, as_poly(ww), as_poly(ff))
            return satom("fmt", kind, p, as_poly(ww), as_poly(ff), as_poly(pp), as_poly(ll))
        return apply(None, f, v, w, fill, prec, flt)

    def in_call(self, e):
        I = self.I
        if "obj" in e:
            s = self.obj(e)
            a = e["args"][0]
        else:
            s = I.ev_expr(e["args"][0])
            a = e["args"][1]
        b = self.strip(a)
        if b["k"] == "fn":
            return s
        t = I.ev_expr(a)
        ty = I.ety(a)
        if isinstance(t, self.Agg):
            return s
        self.extract(s, t, ty, e)
        return s

    def tyname(self, ty):
        if ty.c == "float":
            return "double" if ty.w == 64 else "float"
        if ty.c == "int":
            return "char" if ty.w == 8 else "int" if ty.w == 32 and not ty.u else "int%d%s" % (ty.w, "u" if ty.u else "")
        if ty.c == "bool":
            return "bool"
        return "word"

    def extract(self, s, t, ty, e):
        I = self.I
        src = self.rdd(s, ("$src",), self.globsrc(s))
        pos = self.rdd(s, ("$pos",), ZERO)
        ok0 = self.st_ok(s)
        k = I.kind_ty(ty)
        tn = self.tyname(ty)
        C = I.content
        fv = lambda x, p: I.tv(k, atom("tok", leaf(x), as_poly(p), tn))
        fo = lambda x, p: batom("tokok", leaf(x), as_poly(p), tn)
        val = apply(None, fv if C is None else lambda x, p: C.tok(x, as_poly(p), tn, fv), src, pos)
        ok1 = apply(None, fo if C is None else lambda x, p: C.tokok(x, as_poly(p), tn, fo), src, pos)
        old = I.scalar(I.load(t))
        bad = I.zero_kind(k) if k != "str" else old
        I.store(t, ite(ok0, ite(ok1, val, bad), old))
        self.wr(s, ("$pos",), d_add(pos, ONE))
        self.wr(s, ("$st",), d_and(ok0, ok1))
        I.emit("extract", (s.d, pos), e)

    def globsrc(self, s):
        d = self.I.simp(s.d)
        if d.is_leaf and isinstance(d.leaf, RefV) and isinstance(d.leaf.root, str) and d.leaf.root.startswith("g:"):
            return satom("stdin", d.leaf.root)
        return strl()

    def getline(self, s, t, e):
        I = self.I
        src = self.rdd(s, ("$src",), self.globsrc(s))
        ln = self.rdd(s, ("$line",), ZERO)
        ok0 = self.st_ok(s)
        C = I.content
        fv = lambda x, p: satom("line", leaf(x), as_poly(p))
        fo = lambda x, p: batom("lineok", leaf(x), as_poly(p))
        val = apply(None, fv if C is None else lambda x, p: C.line(x, as_poly(p), fv), src, ln)
        ok1 = apply(None, fo if C is None else lambda x, p: C.lineok(x, as_poly(p), fo), src, ln)
        old = I.scalar(I.load(t))
        # at the end of the file the sentry fails or an empty string is stored
        I.store(t, ite(ok0, ite(ok1, val, strl()), old))
        self.wr(s, ("$line",), d_add(ln, ONE))
        self.wr(s, ("$st",), d_and(ok0, ok1))
        I.emit("getline", (s.d, ln), e)
        return s

    # ------------------------------------------------------------------ free functions
    def isnan(self, v):
        def f(x):
            x = as_poly(x)
            return FALSE if x.const() is not None else TRUE if has_nan(x) else batom("isnan", x)
        return apply(None, f, v)

    def isfinite(self, v):
        def f(x):
            x = as_poly(x)
            return TRUE if x.const() is not None else FALSE if has_nan(x) else batom("isfinite", x)
        return apply(None, f, v)

    def free(self, e, fn, q, name):
        I = self.I
        Agg, LV = self.Agg, self.LV
        args = e["args"]
        if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof") and len(args) == 1:
            v = I.ev_expr(args[0])
            return v
        if q in ("exit", "std::exit", "_exit", "std::_Exit", "quick_exit", "std::quick_exit", "_Exit"):
            I.do_exit(I.scalar(I.rv(args[0])), e)
            return leaf(VOID)
        if q in ("abort", "std::abort", "std::terminate"):
            I.do_exit(num(134), e)
            return leaf(VOID)
        if q == "std::operator<<":
            return self.out_call(e)
        if q == "std::operator>>":
            return self.in_call(e)
        if q == "std::getline":
            s, t = I.ev_expr(args[0]), I.ev_expr(args[1])
            return self.getline(s, t, e)
        if q in ("std::setw", "std::setfill", "std::setprecision"):
            return Agg({}, ("manip", {"std::setw": "$w", "std::setfill": "$fill", "std::setprecision": "$prec"}[q], I.scalar(I.rv(args[0]))))
        if q == "std::put_time":
            self.args(e)
            return satom("time")
        if q in ("localtime", "std::localtime", "gmtime", "time", "std::time", "clock", "std::clock", "omp_get_wtime"):
            for a in args:
                I.ev_expr(a)
            if I.ety(e).c == "ptr":
                r = I.newroot("tmp")
                return leaf(RefV("ptr", r))
            return self.clk()
        if q in ("printf", "std::printf", "fprintf", "std::fprintf", "puts", "std::puts"):
            vs = []
            for a in args:
                v = I.rv(a)
                vs.append(v)
            I.emit("print", (q, tuple(v for v in vs if isinstance(v, D))), e)
            return ZERO
        base = q[5:] if q.startswith("std::") else q
        if base in ("max", "min", "fmax", "fmin"):
            return self.minmax(e, base)
        if base == "clamp":
            a = self.sargs(e)
            return d_min(d_max(a[0], a[1]), a[2])
        if base in CHARFN and len(args) == 1:
            return charfn(base, self.sargs(e)[0])
        if base in ("abs", "fabs", "fabsf", "labs", "llabs"):
            return d_abs(self.sargs(e)[0])
        if base in ("sqrt", "sqrtf"):
            return d_sqrt(self.sargs(e)[0])
        if base == "pow" or base == "__pow":
            a, b = self.sargs(e)

            def f(x, y):
                c = as_poly(y).const()
                if c is not None and c.denominator == 1 and abs(c) <= 16:
                    r = ONE
                    for _ in range(abs(int(c))):
                        r = d_mul(r, leaf(as_poly(x)))
                    return r if c >= 0 else I.divide(ONE, r)
                if c is not None and c == Fraction(1, 2):
                    return d_sqrt(leaf(as_poly(x)))
                return dat(atom("fn", "pow", as_poly(x), as_poly(y)))
            return apply("pow", f, a, b)
        if base == "hypot":
            a = self.sargs(e)
            r = ZERO
            for x in a:
                r = d_add(r, d_mul(x, x))
            return d_sqrt(r)
        if base in PURE_MATH:
            a = self.sargs(e)
            if base == "acos" and a[0] is num(-1):
                return dat(atom("pi", pos=True, nn=True))
            if base == "atan" and a[0] is num(1):
                return leaf(p_scale(patom(atom("pi", pos=True, nn=True)), Fraction(1, 4)))
            return apply(("fn", base), lambda *xs: dat(atom("fn", base, *[as_poly(x) for x in xs])) if not all(as_poly(x) is P0 for x in xs)
                         else num(1 if base in ("cos", "exp") else 0) if base in ("sin", "cos", "tan", "exp") else dat(atom("fn", base, *[as_poly(x) for x in xs])), *a)
        if base in ("round", "floor", "ceil", "lround", "llround", "trunc", "nearbyint", "rint"):
            b2 = {"lround": "round", "llround": "round", "nearbyint": "round", "rint": "round"}.get(base, base)
            if b2 == "trunc":
                return d_trunc(self.sargs(e)[0])

            def f(x):
                p = as_poly(x)
                c = p.const()
                if c is not None:
                    import math
                    if b2 == "floor":
                        return num(math.floor(c))
                    if b2 == "ceil":
                        return num(math.ceil(c))
                    return num(math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2)))
                if is_integral(p):
                    return leaf(p)
                return dat(atom(b2, p))
            return apply(b2, f, self.sargs(e)[0])
        if base in ("isnan", "__builtin_isnan"):
            return self.isnan(self.sargs(e)[0])
        if base in ("isfinite", "__builtin_isfinite"):
            return self.isfinite(self.sargs(e)[0])
        if base in ("isinf",):
            return apply(None, lambda x: batom("isinf", as_poly(x)), self.sargs(e)[0])
        if base.startswith("__builtin_nan") or base in ("nan", "nanf"):
            return dat(atom("nan"))
        if base.startswith("__builtin_huge") or base.startswith("__builtin_inf"):
            return dat(atom("inf", pos=True))
        if base in ("__builtin_expect",):
            return self.sargs(e)[0]
        if base in ("assert", "__assert_fail", "static_assert"):
            I.do_exit(num(134), e)
            return leaf(VOID)
        if base == "to_string":
            t = I.ety(args[0])
            tn = "int" if t.c in ("int", "bool", "enum") else "double"
            v = self.sargs(e)[0]

            def f(x):
                p = as_poly(x) if not isinstance(x, bool) else pconst(int(x))
                c = p.const()
                if c is not None and tn == "int":
                    return strl(str(int(c)))
                return satom("tostr", tn, p)
            return apply(("to_string", tn), f, v)
        if base in ("stod", "stof", "stoi", "stol", "stoul", "atof", "atoi", "strtod", "stoll", "stoull", "stold"):
            v = self.tostrv(self.sargs(e)[0])
            if base not in ("atof", "atoi", "strtod"):
                fo = lambda x: batom("numok", base, leaf(x))
                bad = apply(None, fo if I.content is None else lambda x: I.content.numok(base, x, fo), v)
                I.emit("maythrow", (base, v), e)
                if I.tries or I.content is not None:
                    I.do_throw(None, e, d_and(I.live, d_not(bad)))
            else:
                I.emit("lenient", (base, v), e)
            fv = lambda x: dat(atom("num", base, leaf(x)))
            return apply(("stod", base), fv, v) if I.content is None else apply(None, lambda x: I.content.num(base, x, fv), v)
        if q == "std::operator+":
            a = self.sargs(e)
            if any(I.kind_of(x) == "str" for x in a):
                return concat(self.tostrv(a[0]), self.tostrv(a[1]))
            return I.binop("+", a[0], a[1], False)
        if q in ("std::operator==", "std::operator!=", "std::operator<", "std::operator>", "std::operator<=", "std::operator>="
                 ) or (name.startswith("operator") and name[8:] in ("==", "!=", "<", ">", "<=", ">=", "-", "+")):
            ops = [self.val(v) for v in self.operands(e)]
            if all(isinstance(x, D) for x in ops):
                if name[8:] in ("-", "+"):
                    return I.binop(name[8:], ops[0], ops[1], False)
                ks = [I.kind_of(x) for x in ops]
                if "str" in ks:
                    ops = [self.tostrv(x) for x in ops]
                return I.compare(name[8:], ops[0], ops[1], True)
            raise NotImplementedError
        if q in ("std::make_pair", "std::make_tuple", "std::tie"):
            vs = [I.ev_expr(a) for a in args]
            if q == "std::tie":
                raise NotImplementedError
            names = ("first", "second") if q == "std::make_pair" else ["t%d" % i for i in range(len(vs))]
            return self.pack(names, vs)
        if q in ("std::make_unique", "std::make_shared"):
            ty = I.ety(e).el[0]
            r = I.newroot("heap")
            lv = LV(leaf(RefV("ptr", r)), ty)
            I.st[r][("$dyn",)] = leaf(Opq(ty.usr or ty.s))
            if ty.repo:
                self.construct_rec(lv, ty, args, e)
            else:
                raise NotImplementedError
            return lv.d
        if q == "std::get":
            import re
            v = I.ev_expr(args[0])
            m = re.search(r"get<(\d+)", fn["usr"].replace("#", "")) or re.search(r"get<#?V[Im]?(\d+)", fn["usr"])
            i = None
            for t in fn.get("ta", []):
                if isinstance(t, dict) and "int" in t:
                    i = int(t["int"])
            if i is None:
                mm = re.search(r"@F@get<#?V?[a-z]?I?(\d+)", fn["usr"])
                i = int(mm.group(1)) if mm else None
            if i is None:
                raise NotImplementedError
            ty = v.ty if isinstance(v, LV) else I.ety(args[0])
            nm = ("first", "second")[i] if ty.n == "std::pair" else "[]" if ty.n == "std::array" else "t%d" % i
            if nm == "[]":
                lv = v if isinstance(v, LV) else I.materialise(v, ty)
                return LV(I.index(lv.d, num(i)), I.ety(e))
            if isinstance(v, LV):
                return LV(I.field(v.d, nm), I.ety(e))
            sub = {k[1:]: x for k, x in v.m.items() if k[0] == nm}
            return sub[()] if list(sub) == [()] else Agg(sub)
        if q == "std::swap":
            a, b = [I.ev_expr(x) for x in args]
            x, y = I.load(a), I.load(b)
            I.store(a, y)
            I.store(b, x)
            return leaf(VOID)
        if q == "std::exchange":
            a = I.ev_expr(args[0])
            b = I.rv(args[1])
            old = I.load(a)
            I.store(a, b)
            return old
        if q in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::size", "std::empty", "std::data"):
            lv = self.objlv({"obj": args[0]})
            if lv.ty.repo:
                c, et = I.container(lv, e)
                lv = LV(c, None)
                n = I.read(c, ("#",), "num")
            else:
                n = self.size_of(lv)
            if name in ("begin", "cbegin", "data"):
                return self.itat(lv, ZERO)
            if name in ("end", "cend"):
                return self.itat(lv, n)
            return n if name == "size" else cmp("==", n, ZERO, False)
        if q in ("std::next", "std::prev"):
            a = I.scalar(I.rv(args[0]))
            b = I.scalar(I.rv(args[1])) if len(args) > 1 else ONE
            return I.advance(a, b if name == "next" else d_neg(b))
        if q == "std::distance":
            a, b = self.sargs(e)
            return I.binop("-", b, a, False)
        if q in ("std::sort", "std::stable_sort"):
            return self.sort(e)
        if q in ("std::for_each", "std::any_of", "std::all_of", "std::none_of", "std::accumulate", "std::count_if", "std::transform", "std::fill",
                 "std::fill_n", "std::find_if", "std::copy", "std::iota", "std::find", "std::max_element", "std::min_element", "std::replace_if",
                 "std::count", "std::replace", "std::transform_reduce", "std::reduce", "std::inner_product"):
            return self.algorithm(e, name)
        if q in ("setenv", "putenv", "omp_set_num_threads", "omp_get_max_threads", "omp_get_thread_num", "omp_get_num_threads"):
            for a in args:
                I.rv(a)
            I.emit("ompapi", (q,), e)
            return dat(atom("ompapi", q, nn=True)) if I.ety(e).c == "int" else leaf(VOID)
        if q in ("std::memcpy", "memcpy") and len(args) == 3:
            raise NotImplementedError
        if q in ("std::chrono::system_clock::now",):
            return self.chrono(e, fn, name)
        raise NotImplementedError

    def minmax(self, e, base):
        I = self.I
        args = e["args"]
        f = d_max if "max" in base else d_min
        if len(args) == 1:
            v = I.rv(args[0])
            n = int(v.m[("#",)].leaf.const())
            r = None
            for i in range(n):
                x = I.sub_args(v.m[("[]",)], [num(i)], True)
                # std::max keeps the first of equals: the value is the same
                r = x if r is None else f(r, x)
            return r
        if len(args) == 2:
            a, b = self.sargs(e)
            if core.NANMODE[0]:
                # std::max(a, b) is (a < b) ? b : a
                return ite(cmp("<", a, b), b, a) if "max" in base else ite(cmp("<", b, a), b, a)
            return f(a, b)
        if len(args) == 3 and self.strip(args[2])["k"] == "lambda":
            a, b = I.ev_expr(args[0]), I.ev_expr(args[1])
            raise NotImplementedError
        raise NotImplementedError

    def sort(self, e):
        I = self.I
        a = self.sargs({"args": e["args"][:2]})
        if len(e["args"]) > 2:
            raise NotImplementedError
        if not (a[0].is_leaf and a[1].is_leaf):
            raise NotImplementedError
        b, en = a[0].leaf, a[1].leaf
        n = I.simp(d_sub(en.extra, b.extra))
        if not (n.is_leaf and n.leaf.const() is not None and n.leaf.const() <= 4):
            raise NotImplementedError
        n = int(n.leaf.const())
        refs = [leaf(RefV("ptr", b.root, b.path + (d_add(b.extra, num(i)),))) for i in range(n)]
        for i in range(n):
            for j in range(n - 1 - i):
                x, y = I.read(refs[j], (), "num"), I.read(refs[j + 1], (), "num")
                I.write(refs[j], (), d_min(x, y))
                I.write(refs[j + 1], (), d_max(x, y))
        return leaf(VOID)

    def rng_of(self, b, en):
        """container reference when [b, en) is a whole container, else (ref, offset, count)"""
        if not (b.is_leaf and en.is_leaf and isinstance(b.leaf, RefV) and isinstance(en.leaf, RefV)):
            raise Unmodelled("iterator range")
        x, y = b.leaf, en.leaf
        if x.kind != "it" or y.kind != "it" or (x.root, x.path) != (y.root, y.path):
            raise Unmodelled("iterator range")
        n = self.I.simp(d_sub(y.extra, x.extra))
        return leaf(RefV("ptr", x.root, x.path)), x.extra, n

    def charfn_of(self, usr):
        m = re.search(r"@F@(\w+)(#|$)", usr) if isinstance(usr, str) else None
        if m and m.group(1) in CHARFN:
            return lambda d: charfn(m.group(1), d)
        return None

    def stringof(self, e, names):
        """the string whose begin() / end() the expression is"""
        e = self.strip(e)
        while e.get("k") in ("construct", "ctor") and len(e.get("args", ())) == 1:
            e = self.strip(e["args"][0])
        fn = e.get("fn") or {}
        q = fn.get("q", "") if isinstance(fn, dict) else ""
        if q.split("::")[-1] not in names:
            return None
        o = e.get("obj") or (e["args"][0] if len(e.get("args", ())) == 1 else None)
        if o is None or self.I.ety(o).n != "std::basic_string":
            return None
        return self.I.lv(o)

    def string_algorithm(self, e, name, o):
        """an algorithm over the characters of a known string"""
        I = self.I
        args = e["args"]
        s = I.scalar(I.load(o))
        c = s.leaf.const() if s.is_leaf else None
        if c is None:
            raise Unmodelled("characters of an unknown string")
        el = I.ety(args[0]).el
        pt = el[0] if el else None
        ct = pt.el[0] if pt is not None and pt.c == "ptr" and pt.el else T_INT

        def call(f, x):
            return I.scalar(self.val(I.call_value(I.scalar(self.val(f)), [I.materialise(num(ord(x)), ct, "char")], e, None)))
        if name == "transform":
            t = self.stringof(args[2], ("begin",))
            if t is None or t.d is not o.d:
                raise Unmodelled("characters written elsewhere")
            f = I.ev_expr(args[3])
            r = [call(f, x) for x in c]
            if any(not x.is_leaf or as_poly(x.leaf).const() is None for x in r):
                raise Unmodelled("unknown characters")
            I.store(o, strl("".join(chr(int(as_poly(x.leaf).const())) for x in r)))
            return leaf(VOID)
        if name in ("any_of", "all_of", "none_of"):
            f = I.ev_expr(args[2])
            r = [I.tobool(call(f, x)) for x in c]
            v = conj(r) if name == "all_of" else d_not(conj([d_not(x) for x in r]))
            return d_not(v) if name == "none_of" else v
        if name == "count_if":
            f = I.ev_expr(args[2])
            v = ZERO
            for x in c:
                v = d_add(v, ite(I.tobool(call(f, x)), ONE, ZERO))
            return v
        raise Unmodelled(name + " over a string")

    def algorithm(self, e, name):
        I = self.I
        LV = self.LV
        args = e["args"]
        if name in ("fill_n", "iota") and name == "fill_n":
            raise NotImplementedError
        t0 = I.ety(args[0])
        s = self.stringof(args[0], ("begin", "cbegin"))
        if s is not None and self.stringof(args[1], ("end", "cend")) is not None:
            return self.string_algorithm(e, name, s)
        b, en = [I.scalar(I.rv(a)) for a in args[:2]]
        cont, off, n = self.rng_of(b, en)
        et = self.pointee(t0)
        if t0.n == "__gnu_cxx::__normal_iterator":
            p = t0.el[0] if t0.el else None
            et = p.el[0] if p is not None and p.c == "ptr" and p.el else None
        rest = [I.ev_expr(a) for a in args[2:]]

        def call(f, xs):
            v = I.scalar(self.val(f))
            return I.call_value(v, xs, e, None)

        def each(body):
            I.pyloop(e, n, lambda i: body(LV(I.index(cont, d_add(off, i)), et), i))
        if name == "for_each":
            each(lambda el, i: call(rest[0], [el]))
            return rest[0]
        if name in ("any_of", "all_of", "none_of", "count_if", "count", "accumulate", "reduce", "max_element", "min_element"):
            r = I.newroot("tmp")
            if name in ("any_of", "none_of"):
                acc = LV(leaf(RefV("ptr", r)), T_BOOL)
                I.store(acc, FALSE)
                each(lambda el, i: I.store(acc, d_or(I.load(acc), I.tobool(I.scalar(self.val(call(rest[0], [el])))))))
                v = I.load(acc)
                return v if name == "any_of" else d_not(v)
            if name == "all_of":
                acc = LV(leaf(RefV("ptr", r)), T_BOOL)
                I.store(acc, TRUE)
                each(lambda el, i: I.store(acc, d_and(I.load(acc), I.tobool(I.scalar(self.val(call(rest[0], [el])))))))
                return I.load(acc)
            if name == "count_if":
                acc = LV(leaf(RefV("ptr", r)), T_INT)
                I.store(acc, ZERO)
                each(lambda el, i: I.store(acc, d_add(I.load(acc), ite(I.tobool(I.scalar(self.val(call(rest[0], [el])))), ONE, ZERO))))
                return I.load(acc)
            if name in ("accumulate", "reduce"):
                t = I.ety(args[2]) if len(args) > 2 else et
                acc = LV(leaf(RefV("ptr", r)), t)
                I.store(acc, self.val(rest[0]))

                def step(el, i):
                    cur = I.load(acc)
                    if len(rest) > 1:
                        v = self.val(call(rest[1], [I.materialise(cur, t, "arg"), el]))
                    elif isinstance(cur, self.Agg):
                        v = self.zipw(d_add, cur, I.load(el))
                    else:
                        v = d_add(cur, I.load(el))
                        if t.c == "int" and el.ty is not None and el.ty.c == "float":
                            v = d_trunc(v)
                    I.store(acc, v)
                each(step)
                return I.load(acc)
            raise NotImplementedError
        if name == "fill":
            v = self.val(rest[0])
            each(lambda el, i: I.store(el, v))
            return leaf(VOID)
        if name == "iota":
            v = I.scalar(self.val(rest[0]))
            each(lambda el, i: I.store(el, d_add(v, i)))
            return leaf(VOID)
        if name in ("copy", "transform"):
            out = I.scalar(self.val(rest[0]))
            if not (out.is_leaf and isinstance(out.leaf, RefV) and out.leaf.kind == "it"):
                raise NotImplementedError
            o = out.leaf

            def st(el, i):
                v = I.load(el) if name == "copy" else self.val(call(rest[1], [el]))
                I.store(LV(leaf(RefV("ptr", o.root, o.path + (d_add(o.extra, i),))), et), v)
            each(st)
            return leaf(RefV("it", o.root, o.path, d_add(o.extra, n)))
        if name in ("replace_if",):
            v = self.val(rest[1])

            def st(el, i):
                c = I.tobool(I.scalar(self.val(call(rest[0], [el]))))
                l0 = I.live
                I.live = d_and(l0, c)
                I.store(el, v)
                I.live = l0
            each(st)
            return leaf(VOID)
        raise NotImplementedError


CHARFN = {"tolower": str.lower, "toupper": str.upper, "isalpha": str.isalpha, "isupper": str.isupper, "islower": str.islower,
          "isdigit": str.isdigit, "isspace": str.isspace, "isalnum": str.isalnum}


def charfn(name, d):
    """<cctype> on a known character of the ASCII range"""
    def f(x):
        c = as_poly(x).const()
        if c is None or c.denominator != 1 or not 0 <= c < 128:
            raise Unmodelled(name + " of an unknown character")
        r = CHARFN[name](chr(int(c)))
        return num(ord(r) if isinstance(r, str) else int(r))
    return apply(None, f, d)


# settings that are positive in every admissible input
POSITIVE = {"dim", "particleDistance", "dt", "defaultDensity", "radiusRatioForNumberDensity", "radiusRatioForGradient",
            "radiusRatioForLaplacian"}


def cfgatom(name, tn):
    p = True if name in POSITIVE and tn in ("double", "int") else None
    return atom("cfg", name, tn, pos=p, nn=p)


def shift(x):
    """a value used below an element step: its own argument atoms move up by one"""
    import interp
    if any(a.kind == "arg" for a in x.deps):
        return Subst({interp.ARGS[k]: dat(interp.ARGS[k + 1]) for k in range(len(interp.ARGS) - 1)}).d(x)
    return x
