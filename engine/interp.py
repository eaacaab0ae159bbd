"""Value-flow analysis of the type-resolved syntax trees: computes, for every variable and member, a canonical
symbolic description of its value (core.D), summarising each loop in closed form.  Functions are summarised by
inlining their (resolved) callees; branches are merged into decision diagrams, never enumerated as paths."""
from core import *
import math
import core
from db import *

UNROLL = 4


class Agg:
    """aggregate value: sub-path -> D ('[]' steps stand for the atoms arg0, arg1, ...)"""
    __slots__ = ("m", "tag")

    def __init__(self, m, tag=None):
        self.m = m
        self.tag = tag

    def __repr__(self):
        return "Agg{%s}" % ", ".join("%s=%s" % (".".join(k), short(v, 80)) for k, v in self.m.items())


class LV:
    __slots__ = ("d", "ty")

    def __init__(self, d, ty):
        self.d, self.ty = d, ty


class Ev:
    __slots__ = ("kind", "g", "data", "loc")

    def __init__(self, kind, g, data, loc):
        self.kind, self.g, self.data, self.loc = kind, g, data, loc

    def __repr__(self):
        return "%s%r if %s @%s" % (self.kind, self.data, short(self.g, 120), self.loc)


PI_ATOM = atom("pi", pos=True, nn=True)


class KeyInfo:
    __slots__ = ("I", "I0", "N", "m", "cls", "F", "pre", "G")


class Loop:
    def __repr__(self):
        return "loop#%d@%s(%s)" % (self.L, self.loc, self.trip)

    def __init__(self):
        self.keys = {}
        self.events = []
        self.E = {}


class Split(Exception):
    def __init__(self, var):
        self.var = var


class Frame:
    def __init__(self, fn, tu, this):
        self.fn, self.tu, self.this = fn, tu, this
        self.vars = {}
        self.ret = FALSE
        self.rvroot = None
        self.rvref = False
        self.rvset = False


class BrkFrame:
    def __init__(self):
        self.brk = FALSE
        self.cont = FALSE


class TryFrame:
    def __init__(self):
        self.caught = FALSE


ARGS = [atom("arg", i) for i in range(8)]
for _a in ARGS:
    _a.info = "int"


def A(i):
    return dat(ARGS[i])


def map_value(v, f):
    if isinstance(v, D):
        return f(v)
    if isinstance(v, Agg):
        return Agg({k: f(x) for k, x in v.m.items()}, v.tag)
    if isinstance(v, LV):
        return LV(f(v.d), v.ty)
    if isinstance(v, tuple):
        return tuple(map_value(x, f) for x in v)
    if isinstance(v, list):
        return [map_value(x, f) for x in v]
    return v


def map_events(evs, f):
    out = []
    for e in evs:
        if isinstance(e, Loop):
            l = Loop()
            l.__dict__.update(e.__dict__)
            l.events = map_events(e.events, f)
            l.guard = f(e.guard)
            l.tripD = f(e.tripD) if e.tripD is not None else None
            l.E = {k: f(x) for k, x in e.E.items()}
            l.cond = f(e.cond) if e.cond is not None else None
            l.subst = e.subst + [f]
            out.append(l)
        else:
            out.append(Ev(e.kind, f(e.g), map_value(e.data, f), e.loc))
    return out


def walk_events(evs):
    for e in evs:
        yield e
        if isinstance(e, Loop):
            yield from walk_events(e.events)


class Interp:
    def __init__(self, db):
        self.db = db
        for n, o in db.enums.items():
            core.ENUMVALS[n] = tuple(v for _, v in o["values"])
        self.st = {}
        self.birth = {}
        self.serials = {}
        self.serial = 0
        self.loopctr = 0
        self.live = TRUE
        self.ctx = TRUE
        self.ev = []
        self.called = set()
        self.ncalls = self.nloops = 0
        self.depth = 0
        self.itstk = []
        self.frames = []
        self.brk = []
        self.tries = []
        self.lams = {}
        self.watch = None
        self.hooks = {}
        self.unmodelled = {}
        self.loops = []          # finished loops in order of completion (all levels, last pass only)
        self.calls = {}
        self.epochs = {}
        self.sub_cache = {}
        self.loc_stack = []
        self.omp_next = None
        self.max_unroll = UNROLL
        # what the input streams contain, when known (loaders analysed on the documents of the exporters)
        self.content = None
        self.argdomain = {}
        self.trace = False
        self.noresolve = 0
        self.visited = set()
        self.layout_memo = {}
        self.staticinit = set()
        self.pure_fail = []
        self.pyidx = None
        self.access_hook = None
        import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------------ helpers
    def where(self, node=None):
        fr = self.frames[-1] if self.frames else None
        l = node.get("l", 0) if isinstance(node, dict) else 0
        f = fr.fn.file if fr and fr.fn is not None else "?"
        return "%s:%s" % (f, l)

    def emit(self, kind, data, node=None, g=None):
        g = self.live if g is None else g
        if g is FALSE:
            return
        self.ev.append(Ev(kind, g, data, self.where(node)))

    def note_unmodelled(self, what, node=None):
        self.unmodelled.setdefault(what, []).append(self.where(node))

    def newroot(self, name):
        self.serial += 1
        r = "%s#%d" % (name, self.serial)
        self.serials[r] = self.serial
        self.st[r] = {}
        self.birth[r] = (self.depth, self.live)
        return r

    def droproot(self, r):
        self.st.pop(r, None)

    def tmp_atom(self):
        self.serial += 1
        return self.serial

    def ty(self, i):
        return self.frames[-1].tu.ty(i)

    def ety(self, e):
        """static type of an expression"""
        t = e.get("t")
        if t is not None:
            return self.ty(t)
        k = e["k"]
        if k == "bool":
            return T_BOOL
        if k in ("int", "char"):
            return T_INT
        if k == "float":
            return T_DOUBLE
        return T_INT

    # ------------------------------------------------------------------ layouts and typed atoms
    def kind_ty(self, ty):
        c = ty.c
        if c == "bool":
            return "bool"
        if c == "enum":
            return ("enum", ty.n) if ty.n in core.ENUMVALS and core.ENUMVALS[ty.n] else "num"
        if c in ("int", "float"):
            return "num"
        if c in ("ptr", "null"):
            return "ref"
        if c == "rec" and self.is_strty(ty):
            return "str"
        if c == "rec" and ty.n in ("std::unique_ptr", "std::shared_ptr", "__gnu_cxx::__normal_iterator",
                                  "std::function"):
            return "ref"
        return None

    def is_strty(self, ty):
        return ty.n in ("std::basic_string", "std::string", "std::filesystem::path", "std::basic_string_view",
                        "std::filesystem::__cxx11::path", "std::__cxx11::basic_string")

    def layout(self, ty):
        """[(subpath, kind)] of a type, None if unknown"""
        k = self.kind_ty(ty)
        if k is not None:
            return [((), k)]
        key = (ty.c, ty.s, ty.usr)
        r = self.layout_memo.get(key, 0)
        if r != 0:
            return r
        self.layout_memo[key] = None
        r = self._layout(ty)
        self.layout_memo[key] = r
        return r

    def _layout(self, ty):
        if ty.c == "arr":
            el = self.layout(ty.el[0]) if ty.el and isinstance(ty.el[0], Ty) else None
            return [(("[]",) + p, k) for p, k in el] if el else None
        if ty.c != "rec":
            return None
        n = ty.n
        if n in ("std::vector", "std::deque", "std::list", "std::initializer_list"):
            el = self.layout(ty.el[0]) if ty.el and isinstance(ty.el[0], Ty) else None
            if el is None:
                return None
            return [(("#",), "num")] + [(("[]",) + p, k) for p, k in el]
        if n == "std::array":
            el = self.layout(ty.el[0])
            return [(("[]",) + p, k) for p, k in el] if el else None
        if n in ("std::unordered_map", "std::map"):
            el = self.layout(ty.el[1])
            return [(("[]", "has"), "bool")] + [(("[]", "second") + p, k) for p, k in el] if el else None
        if n in ("std::unordered_set", "std::set"):
            return [(("[]", "has"), "bool")]
        if n in ("std::pair", "std::tuple"):
            out = []
            for i, e in enumerate(ty.el):
                if not isinstance(e, Ty):
                    return None
                l = self.layout(e)
                if l is None:
                    return None
                nm = ("first", "second")[i] if n == "std::pair" else "t%d" % i
                out += [((nm,) + p, k) for p, k in l]
            return out
        if n == "std::optional":
            el = self.layout(ty.el[0])
            return [(("has",), "bool")] + [(("val",) + p, k) for p, k in el] if el else None
        d = eigen_dim(ty)
        if d == "dyn":
            return [(("#",), "num"), (("[]",), "num")]
        if d:
            return [((str(i),), "num") for i in range(d)]
        if n == "Eigen::Triplet":
            return [(("row",), "num"), (("col",), "num"), (("value",), "num")]
        r = self.db.recs.get(ty.usr)
        if r is not None:
            out = []
            for b in r.bases:
                br = self.db.recs.get(b["usr"])
                if br is not None:
                    out += self._reclayout(br) or []
            x = self._reclayout(r)
            if x is None:
                return None
            return out + x
        return None

    def _reclayout(self, r):
        out = []
        for b in r.bases if False else []:
            pass
        for f in r.fields:
            l = self.layout(r.tu.ty(f["t"]))
            if l is None:
                continue   # members without a modelled layout (solvers, streams, clocks)
            out += [((f["n"],) + p, k) for p, k in l]
        return out

    def tv(self, kind, a):
        """typed symbolic value for an atom"""
        if kind == "bool":
            a.info = "bool"
            return bvar(a)
        if kind == "str":
            a.info = "str"
            return leaf(Str((a,)))
        if isinstance(kind, tuple) and kind[0] == "enum":
            return evar(a, kind[1])
        if kind == "ref":
            return leaf(RefV("sym", a))
        return dat(a)

    def kind_of(self, d):
        st, seen = [d], set()
        res = None
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.is_leaf:
                l = n.leaf
                if isinstance(l, bool):
                    return "bool"
                if isinstance(l, En):
                    return ("enum", l.e)
                if isinstance(l, Str):
                    return "str"
                if isinstance(l, RefV) or l is NULL:
                    return "ref"
                if isinstance(l, Poly):
                    res = "num"
            else:
                st += [k for _, k in n.kids]
                if n.dflt is not None:
                    st.append(n.dflt)
        return res or "num"

    # ------------------------------------------------------------------ store
    @property
    def care(self):
        return d_and(self.ctx, self.live)

    def sub_args(self, d, idx, shift):
        """replace arg0..n-1 by idx, the remaining arguments move down by n"""
        if not idx:
            return d
        n = len(idx)
        key = (tuple(i.id for i in idx), shift)
        s = self.sub_cache.get(key)
        if s is None:
            mp = {ARGS[k]: i for k, i in enumerate(idx)}
            for k in range(n, len(ARGS)):
                mp[ARGS[k]] = A(k - n) if shift else A(k)
            mp = {a: v for a, v in mp.items() if v is not dat(a)}
            s = self.sub_cache[key] = Subst(mp)
        return s.d(d)

    def split_ref(self, r):
        path, idx = [], []
        for s in r.path:
            if isinstance(s, D):
                path.append("[]")
                idx.append(s)
            else:
                path.append(s)
        return r.root, tuple(path), idx

    def uninit(self, root, path, kind):
        base = root.split("#")[0] if isinstance(root, str) else str(root)
        n = sum(1 for p in path if p == "[]")
        a = atom("uninit", base + "." + ".".join(path), *[patom(ARGS[i]) for i in range(n)])
        return self.tv(kind, a)

    def get1(self, r, sub, kind):
        root, path, idx = self.split_ref(r)
        if not isinstance(root, str):
            raise Unmodelled("read through an unknown pointer")
        path = path + sub
        dct = self.st.get(root)
        if dct is None:
            return self.uninit(root, path, kind)
        d = dct.get(path)
        if d is None:
            d = self.uninit(root, path, kind)
        d = self.sub_args(d, idx, True)
        return d

    def read(self, refd, sub, kind):
        """scalar read through a (conditional) reference"""
        refd = self.simp(refd)
        if refd.is_leaf:
            r = refd.leaf
            if not isinstance(r, RefV):
                raise Unmodelled("dereference of %r" % (r,))
            return self.simp(self.get1(r, sub, kind))
        out = None
        for c, r in leaf_conds(refd):
            if not isinstance(r, RefV):
                continue
            v = self.get1(r, sub, kind)
            out = v if out is None else ite(c, v, out)
        if out is None:
            raise Unmodelled("dereference of null")
        return self.simp(out)

    def simp(self, d):
        if d.is_leaf:
            return d
        return restrict(restrict(d, self.live), self.ctx)

    def subpaths(self, r):
        root, path, idx = self.split_ref(r)
        dct = self.st.get(root, {})
        n = len(path)
        return [p[n:] for p in dct if p[:n] == path]

    def load(self, lv):
        ty = lv.ty
        k = self.kind_ty(ty) if ty is not None else None
        if k is not None:
            return self.read(lv.d, (), k)
        d = self.simp(lv.d)
        refs = leaf_conds(d)
        subs = []
        lay = dict(self.layout(ty) or []) if ty is not None else {}
        for _, r in refs:
            if isinstance(r, RefV):
                for s in self.subpaths(r):
                    if s not in subs:
                        subs.append(s)
        for s in lay:
            if s not in subs:
                subs.append(s)
        return Agg({s: self.read(d, s, lay.get(s, "num")) for s in subs})

    def write1(self, r, sub, val, g):
        root, path, idx = self.split_ref(r)
        if not isinstance(root, str):
            raise Unmodelled("write through an unknown pointer")
        path = path + sub
        dct = self.st.get(root)
        if dct is None:
            dct = self.st[root] = {}
        if self.watch is not None and not self.depth:
            self.watch(root, path, idx, val, g)
        b = self.birth.get(root)
        n = len(idx)
        if n:
            # shift the value's own argument atoms up by n
            if any(a.kind == "arg" for a in val.deps):
                val = Subst({ARGS[k]: A(k + n) for k in range(len(ARGS) - n)}).d(val)
            mp = {}
            for k, i in enumerate(idx):
                g = d_and(g, cmp("==", A(k), i, False)) if i is not A(k) else g
                if i.is_leaf and isinstance(i.leaf, Poly):
                    a = i.leaf.as_atom()
                    if a is not None and a.kind in ("it", "nbid", "bv"):
                        mp[a] = A(k)
                    elif a is None:
                        # it + c
                        for m, c in i.leaf.t:
                            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].kind == "it":
                                a = m[0][0]
                                mp[a] = leaf(p_sub(patom(ARGS[k]), p_sub(i.leaf, patom(a))))
            if mp:
                s = Subst({a: v for a, v in mp.items() if a.kind != "nbid"},
                          fn=(lambda x, mp=mp: mp.get(x)) if any(a.kind == "nbid" for a in mp) else None,
                          pred=(lambda x, mp=mp: x in mp))
                if any(a.kind == "nbid" for a in mp):
                    # neighbour index first (it contains the loop counter)
                    nb = {a: v for a, v in mp.items() if a.kind == "nbid"}
                    val = Subst(nb).d(val)
                    rest = {a: v for a, v in mp.items() if a.kind != "nbid"}
                    if rest:
                        val = Subst(rest).d(val)
                else:
                    val = Subst(mp).d(val)
        if g is TRUE:
            new = val
        else:
            old = dct.get(path)
            if old is None:
                old = self.uninit(root, path, self.kind_of(val))
            new = ite(g, val, old)
            if b is not None and b[0] == self.depth and b[1] is not TRUE:
                new = restrict(new, b[1])
            new = self.widen(root, path, new)
        dct[path] = new

    def widen(self, root, path, d):
        """texts and stream states inside a loop that depend on too many earlier decisions become unknown"""
        if not self.depth or d.is_leaf:
            return d
        if not (path and isinstance(path[-1], str) and path[-1].startswith("$")):
            if self.kind_of(d) != "str":
                return d
        if nsize(d, 24) < 24:
            return d
        self.serial += 1
        a = atom("phi", root, path, self.serial, *[patom(x) for x in self.itstk])
        return self.tv(self.kind_of(d), a)

    def write(self, refd, sub, val, g=None):
        g = self.live if g is None else g
        if g is FALSE:
            return
        refd = self.simp(refd)
        if refd.is_leaf:
            r = refd.leaf
            if not isinstance(r, RefV):
                raise Unmodelled("write through %r" % (r,))
            b = self.birth.get(r.root)
            if b is not None and b[0] == self.depth and b[1] is g and not any(isinstance(x, D) for x in r.path):
                g = TRUE
            self.write1(r, sub, val, g)
            return
        for c, r in leaf_conds(refd):
            if isinstance(r, RefV):
                self.write1(r, sub, val, d_and(g, c))

    def store(self, lv, val):
        if isinstance(val, D):
            self.write(lv.d, (), val)
        else:
            for s, v in val.m.items():
                self.write(lv.d, s, v)

    def materialise(self, val, ty, name="tmp"):
        r = self.newroot(name)
        lv = LV(leaf(RefV("ptr", r)), ty)
        self.store(lv, val)
        return lv

    def field(self, lv_d, *steps):
        """reference to a member"""
        def f(r):
            if not isinstance(r, RefV):
                return leaf(r)
            if r.kind in ("it", "rit"):
                raise Unmodelled("member of iterator")
            return leaf(RefV("ptr", r.root, r.path + steps))
        return apply(None, f, lv_d)

    def index(self, lv_d, i):
        """reference to element i; conditional indices are folded into the reference"""
        def f(r, ix):
            if not isinstance(r, RefV):
                return leaf(r)
            return leaf(RefV("ptr", r.root, r.path + (leaf(as_poly(ix)),)))
        return apply(None, f, lv_d, i)

    # ------------------------------------------------------------------ values
    def rv(self, e):
        v = self.ev_expr(e)
        if isinstance(v, LV):
            return self.load(v)
        return v

    def num(self, e):
        v = self.rv(e)
        return self.scalar(v)

    def scalar(self, v):
        if isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, Agg):
            f = v.m.get(())
            if f is not None and (len(v.m) == 1 or f.is_leaf and isinstance(f.leaf, RefV) and f.leaf.kind == "lam"):
                return f
            if ("0",) in v.m and len(v.m) == 1:
                return v.m[("0",)]
            raise Unmodelled("aggregate used as scalar %s" % sorted(v.m.items(), key=str)[:3])
        return v

    def lv(self, e):
        v = self.ev_expr(e)
        if isinstance(v, LV):
            return v
        return self.materialise(v, self.ety(e))

    def tobool(self, d):
        def f(x):
            if isinstance(x, bool):
                return TRUE if x else FALSE
            if x is NULL:
                return FALSE
            if isinstance(x, RefV):
                return TRUE
            return cmp("!=", leaf(as_poly(x)), ZERO)
        return apply("tobool", f, d)

    def cond(self, e):
        return self.simp(self.tobool(self.scalar(self.rv(e))))

    # ------------------------------------------------------------------ expressions
    def ev_expr(self, e):
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unmodelled("expression kind " + k + " " + str(e.get("n", "")))
        return m(e)

    def x_int(self, e):
        return num(int(e["v"]))

    def x_char(self, e):
        return num(e["v"])

    def x_float(self, e):
        from fractions import Fraction as Fr
        try:
            c = Fr(e["v"])
        except (ValueError, ZeroDivisionError):
            c = Fr(e["d"])
        # the circle constant (M_PI, M_PI_2, M_PI_4 or written out)
        for k in (1, 2, 4, Fr(1, 2)):
            if abs(float(c) * k - math.pi) < 1e-15 * 4:
                return leaf(p_scale(patom(PI_ATOM), Fr(1) / k))
        return num(c)

    def x_bool(self, e):
        return TRUE if e["v"] else FALSE

    def x_str(self, e):
        return leaf(Str((e["v"],)))

    def x_null(self, e):
        return leaf(NULL)

    def x_zero(self, e):
        return self.zero(self.ety(e))

    def zero(self, ty):
        lay = self.layout(ty)
        if lay is None:
            return Agg({})
        m = {}
        for p, k in lay:
            m[p] = self.zero_kind(k)
        if list(m) == [()]:
            return m[()]
        return Agg(m)

    def zero_kind(self, k):
        if k == "bool":
            return FALSE
        if k == "str":
            return leaf(Str(()))
        if k == "ref":
            return leaf(NULL)
        if isinstance(k, tuple):
            return leaf(En(k[1], 0))
        return ZERO

    def x_this(self, e):
        return apply(None, lambda r: leaf(r), self.frames[-1].this)

    def x_enumc(self, e):
        n = self.ety(e)
        return leaf(En(n.n, e["v"])) if n.c == "enum" else num(e["v"])

    def x_var(self, e):
        fr = self.frames[-1]
        if e.get("global"):
            v = fr.vars.get(e["id"])
            if v is not None:
                return v
            q = e["q"]
            if "cv" in e:
                return num(int(e["cv"]))
            if "cvd" in e:
                from fractions import Fraction as Fr
                return num(Fr(e["cvd"]))
            return self.global_lv(e)
        v = fr.vars.get(e["id"])
        if v is None:
            raise Unmodelled("unknown variable " + e["n"])
        return v

    def global_lv(self, e):
        q = e["q"]
        root = "g:" + q
        ty = self.ety(e)
        if root not in self.st and q not in self.staticinit:
            self.staticinit.add(q)
            for u, (o, tu) in self.db.globals.items():
                if o["n"] == q:
                    self.st[root] = {}
                    self.serials[root] = 0
                    if o.get("init"):
                        fr = Frame(self.frames[-1].fn, tu, None)
                        self.frames.append(fr)
                        sl, self.live = self.live, TRUE
                        try:
                            self.init_lv(LV(leaf(RefV("ptr", root)), tu.ty(o["t"])), o["init"])
                        finally:
                            self.frames.pop()
                            self.live = sl
                    break
        if root not in self.st:
            self.st[root] = {}
            self.serials[root] = 0
        return LV(leaf(RefV("ptr", root)), ty)

    def x_fn(self, e):
        return leaf(RefV("fn", e["fn"]["usr"]))

    def x_mem(self, e):
        if "fn" in e:
            raise Unmodelled("member function value")
        if e.get("arrow"):
            p = self.scalar(self.rv(e["b"]))
            base = self.deref(p)
        else:
            b = self.ev_expr(e["b"])
            if isinstance(b, Agg):
                f = (e["f"],)
                sub = {k[1:]: v for k, v in b.m.items() if k[:1] == f}
                if not sub:
                    return self.default_of(self.ety(e), "member")
                return sub[()] if list(sub) == [()] else Agg(sub)
            if isinstance(b, D):
                raise Unmodelled("member of scalar")
            base = b.d
        ty = self.ety(e)
        return LV(self.field(base, e["f"]), self.noref(ty))

    def noref(self, ty):
        return ty

    def default_of(self, ty, what):
        lay = self.layout(ty) or [((), "num")]
        m = {p: self.uninit(what, p, k) for p, k in lay}
        return m[()] if list(m) == [()] else Agg(m)

    def deref(self, p):
        """pointer/iterator value -> reference D"""
        def f(r):
            if not isinstance(r, RefV):
                return leaf(r)
            if r.kind == "it":
                return leaf(RefV("ptr", r.root, r.path + (r.extra,)))
            if r.kind == "rit":
                return leaf(RefV("ptr", r.root, r.path + (d_sub(r.extra, ONE),)))
            if r.kind == "mapit":
                return leaf(RefV("ptr", r.root, r.path + (r.extra,)))
            return leaf(r)
        return apply(None, f, p)

    def x_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            l = self.lv(e["e"])
            old = self.load(l)
            new = self.advance(old, ONE if op == "++" else num(-1))
            self.store(l, new)
            return old if e.get("post") else l
        if op == "*":
            p = self.scalar(self.rv(e["e"]))
            return LV(self.deref(p), self.ety(e))
        if op == "&":
            v = self.ev_expr(e["e"])
            if isinstance(v, LV):
                return v.d
            return self.materialise(v, self.ety(e["e"])).d
        v = self.scalar(self.rv(e["e"]))
        if op == "-":
            return d_neg(v)
        if op == "+":
            return v
        if op == "!":
            return d_not(self.tobool(v))
        if op == "~":
            return apply(None, lambda x: dat(atom("bitnot", as_poly(x))), v)
        raise Unmodelled("unary " + op)

    def advance(self, v, by):
        v = self.scalar(v)

        def f(x):
            if isinstance(x, RefV):
                if x.kind == "rit":
                    return leaf(RefV(x.kind, x.root, x.path, d_sub(x.extra, by)))
                if x.kind == "it":
                    return leaf(RefV(x.kind, x.root, x.path, d_add(x.extra, by)))
                raise Unmodelled("pointer arithmetic")
            if isinstance(x, En):
                x = as_poly(x)
            return d_add(leaf(x), by)
        return apply(None, f, v)

    def logic(self, isand, e):
        a = self.cond(e["a"])
        l0 = self.live
        g = a if isand else d_not(a)
        self.live = d_and(l0, g)
        if self.live is FALSE:
            self.live = l0
            return a
        b = self.cond(e["b"])
        self.live = d_or(d_and(l0, d_not(g)), self.live)
        return d_and(a, b) if isand else d_or(a, b)

    def isfloat(self, *es):
        return any(self.ety(x).c == "float" for x in es)

    def x_bin(self, e):
        op = e["op"]
        if op == "&&":
            return self.logic(True, e)
        if op == "||":
            return self.logic(False, e)
        if op == ",":
            self.ev_expr(e["a"])
            return self.ev_expr(e["b"])
        a = self.scalar(self.rv(e["a"]))
        b = self.scalar(self.rv(e["b"]))
        return self.binop(op, a, b, self.isfloat(e["a"], e["b"]), self.ety(e))

    def binop(self, op, a, b, isfloat, ty=None):
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, a, b, isfloat)
        if op in ("+", "-") and self.has_ref(a):
            if op == "-" and self.has_ref(b):
                def f(x, y):
                    if isinstance(x, RefV) and isinstance(y, RefV) and x.kind in ("it", "rit") and (x.root, x.path) == (y.root, y.path):
                        return d_sub(x.extra, y.extra) if x.kind == "it" else d_sub(y.extra, x.extra)
                    raise Unmodelled("pointer difference")
                return apply(None, f, a, b)
            bb = b if op == "+" else d_neg(b)
            out = apply(None, lambda x, y: self.advance(leaf(x), leaf(y)), a, bb)
            return out
        if op == "+" and self.has_ref(b):
            return self.binop("+", b, a, isfloat)
        if op == "+":
            return d_add(a, b)
        if op == "-":
            return d_sub(a, b)
        if op == "*":
            return d_mul(a, b)
        if op == "/":
            if isfloat or (ty is not None and ty.c == "float"):
                return self.divide(a, b)
            return self.idiv(a, b)
        if op == "%":
            def f(x, y):
                x, y = as_poly(x), as_poly(y)
                cx, cy = x.const(), y.const()
                if cx is not None and cy:
                    q = int(cx / cy)
                    return num(cx - q * cy)
                return dat(atom("imod", x, y))
            return apply("imod", f, a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            def f(x, y):
                if isinstance(x, bool) and isinstance(y, bool):
                    return leaf({"&": x and y, "|": x or y, "^": x != y}[op])
                x, y = as_poly(x), as_poly(y)
                cx, cy = x.const(), y.const()
                if cx is not None and cy is not None:
                    ix, iy = int(cx), int(cy)
                    return num({"&": ix & iy, "|": ix | iy, "^": ix ^ iy, "<<": ix << iy, ">>": ix >> iy}[op])
                if op == "<<" and cy is not None:
                    return leaf(p_scale(x, Fraction(2 ** int(cy))))
                return dat(atom("bitop", op, x, y))
            return apply(("bit", op), f, a, b)
        raise Unmodelled("operator " + op)

    def divide(self, a, b):
        return d_div(a, b)

    def idiv(self, a, b):
        def f(x, y):
            x, y = as_poly(x), as_poly(y)
            cx, cy = x.const(), y.const()
            if cx is not None and cy:
                return num(int(cx / cy))
            if cy == 1:
                return leaf(x)
            q = p_div(x, y)
            if is_integral(q):
                return leaf(q)
            return dat(atom("idiv", x, y))
        return apply("idiv", f, a, b)

    def has_ref(self, d):
        return any(isinstance(x, RefV) or x is NULL for x in leaves_of(d))

    def compare(self, op, a, b, isfloat):
        ks = [self.kind_of(a), self.kind_of(b)]
        if "str" in ks:
            r = streq(a, b)
            if op == "==":
                return r
            if op == "!=":
                return d_not(r)
            return apply(None, lambda x, y: bvar(atom("strcmp", op, x, y)), a, b)
        if "ref" in ks:
            def f(x, y):
                if isinstance(x, RefV) and isinstance(y, RefV):
                    if x is y:
                        return TRUE if op in ("==", "<=", ">=") else FALSE
                    if x.kind in ("it", "rit") and y.kind == x.kind and (x.root, x.path) == (y.root, y.path):
                        return cmp(op, x.extra, y.extra, False) if x.kind == "it" else cmp(op, y.extra, x.extra, False)
                    if {x.kind, y.kind} == {"mapit", "mapend"}:
                        it = x if x.kind == "mapit" else y
                        has = self.get1(RefV("ptr", it.root, it.path + (it.extra,)), ("has",), "bool")
                        has = self.simp(has)
                        return d_not(has) if op == "==" else has
                    if x.kind == "ptr" and y.kind == "ptr":
                        if x.root == y.root and len(x.path) == len(y.path):
                            c = TRUE
                            for s, t in zip(x.path, y.path):
                                if isinstance(s, D) and isinstance(t, D):
                                    c = d_and(c, cmp("==", s, t, False))
                                elif s != t:
                                    c = FALSE
                            if op in ("==", "!="):
                                return c if op == "==" else d_not(c)
                        elif op in ("==", "!="):
                            return FALSE if op == "==" else TRUE
                    raise Unmodelled("pointer comparison %r %r" % (x, y))
                r = TRUE if (x is NULL and y is NULL) else FALSE
                return r if op == "==" else d_not(r)
            return apply(None, f, a, b)
        return cmp(op, a, b, isfloat)

    def x_cond(self, e):
        c = self.cond(e["c"])
        if c is TRUE:
            return self.ev_expr(e["a"])
        if c is FALSE:
            return self.ev_expr(e["b"])
        l0 = self.live
        self.live = d_and(l0, c)
        a = self.ev_expr(e["a"])
        if isinstance(a, LV) and self.kind_ty(a.ty) is not None and False:
            a = self.load(a)
        la = self.live
        self.live = d_and(l0, d_not(c))
        b = self.ev_expr(e["b"])
        lb = self.live
        if not (isinstance(a, LV) and isinstance(b, LV)):
            if isinstance(b, LV):
                b = self.load(b)
            if isinstance(a, LV):
                self.live = la
                a = self.load(a)
        self.live = d_or(la, lb)
        return self.merge(c, a, b)

    def merge(self, c, a, b):
        if isinstance(a, LV):
            return LV(ite(c, a.d, b.d), a.ty)
        if isinstance(a, D) and isinstance(b, D):
            return ite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            m = {}
            for k in list(a.m) + [k for k in b.m if k not in a.m]:
                x, y = a.m.get(k), b.m.get(k)
                m[k] = y if x is None else x if y is None else ite(c, x, y)
            return Agg(m, a.tag or b.tag)
        raise Unmodelled("merge of different shapes")

    def x_asg(self, e):
        v = self.rv(e["b"])
        l = self.lv(e["a"])
        v = self.convert(v, self.ety(e["b"]), l.ty)
        self.store(l, v)
        return l

    def x_casg(self, e):
        b = self.scalar(self.rv(e["b"]))
        l = self.lv(e["a"])
        a = self.scalar(self.load(l))
        ct = self.ty(e["ct"]) if e.get("ct") is not None else l.ty
        isf = ct.c == "float" or self.isfloat(e["b"])
        if e["op"] in ("<<", ">>") and self.kind_of(a) != "num":
            raise Unmodelled("compound shift")
        r = self.binop(e["op"], a, b, isf, ct)
        if isf and l.ty.c == "int":
            r = d_trunc(r)
        self.store(l, r)
        return l

    def x_sub(self, e):
        a = self.ev_expr(e["a"])
        i = self.scalar(self.rv(e["i"]))
        ta = self.ety(e["a"])
        if isinstance(a, LV) and ta.c != "ptr":
            return LV(self.index(a.d, i), self.ety(e))
        p = self.scalar(a if not isinstance(a, LV) else self.load(a))
        if self.has_ref(p):
            q = apply(None, lambda x, y: self.advance(leaf(x), leaf(y)) if isinstance(x, RefV) and x.kind == "it" else self.index(leaf(x), leaf(y)), p, i)
            return LV(self.deref(q), self.ety(e))
        raise Unmodelled("subscript")

    def convert(self, v, frm, to):
        """implicit conversions that the tree does not spell out (none for scalars)"""
        return v

    def x_cast(self, e):
        ck = e["ck"]
        to = self.ety(e)
        frm = self.ty(e["from"]) if e.get("from") is not None else None
        if ck == "ToVoid":
            self.ev_expr(e["e"])
            return leaf(VOID)
        if ck == "Dynamic":
            return self.dyncast(self.ev_expr(e["e"]), to)
        if ck in ("BaseToDerived", "LValueBitCast", "BitCast", "Reinterpret", "ReinterpretMemberPointer"):
            return self.ev_expr(e["e"])
        if ck == "VectorSplat":
            raise Unmodelled("cast " + ck)
        v = self.rv(e["e"])
        if isinstance(v, Agg):
            return v
        return self.cast_scalar(v, ck, frm, to)

    def cast_scalar(self, v, ck, frm, to):
        if to.c == "enum":
            return self.to_enum(v, to)
        if ck == "FloatingToIntegral":
            return d_trunc(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tobool(v)
        if ck == "FloatingCast":
            if to.w and frm is not None and frm.w and to.w < frm.w:
                return apply(None, lambda x: leaf(as_poly(x)) if as_poly(x).const() is not None else dat(atom("f32", as_poly(x))), v)
            return v
        if ck in ("IntegralCast", "IntegralToFloating"):
            def f(x):
                x = as_poly(x)
                c = x.const()
                if c is not None and ck == "IntegralCast" and to.w:
                    w = to.w
                    iv = int(c) & ((1 << w) - 1)
                    if not to.u and iv >= 1 << (w - 1):
                        iv -= 1 << w
                    return num(iv)
                if to.w and to.w < 32 and ck == "IntegralCast" and frm is not None and frm.w > to.w and c is None:
                    return dat(atom("narrow", to.w, to.u, x))
                return leaf(x)
            return apply(("icast", ck, to.w, to.u, frm.w if frm else 0), f, v)
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            raise Unmodelled("cast " + ck)
        return v

    def to_enum(self, v, to):
        vals = core.ENUMVALS.get(to.n)

        def f(x):
            if isinstance(x, En):
                return leaf(x if x.e == to.n else En(to.n, x.v))
            p = as_poly(x)
            c = p.const()
            if c is not None or not vals:
                return leaf(En(to.n, int(c))) if c is not None else leaf(p)
            return evar(atom("toenum", to.n, p), to.n)
        return apply(("toenum", to.n), f, v)

    def dyncast(self, v, to):
        p = self.scalar(v)
        t = to.el[0] if to.c == "ptr" and to.el else to

        def f(r):
            if r is NULL:
                return leaf(NULL)
            if isinstance(r, RefV) and r.kind == "ptr":
                dyn = self.dyntype(r)
                if dyn is not None:
                    return leaf(r) if self.db.derived(dyn, t.usr) else leaf(NULL)
            raise Unmodelled("dynamic_cast")
        return apply(None, f, p)

    def dyntype(self, r):
        root, path, idx = self.split_ref(r)
        d = self.st.get(root, {}).get(path + ("$dyn",))
        if d is not None and d.is_leaf and isinstance(d.leaf, Opq):
            return d.leaf.n
        return None

    def x_initlist(self, e):
        ty = self.ety(e)
        args = e["args"]
        if e.get("std_il") or ty.n == "std::initializer_list" or (ty.c == "arr"):
            if ty.c == "arr" and not e.get("std_il"):
                elty = ty.el[0] if ty.el else None
            else:
                elty = ty.el[0] if ty.el and isinstance(ty.el[0], Ty) else None
            vals = [self.rv(a) for a in args]
            m = {("#",): num(len(vals))}
            keys = []
            vv = []
            for v in vals:
                x = v.m if isinstance(v, Agg) else {(): v}
                vv.append(x)
                keys += [k for k in x if k not in keys]
            for k in keys:
                d = None
                for i in reversed(range(len(vv))):
                    x = vv[i].get(k)
                    if x is None:
                        continue
                    x = Subst({ARGS[j]: A(j + 1) for j in range(len(ARGS) - 1)}).d(x) if any(a.kind == "arg" for a in x.deps) else x
                    d = x if d is None else ite(cmp("==", A(0), num(i), False), x, d)
                if d is not None:
                    m[("[]",) + k] = d
            return Agg(m, "il")
        if self.kind_ty(ty) is not None:
            if not args:
                return self.zero(ty)
            return self.rv(args[0])
        r = self.db.recs.get(ty.usr)
        if ty.n == "std::array":
            inner = args[0] if len(args) == 1 and args[0]["k"] == "initlist" else e
            m = {}
            vals = [self.rv(a) for a in inner["args"]]
            return self.arr_from(vals)
        if r is not None:
            m = {}
            i = 0
            for f in r.fields:
                fty = r.tu.ty(f["t"])
                if i < len(args):
                    v = self.rv(args[i])
                    i += 1
                elif f.get("init"):
                    fr = Frame(self.frames[-1].fn, r.tu, None)
                    self.frames.append(fr)
                    v = self.rv(f["init"])
                    self.frames.pop()
                else:
                    v = self.zero(fty)
                for k, d in (v.m if isinstance(v, Agg) else {(): v}).items():
                    m[(f["n"],) + k] = d
            return Agg(m)
        if not args:
            return self.zero(ty)
        if len(args) == 1:
            return self.rv(args[0])
        raise Unmodelled("initialiser list for " + ty.s)

    def arr_from(self, vals):
        m = {("#",): num(len(vals))}
        keys = []
        vv = []
        for v in vals:
            x = v.m if isinstance(v, Agg) else {(): v}
            vv.append(x)
            keys += [k for k in x if k not in keys]
        for k in keys:
            d = None
            for i in reversed(range(len(vv))):
                x = vv[i].get(k)
                if x is None:
                    continue
                if any(a.kind == "arg" for a in x.deps):
                    x = Subst({ARGS[j]: A(j + 1) for j in range(len(ARGS) - 1)}).d(x)
                d = x if d is None else ite(cmp("==", A(0), num(i), False), x, d)
            m[("[]",) + k] = d
        return Agg(m, "il")

    def x_new(self, e):
        if e.get("array"):
            raise Unmodelled("array new")
        ty = self.ty(e["at"])
        r = self.newroot("heap")
        lv = LV(leaf(RefV("ptr", r)), ty)
        self.st[r][("$dyn",)] = leaf(Opq(ty.usr or ty.s))
        if e.get("init"):
            self.init_lv(lv, e["init"])
        else:
            self.default_init(lv)
        return lv.d

    def x_delete(self, e):
        self.rv(e["e"])
        return leaf(VOID)

    def x_throw(self, e):
        v = None
        if e.get("e"):
            try:
                v = self.rv(e["e"])
            except Unmodelled:
                v = None
        self.do_throw(v, e)
        return leaf(VOID)

    def do_throw(self, v, node, g=None):
        g = self.live if g is None else g
        if g is FALSE:
            return
        if self.tries:
            self.tries[-1].caught = d_or(self.tries[-1].caught, g)
        else:
            self.emit("throw", (v,), node, g)
        self.live = d_and(self.live, d_not(g))

    def do_exit(self, code, node):
        self.emit("exit", (code,), node)
        self.live = FALSE

    def x_lambda(self, e):
        fr = self.frames[-1]
        env = dict(fr.vars)
        this = fr.this
        for c in e.get("caps", []):
            if c.get("this"):
                continue
            v = c.get("var")
            if v is None:
                continue
            if c.get("init"):
                if c.get("ref"):
                    env[v] = self.lv(c["init"])
                else:
                    env[v] = self.materialise(self.rv(c["init"]), self.ety(c["init"]), "cap")
            elif not c.get("ref") and v in env:
                env[v] = self.materialise(self.load(env[v]), env[v].ty, "cap")
        self.serial += 1
        i = "lam%d" % self.serial
        self.lams[i] = (e, fr.tu, env, this, fr.fn)
        return leaf(RefV("lam", i))

    def x_unk(self, e):
        raise Unmodelled("construct " + str(e.get("n")))

    # ------------------------------------------------------------------ construction
    def init_lv(self, lv, e):
        """initialise storage with an initialiser expression"""
        ty = lv.ty
        if e["k"] == "ctor":
            self.construct(lv, e)
            return
        if e["k"] == "initlist" and not e.get("std_il") and ty.c == "arr":
            pass
        v = self.rv(e)
        self.store(lv, v)

    def x_ctor(self, e):
        ty = self.ety(e)
        fn = e["fn"]
        if self.kind_ty(ty) is not None or not fn.get("repo"):
            v = self.lib.ctor_value(e, ty)
            if v is not None:
                return v
        r = self.newroot("obj")
        lv = LV(leaf(RefV("ptr", r)), ty)
        self.construct(lv, e)
        return lv

    def construct(self, lv, e):
        fn = e["fn"]
        ty = lv.ty
        cc = fn.get("cc")
        if fn.get("repo"):
            h = self.hooks.get("ctor:" + strip_templates(fn["q"]))
            if h is not None and h(self, lv, e):
                return
            f = self.db.funcs.get(fn["usr"])
            if f is not None:
                args = [self.arg(a, self.ty(t)) for a, t in zip(e["args"], fn["ps"])]
                self.call_func(f, lv.d, args, e)
                return
            if cc in ("copy", "move"):
                src = self.ev_expr(e["args"][0])
                self.copy_object(lv, src, cc == "move")
                return
            if cc == "default" or not e["args"]:
                if e.get("zero"):
                    self.store(lv, self.zero_agg(ty))
                self.default_init(lv)
                return
            raise Unmodelled("constructor " + fn["q"])
        v = self.lib.ctor_value(e, ty)
        if v is None:
            v = self.lib.ctor_into(lv, e)
            if v is None:
                return
        self.store(lv, v)

    def zero_agg(self, ty):
        z = self.zero(ty)
        return z if isinstance(z, Agg) else Agg({(): z})

    def copy_object(self, lv, src, move=False):
        v = self.load(src) if isinstance(src, LV) else src
        self.store(lv, v)
        if move and isinstance(src, LV):
            self.moved_from(src)

    def moved_from(self, src):
        """unique_ptr members of a moved-from object become null"""
        lay = self.layout(src.ty) if src.ty is not None else None
        for p, k in lay or []:
            if k == "ref" and "[]" not in p:
                if self.is_uptr(src.ty, p):
                    self.write(src.d, p, leaf(NULL))

    def is_uptr(self, ty, p):
        if not p:
            return ty.n == "std::unique_ptr"
        r = self.db.recs.get(ty.usr)
        if r is None:
            return False
        for f in r.fields:
            if f["n"] == p[0]:
                return self.is_uptr(r.tu.ty(f["t"]), p[1:])
        return any(self.db.recs.get(b["usr"]) and self.is_uptr_rec(self.db.recs[b["usr"]], p) for b in r.bases)

    def is_uptr_rec(self, r, p):
        for f in r.fields:
            if f["n"] == p[0]:
                return self.is_uptr(r.tu.ty(f["t"]), p[1:])
        return False

    def default_init(self, lv):
        """default initialisation: member initialisers, class members constructed, scalars left indeterminate"""
        ty = lv.ty
        if ty.c == "arr":
            return
        if self.kind_ty(ty) is not None:
            if self.kind_ty(ty) == "str" or ty.n in ("std::unique_ptr", "std::shared_ptr"):
                self.store(lv, self.zero(ty))
            return
        r = self.db.recs.get(ty.usr)
        if r is None:
            v = self.lib.default_value(ty)
            if v is not None:
                self.store(lv, v)
            return
        # user-provided default constructor?
        for m in r.methods:
            if m.get("dflt") and m.get("user"):
                f = self.db.funcs.get(m["usr"])
                if f is not None:
                    self.call_func(f, lv.d, [], None)
                    return
        self.init_members(lv.d, r, {}, set())

    def init_members(self, this, r, inits, done):
        for b in r.bases:
            if b["usr"] in done:
                continue
            br = self.db.recs.get(b["usr"])
            if br is not None:
                ty = Ty()
                ty.c, ty.n, ty.s, ty.usr, ty.repo = "rec", br.n, br.n, br.usr, True
                self.default_init(LV(this, ty))
        for f in r.fields:
            if f["n"] in done:
                continue
            fl = LV(self.field(this, f["n"]), r.tu.ty(f["t"]))
            if f.get("init"):
                fr = Frame(self.frames[-1].fn if self.frames else None, r.tu, this)
                self.frames.append(fr)
                self.init_lv(fl, f["init"])
                self.frames.pop()
            else:
                self.default_init(fl)

    # ------------------------------------------------------------------ calls
    def arg(self, a, pty):
        """argument for a parameter type"""
        v = self.ev_expr(a)
        if pty.ref:
            if isinstance(v, LV):
                return v
            return self.materialise(v, self.noreft(pty) if pty.c != "rec" or self.layout(pty) else self.ety(a), "arg")
        if isinstance(v, LV):
            return self.load(v)
        return v

    def noreft(self, t):
        return t

    def x_call(self, e):
        fn = e.get("fn")
        if fn is None:
            callee = self.scalar(self.rv(e["callee"]))
            return self.call_value(callee, [self.ev_expr(a) for a in e["args"]], e)
        q = strip_templates(fn["q"])
        self.calls[q] = self.calls.get(q, 0) + 1
        if fn.get("lambdaop"):
            lam = self.scalar(self.rv(e["obj"]))
            return self.call_value(lam, [self.ev_expr(a) for a in e["args"]], e, fn)
        if fn.get("repo"):
            return self.call_repo(e, fn, q)
        return self.lib.call(e, fn, q)

    def call_repo(self, e, fn, q):
        this = None
        if "obj" in e:
            if e.get("arrow"):
                this = self.deref(self.scalar(self.rv(e["obj"])))
            else:
                this = self.lv(e["obj"]).d
            this = self.simp(this)
        if fn.get("as") and not fn.get("user"):
            # implicit assignment operator: member-wise
            src = self.ev_expr(e["args"][0])
            lv = LV(this, self.ety(e))
            self.copy_object(lv, src, fn["as"] == "move")
            return lv
        args = [self.arg(a, self.ty(t)) for a, t in zip(e["args"], fn["ps"])]
        if fn.get("virt") and not e.get("nonvirt") and this is not None:
            return self.call_virtual(this, fn, q, args, e)
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, this, args, e)
            if r is not NotImplemented:
                return r
        f = self.db.funcs.get(fn["usr"])
        if f is None:
            if fn.get("static") is None and q.split("::")[-1].startswith("~"):
                return leaf(VOID)
            raise Unmodelled("no body for " + q)
        return self.call_func(f, this, args, e)

    def call_virtual(self, this, fn, q, args, e):
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, this, args, e)
            if r is not NotImplemented:
                return r
        targets = []
        for c, r in leaf_conds(this):
            if not isinstance(r, RefV):
                if r is NULL and not this.is_leaf:
                    continue
                raise Unmodelled("virtual call on null")
            dyn = self.dyntype(r)
            if dyn is None:
                usr = fn["usr"]
            else:
                usr = self.db.find_override(dyn, fn["usr"])
            f = self.db.funcs.get(usr)
            if f is None:
                raise Unmodelled("no body for virtual " + q)
            targets.append((c, r, f))
        if len(targets) == 1:
            return self.call_func(targets[0][2], leaf(targets[0][1]), args, e)
        l0 = self.live
        res, lv = None, FALSE
        for c, r, f in targets:
            self.live = d_and(l0, c)
            if self.live is FALSE:
                continue
            h = self.hooks.get(f.qs)
            v = NotImplemented
            if h is not None:
                v = h(self, leaf(r), args, e)
            if v is NotImplemented:
                v = self.call_func(f, leaf(r), args, e)
            if isinstance(v, LV) and res is not None and not isinstance(res, LV):
                v = self.load(v)
            lv = d_or(lv, self.live)
            res = v if res is None else self.merge(c, v, res)
        self.live = lv
        return res

    def call_value(self, callee, args, e, fn=None):
        """call of a lambda or function pointer value"""
        res = None
        l0, lv = self.live, FALSE
        alts = [(c, r) for c, r in leaf_conds(callee)]
        for c, r in alts:
            self.live = d_and(l0, c)
            if self.live is FALSE:
                continue
            if isinstance(r, RefV) and r.kind == "lam":
                v = self.call_lambda(r.root, args, e, fn)
            elif isinstance(r, RefV) and r.kind == "fn" and r.root not in self.db.funcs and len(args) == 1 and self.lib.charfn_of(r.root):
                v = self.lib.charfn_of(r.root)(self.scalar(self.load(args[0]) if isinstance(args[0], LV) else args[0]))
            elif isinstance(r, RefV) and r.kind == "fn":
                f = self.db.funcs.get(r.root)
                if f is None:
                    raise Unmodelled("call through pointer to library function")
                av = []
                for a, p in zip(args, f.o["params"]):
                    pt = f.tu.ty(p["t"])
                    if pt.ref:
                        av.append(a if isinstance(a, LV) else self.materialise(a, pt))
                    else:
                        av.append(self.load(a) if isinstance(a, LV) else a)
                v = self.call_func(f, None, av, e)
            else:
                raise Unmodelled("call of unknown function value")
            if isinstance(v, LV) and len(alts) > 1:
                v = self.load(v)
            lv = d_or(lv, self.live)
            res = v if res is None else self.merge(c, v, res)
        self.live = lv
        return res

    def call_lambda(self, lid, args, node, fn=None):
        e, tu, env, this, outer = self.lams[lid]
        params, body = e.get("params"), e.get("body")
        if e.get("generic"):
            insts = e["insts"]
            inst = None
            if fn is not None:
                inst = next((i for i in insts if i["usr"] == fn["usr"]), None)
            if inst is None:
                if not insts:
                    raise Unmodelled("generic lambda without instance")
                inst = insts[0]
            params, body = inst["params"], inst["body"]
        fr = Frame(outer, tu, this)
        fr.vars = dict(env)
        return self.run_body(fr, params, args, body, None, node)

    def call_func(self, f, this, args, node):
        if len(self.frames) > 60:
            raise Unmodelled("recursion")
        self.visited.add(f.usr)
        self.called.add(f.q)
        self.ncalls += 1
        fr = Frame(f, f.tu, this)
        o = f.o
        return self.run_body(fr, o["params"], args, o["body"], f, node)

    def run_body(self, fr, params, args, body, f, node):
        if self.live is FALSE:
            if f is not None:
                return self.dead_value(f)
            return leaf(VOID)
        roots = []
        l0 = self.live
        s0 = self.serial
        self.frames.append(fr)
        try:
            for p, a in zip(params, args):
                pt = fr.tu.ty(p["t"])
                if pt.ref:
                    if not isinstance(a, LV):
                        a = self.materialise(a, pt, "arg")
                    fr.vars[p["id"]] = LV(a.d, self.param_ty(pt, a.ty))
                else:
                    if isinstance(a, LV):
                        a = self.load(a)
                    r = self.newroot(p["n"] or "param")
                    lv = LV(leaf(RefV("ptr", r)), pt)
                    self.store(lv, a)
                    fr.vars[p["id"]] = lv
            fr.rvroot = self.newroot("rv")
            if f is not None and f.kind == "ctor":
                self.ctor_inits(fr, f)
            if self.trace:
                print("  " * len(self.frames), "CALL", f)
            bsave, self.brk = self.brk, []
            self.stmt(body)
            self.brk = bsave
            self.live = d_or(self.live, fr.ret)
        finally:
            self.frames.pop()
        if f is not None:
            rt = fr.tu.ty(f.o["ret"])
        else:
            rt = None
        res = leaf(VOID)
        if fr.rvset:
            root = fr.rvroot
            if fr.rvref:
                d = self.st[root].get(("$ref",))
                res = LV(self.simp(d), fr.rvty)
            else:
                lv = LV(leaf(RefV("ptr", root)), fr.rvty)
                if self.live is not FALSE:
                    res = self.load(lv)
                else:
                    res = self.default_of(fr.rvty, "dead")
        elif rt is not None and rt.c != "void":
            res = self.default_of(rt, "noreturn") if not rt.ref else LV(leaf(NULL), rt)
        # release the frame's variables (they are unreachable now) unless a reference may escape
        keep = self.escaping(res)
        for r in list(self.st):
            s = self.serials.get(r, 0)
            if s > s0 and not r.startswith(("heap", "obj", "cap", "tmp", "arg", "strm")) and r not in keep:
                del self.st[r]
        return res

    def escaping(self, v):
        out = set()

        def scan(d):
            for l in leaves_of(d):
                if isinstance(l, RefV) and isinstance(l.root, str):
                    out.add(l.root)
        if isinstance(v, LV):
            scan(v.d)
        elif isinstance(v, D):
            scan(v)
        elif isinstance(v, Agg):
            for d in v.m.values():
                scan(d)
        return out

    def dead_value(self, f):
        rt = f.tu.ty(f.o["ret"])
        if rt.c == "void":
            return leaf(VOID)
        if rt.ref:
            return LV(leaf(NULL), rt)
        return self.default_of(rt, "dead")

    def param_ty(self, pt, at):
        if pt.c == "rec" and self.layout(pt) is None and at is not None:
            return at
        return pt

    def ctor_inits(self, fr, f):
        r = self.db.recs.get(f.rec)
        inits = f.o.get("inits", [])
        done = set()
        for x in inits:
            if x.get("deleg"):
                self.init_lv(LV(fr.this, self.rec_ty(r)), x["e"])
                return
        for x in inits:
            # in declaration order, as listed by the compiler
            if x.get("base"):
                b = next((b for b in r.bases if b["n"] == x["base"] or b["usr"] == x["base"]), None)
                if b is not None:
                    done.add(b["usr"])
                    br = self.db.recs.get(b["usr"])
                    if br is not None and x.get("e"):
                        self.init_lv(LV(fr.this, self.rec_ty(br)), x["e"])
                continue
            if x.get("f") is None:
                continue
            fd = next((q for q in r.fields if q["n"] == x["f"]), None)
            if fd is None:
                continue
            done.add(x["f"])
            fl = LV(self.field(fr.this, x["f"]), r.tu.ty(fd["t"]))
            if x.get("e"):
                self.init_lv(fl, x["e"])
            else:
                self.default_init(fl)
        if r is not None:
            self.init_members(fr.this, r, {}, done)

    def rec_ty(self, r):
        ty = Ty()
        ty.c, ty.n, ty.s, ty.usr, ty.repo = "rec", r.n, r.n, r.usr, True
        return ty

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.live is FALSE:
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unmodelled("statement " + k + " " + str(s.get("n", "")))
        m(s)

    def s_null(self, s):
        pass

    def s_unk(self, s):
        raise Unmodelled("statement " + str(s.get("n")))

    def s_block(self, s):
        for x in s["s"]:
            if self.live is FALSE:
                return
            self.stmt(x)

    def s_expr(self, s):
        self.ev_expr(s["e"])

    def s_decl(self, s):
        for d in s["d"]:
            self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        ty = fr.tu.ty(d["t"])
        if d.get("static"):
            root = "static:%s:%s" % (fr.fn.usr if fr.fn else "", d["n"])
            lv = LV(leaf(RefV("ptr", root)), ty)
            fr.vars[d["id"]] = lv
            if root not in self.st:
                self.st[root] = {}
                self.serials[root] = 0
                self.staticinit.add(root)
                if d.get("init"):
                    sl, self.live = self.live, TRUE
                    self.init_lv(lv, d["init"])
                    self.live = sl
            return
        if ty.ref:
            v = self.ev_expr(d["init"])
            if not isinstance(v, LV):
                v = self.materialise(v, ty, d["n"] or "ref")
            lv = LV(v.d, self.param_ty(ty, v.ty))
        else:
            r = self.newroot(d["n"] or "binding")
            lv = LV(leaf(RefV("ptr", r)), ty)
            if d.get("init"):
                self.init_lv(lv, d["init"])
            else:
                self.default_init(lv)
        fr.vars[d["id"]] = lv
        for i, b in enumerate(d.get("binds") or []):
            bt = fr.tu.ty(b["t"])
            lay = ty.n
            if lay == "std::pair":
                fr.vars[b["id"]] = LV(self.field(lv.d, ("first", "second")[i]), bt)
            elif lay == "std::tuple":
                fr.vars[b["id"]] = LV(self.field(lv.d, "t%d" % i), bt)
            elif b.get("e"):
                fr.vars[b["id"]] = self.lv(b["e"])
            else:
                rec = self.db.recs.get(ty.usr)
                if rec is None:
                    raise Unmodelled("structured binding of " + ty.s)
                fr.vars[b["id"]] = LV(self.field(lv.d, rec.fields[i]["n"]), bt)
            if b.get("hold"):
                fr.vars[b["hold"]] = fr.vars[b["id"]]

    def s_if(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        if s.get("constexpr") and "cval" in s:
            self.stmt(s["then"] if s["cval"] else s.get("else"))
            return
        c = self.cond(s["c"])
        l0 = self.live
        self.live = d_and(l0, c)
        self.stmt(s["then"])
        la = self.live
        self.live = d_and(l0, d_not(c))
        if s.get("else"):
            self.stmt(s["else"])
        self.live = d_or(la, self.live)

    def s_return(self, s):
        fr = self.frames[-1]
        if s.get("e") is not None:
            e = s["e"]
            rt = None
            if fr.fn is not None and fr.rvroot:
                rt = None
            v = self.ev_expr(e)
            f = fr.fn
            isref = False
            if f is not None and fr.this is not None or f is not None:
                isref = self.ret_is_ref(fr)
            if isref and isinstance(v, LV):
                root = fr.rvroot
                old = self.st[root].get(("$ref",))
                self.st[root][("$ref",)] = v.d if old is None else ite(self.live, v.d, old)
                fr.rvref, fr.rvty, fr.rvset = True, v.ty, True
            else:
                ty = v.ty if isinstance(v, LV) else self.ety(e)
                if isinstance(v, LV):
                    v = self.load(v)
                if not (isinstance(v, D) and v.is_leaf and v.leaf is VOID):
                    self.store(LV(leaf(RefV("ptr", fr.rvroot)), ty), v)
                    fr.rvty, fr.rvset = ty, True
        fr.ret = d_or(fr.ret, self.live)
        self.live = FALSE

    def ret_is_ref(self, fr):
        f = fr.fn
        if f is None or getattr(fr, "lam", False):
            return False
        return bool(f.tu.ty(f.o["ret"]).ref) if "ret" in f.o else False

    def s_break(self, s):
        b = self.brk[-1]
        b.brk = d_or(b.brk, self.live)
        self.live = FALSE

    def s_continue(self, s):
        for b in reversed(self.brk):
            if not getattr(b, "switch", False):
                b.cont = d_or(b.cont, self.live)
                break
        self.live = FALSE

    def s_switch(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        c = self.scalar(self.rv(s["c"]))
        l0 = self.live
        bf = BrkFrame()
        bf.switch = True
        self.brk.append(bf)
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        labels = []

        def collect(x):
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "case":
                    labels.append(int(x["v"]))
                x = x.get("sub")
        for x in body:
            collect(x)
        isv = {v: cmp("==", apply(None, lambda l: leaf(as_poly(l)), c), num(v), False) for v in labels}
        none = conj([d_not(x) for x in isv.values()])
        self.live = FALSE
        for x in body:
            while x is not None and x["k"] in ("case", "default"):
                g = isv[int(x["v"])] if x["k"] == "case" else none
                self.live = d_or(self.live, d_and(l0, g))
                x = x.get("sub")
            if x is not None and self.live is not FALSE:
                self.stmt(x)
        self.brk.pop()
        has_default = any(self._has_default(x) for x in body)
        self.live = d_or(self.live, bf.brk)
        if not has_default:
            self.live = d_or(self.live, d_and(l0, none))

    def _has_default(self, x):
        while x is not None and x["k"] in ("case", "default"):
            if x["k"] == "default":
                return True
            x = x.get("sub")
        return False

    def s_try(self, s):
        t = TryFrame()
        self.tries.append(t)
        self.stmt(s["body"])
        self.tries.pop()
        after = self.live
        for h in s.get("handlers", []):
            self.live = t.caught
            if self.live is not FALSE:
                if h.get("var"):
                    v = h["var"]
                    r = self.newroot("exc")
                    self.frames[-1].vars[v["id"]] = LV(leaf(RefV("ptr", r)), self.ty(v["t"]))
                self.stmt(h["body"])
                after = d_or(after, self.live)
            break
        self.live = after

    def s_omp(self, s):
        n = s["n"]
        if "for" in n.split() and "parallel" in n.split() or n in ("for", "parallel for", "parallel for simd", "for simd"):
            self.omp_next = s
            self.stmt(s.get("s"))
            self.omp_next = None
            return
        if n in ("parallel",):
            save = getattr(self, "omp_region", None)
            self.omp_region = s
            self.emit("ompregion", (n,), s)
            self.stmt(s.get("s"))
            self.omp_region = save
            return
        self.emit("ompother", (n,), s)
        self.stmt(s.get("s"))

    def s_for(self, s):
        omp, self.omp_next = self.omp_next, None
        if s.get("init"):
            self.stmt(s["init"])
        c, body = self.head_test(s.get("c"), s["body"]) if omp is None else (s.get("c"), s["body"])
        self.loop(s, "for", c, body, s.get("inc"), omp=omp)

    def s_while(self, s):
        omp, self.omp_next = self.omp_next, None
        if s.get("cv"):
            raise Unmodelled("while with declaration")
        c, body = self.head_test(s["c"], s["body"])
        self.loop(s, "while", c, body, None, omp=omp)

    def head_test(self, c, body):
        """an endless loop that starts with 'if (x) break;' is a loop with the condition !x"""
        def strip(x):
            while x is not None and x["k"] in ("cast", "paren", "icast") and isinstance(x.get("e"), dict):
                x = x["e"]
            return x
        c0 = strip(c)
        if c0 is not None and not (c0["k"] == "bool" and c0.get("v")):
            return c, body
        if body["k"] != "block" or not body["s"]:
            return c, body
        f = body["s"][0]
        if f["k"] != "if" or f.get("else") is not None or f.get("init") or f.get("cv"):
            return c, body
        t = f["then"]
        while t["k"] == "block" and len(t["s"]) == 1:
            t = t["s"][0]
        if t["k"] != "break":
            return c, body
        return dict(f["c"], k="un", op="!", e=f["c"], post=False), dict(body, s=body["s"][1:])

    def s_do(self, s):
        # the body runs once, then as a while loop
        bf = BrkFrame()
        self.brk.append(bf)
        l0 = self.live
        self.stmt(s["body"])
        self.brk.pop()
        self.live = d_or(self.live, bf.cont)
        if self.live is not FALSE:
            self.loop(s, "while", s["c"], s["body"], None)
        self.live = d_or(self.live, bf.brk)

    def s_rfor(self, s):
        omp, self.omp_next = self.omp_next, None
        if s.get("init"):
            self.stmt(s["init"])
        rng = self.ev_expr(s["range"])
        if not isinstance(rng, LV):
            rng = self.materialise(rng, self.ety(s["range"]), "range")
        if rng.ty is not None and rng.ty.n == "std::basic_string":
            return self.rfor_string(s, rng)
        cont, elty = self.container(rng, s)
        self.loop(s, "rfor", None, s["body"], None, rng=(cont, elty, s["var"]), omp=omp)

    def rfor_string(self, s, rng):
        """the characters of a known string, one after the other"""
        d = self.scalar(self.load(rng))
        c = d.leaf.const() if d.is_leaf else None
        if c is None or len(c) > 64:
            raise Unmodelled("characters of an unknown string")
        ty = self.frames[-1].tu.ty(s["var"]["t"])
        bf = BrkFrame()
        self.brk.append(bf)
        out = []
        for x in c:
            r = self.newroot("char")
            el = LV(leaf(RefV("ptr", r)), None)
            self.write(el.d, (), num(ord(x)))
            bf.cont = FALSE
            self.bind_range_var(s["var"], el)
            self.stmt(s["body"])
            self.live = d_or(self.live, bf.cont)
            out.append(self.read(el.d, (), "num"))
        self.brk.pop()
        self.live = d_or(self.live, bf.brk)
        if ty.ref and not ty.const:
            k = [as_poly(x.leaf).const() if x.is_leaf else None for x in out]
            if any(x is None for x in k):
                raise Unmodelled("unknown characters")
            self.store(rng, leaf(Str(("".join(chr(int(x)) for x in k),)) if k else Str(())))

    def container(self, lv, node):
        """reference D of the underlying vector of a range"""
        ty = lv.ty
        if ty.n in ("std::vector", "std::deque", "std::initializer_list", "std::array", "std::list"):
            return lv.d, ty.el[0] if ty.el else None
        if ty.c == "arr":
            return lv.d, ty.el[0]
        if eigen_dim(ty) == "dyn":
            return lv.d, T_DOUBLE
        r = self.db.recs.get(ty.usr)
        if r is not None:
            f = None
            for m in r.methods:
                if m["n"] == "begin":
                    g = self.db.funcs.get(m["usr"])
                    if g is not None:
                        f = g
            if f is not None:
                v = self.call_func(f, lv.d, [], node)
                v = self.scalar(v)

                def g(x):
                    if isinstance(x, RefV) and x.kind == "it" and x.extra is ZERO:
                        return leaf(RefV("ptr", x.root, x.path))
                    raise Unmodelled("range begin")
                d = apply(None, g, v)
                rt = f.tu.ty(f.o["ret"])
                el = None
                if rt.n == "__gnu_cxx::__normal_iterator" and rt.el and rt.el[0].c == "ptr":
                    el = rt.el[0].el[0]
                return d, el
        if ty.n in ("std::unordered_map", "std::map"):
            raise Unmodelled("iteration over a map")
        d = self.simp(lv.d)
        # unknown static type: look at the stored shape
        if all(isinstance(x, RefV) and ("#",) in self.subpaths(x) for x in leaves_of(d)):
            return d, None
        raise Unmodelled("range over " + ty.s)

    # ------------------------------------------------------------------ loops
    def snapshot(self):
        return {r: dict(d) for r, d in self.st.items()}

    def loop(self, node, kind, cond, body, inc, rng=None, omp=None):
        if self.live is FALSE:
            return
        if self.content is not None and self.depth == 0:
            self.known_live()
            if (cond is not None or rng is None and kind == "for") and self.peel(cond, body, inc):
                return
        if kind == "for" and cond is not None and omp is None and self.counted_out(cond, body, inc):
            return
        try:
            self.loop1(node, kind, cond, body, inc, rng, omp)
        except Split as sp:
            if not sp.args and sp.var is None:
                raise
            self.loop_split(sp.var, node, kind, cond, body, inc, rng, omp)

    def counted_out(self, cond, body, inc):
        """a loop whose condition is decided every time and that ends within a few iterations, run as a sequence"""
        start = (self.snapshot(), list(self.ev), self.serial, self.loopctr, list(self.loops), dict(self.frames[-1].vars), self.live, self.ctx)
        rets = [(f, f.ret) for f in self.frames]
        caught = [(t, t.caught) for t in self.tries]
        outer = [(b, b.brk, b.cont) for b in self.brk]
        brks = FALSE
        ok = False
        nbrk = len(self.brk)
        depth = self.depth
        try:
            for k in range(self.max_unroll + 1):
                if self.live is FALSE:
                    ok = True
                    break
                c = restrict(self.cond(cond), d_and(self.live, self.ctx))
                if c is FALSE:
                    ok = k > 0
                    break
                if c is not TRUE or k == self.max_unroll:
                    break
                bf = BrkFrame()
                self.brk.append(bf)
                self.stmt(body)
                self.live = d_or(self.live, bf.cont)
                if inc is not None and self.live is not FALSE:
                    self.ev_expr(inc)
                self.brk.pop()
                brks = d_or(brks, bf.brk)
        except (Split, Unmodelled):
            ok = False
        if ok:
            self.live = d_or(self.live, brks)
            return True
        del self.brk[nbrk:]
        self.depth = depth
        self.st, self.ev, self.serial, self.loopctr, self.loops, self.frames[-1].vars, self.live, self.ctx = start
        for f, r in rets:
            f.ret = r
        for t, x in caught:
            t.caught = x
        for b, x, y in outer:
            b.brk, b.cont = x, y
        return False

    def known_live(self):
        """values matter only where the program is still running"""
        g = self.live
        if g is TRUE:
            return
        for r, m in self.st.items():
            for p, d in m.items():
                if g.vars & d.vars:
                    m[p] = restrict(d, g)

    def peel(self, cond, body, inc):
        """iterations whose condition is decided, one by one; False when the loop goes on with an undecided condition"""
        brks = FALSE
        segs = soft = 0
        last = self.live
        start = (self.snapshot(), list(self.ev), self.serial, self.loopctr, list(self.loops), dict(self.frames[-1].vars), self.live, self.ctx,
                 [(f, f.ret) for f in self.frames], [(t, t.caught) for t in self.tries])
        for k in range(5000):
            if self.live is FALSE:
                break
            self.known_live()
            rec = self.content.records(self)
            if rec is not None:
                # one summary for all the records of the block that the stream has reached
                if self.loop1(cond, "records", None, body, inc, None, None, seg=rec + (cond,)) is not False:
                    segs += 1
                    continue
            base, ev, serial, loopctr, loops, vars0 = self.snapshot(), list(self.ev), self.serial, self.loopctr, list(self.loops), dict(self.frames[-1].vars)
            c = restrict(self.cond(cond), d_and(self.live, self.ctx)) if cond is not None else TRUE
            if c is FALSE:
                break
            soft += self.live is not last
            last = self.live
            if c is not TRUE or soft > 4 and segs == 0:
                self.st, self.ev, self.serial, self.loopctr, self.loops, self.frames[-1].vars = base, ev, serial, loopctr, loops, vars0
                if segs == 0:
                    # one summary of the whole loop
                    self.st, self.ev, self.serial, self.loopctr, self.loops, self.frames[-1].vars, self.live, self.ctx = start[:8]
                    for f, r in start[8]:
                        f.ret = r
                    for t, x in start[9]:
                        t.caught = x
                elif brks is not FALSE:
                    raise Unmodelled("loop left early before it is summarised")
                return False
            bf = BrkFrame()
            self.brk.append(bf)
            self.stmt(body)
            self.live = d_or(self.live, bf.cont)
            if inc is not None and self.live is not FALSE:
                self.ev_expr(inc)
            self.brk.pop()
            brks = d_or(brks, bf.brk)
        else:
            raise core.Endless("loop without end over known contents")
        self.live = d_or(self.live, brks)
        return True

    def loop_split(self, v, node, kind, cond, body, inc, rng, omp):
        """case distinction on a loop-invariant decision"""
        l0, c0 = self.live, self.ctx
        base = self._split_base
        fr0 = [(f, f.ret) for f in self.frames]
        states = []
        vals = list(v.vals) if v.vals is not None else None
        if vals is None:
            raise Unmodelled("open case distinction on a loop bound")
        for x in vals:
            g = node_lit(v, x)
            if d_and(self.care0(l0, c0), g) is FALSE:
                continue
            self.st = {r: dict(d) for r, d in base.items()}
            self.live = d_and(l0, g)
            self.loop(node, kind, cond, body, inc, rng, omp)
            states.append((g, self.st, self.live))
        self.ctx = c0
        st = states[-1][1]
        lv = FALSE
        for g, s, l in states:
            lv = d_or(lv, l)
        for g, s, l in reversed(states[:-1]):
            for r in set(s) | set(st):
                a, b = s.get(r), st.get(r)
                if b is None:
                    st[r] = a
                elif a is not None and a != b:
                    m = {}
                    for p in list(a) + [p for p in b if p not in a]:
                        x, y = a.get(p), b.get(p)
                        m[p] = y if x is None else x if y is None or x is y else ite(g, x, y)
                    st[r] = m
        self.st = st
        self.live = lv

    def care0(self, l, c):
        return d_and(l, c)

    def loop1(self, node, kind, cond, body, inc, rng, omp, seg=None):
        L0, ctx0 = self.live, self.ctx
        base = self.snapshot()
        serial0, loopctr0 = self.serial, self.loopctr
        self.loopctr += 1
        L = self.loopctr
        it = atom("it", L, nn=True)
        it.info = "int"
        ev0, loops0 = self.ev, len(self.loops)
        fr = self.frames[-1]
        ret0 = fr.ret
        tries0 = [t.caught for t in self.tries]
        brk0 = self.brk
        depth0 = self.depth
        vars0 = dict(fr.vars)
        trip = None
        condfx = False
        rngsize = None
        if rng is not None:
            contd = self.simp(rng[0])
            if not contd.is_leaf:
                self._split_base = base
                raise Split(contd.var)
            rng_n = self.simp(rng[3]) if len(rng) > 3 else None
            rng = (contd,) + tuple(rng[1:])
            if contd.leaf is NULL:
                return
            if len(rng) > 3:
                n = rng_n
            elif ("#",) in self.subpaths(contd.leaf):
                n = self.read(contd, ("#",), "num")
            else:
                t = rng[1]
                ln = self.arr_len(contd)
                if ln is None:
                    raise Unmodelled("range without size")
                n = num(ln)
            if not n.is_leaf:
                self._split_base = base
                raise Split(n.var)
            trip = as_poly(n.leaf)
            if trip is P0:
                return
        core.set_upper(it, None)
        if seg is not None:
            trip, segkey, seg0, segcond = seg
            core.set_upper(it, trip)
        elif trip is not None:
            core.set_upper(it, trip)
            tc = trip.const()
            if tc is not None and tc <= self.max_unroll:
                self.unroll_range(node, body, rng, int(tc))
                return
        M = {}
        if seg is not None:
            M[segkey] = ("ind", lambda t, s0=seg0: d_add(s0, t))
        for npass in range(12):
            self.st = {r: dict(d) for r, d in base.items()}
            self.serial, self.loopctr = serial0, L
            self.ctx = d_and(ctx0, L0)
            self.live = TRUE
            self.ev = []
            del self.loops[loops0:]
            fr.ret = FALSE
            fr.vars = dict(vars0)
            for t in self.tries:
                t.caught = FALSE
            self.depth = depth0 + 1
            self.itstk = self.itstk[:depth0] + [it]
            for key, m in M.items():
                root, path = key
                if m[0] == "mu":
                    self.st[root][path] = self.mu(L, key, m[1])
                else:
                    self.st[root][path] = m[1](dat(it))
            bf = BrkFrame()
            self.brk = brk0 + [bf]
            brk_top = FALSE
            c = None
            csplit = None
            if rng is not None:
                self.bind_elem(rng, dat(it))
            elif seg is not None:
                segc = restrict(self.cond(segcond), self.ctx)
            elif cond is not None:
                core.set_upper(it, None)
                st0 = self.snapshot()
                c = self.cond(cond)
                condfx = any(self.st.get(r, m) != m for r, m in st0.items())
                if npass == 0 and c is FALSE and not self.ev:
                    # never entered
                    self.restore_loop(base, L0, ctx0, ev0, loops0, ret0, tries0, brk0, depth0, vars0, fr)
                    return
                if npass > 0:
                    trip, brk_top, csplit = self.find_trip(c, it, L)
                    if csplit is not None:
                        self.restore_loop(base, L0, ctx0, ev0, loops0, ret0, tries0, brk0, depth0, vars0, fr)
                        self.serial, self.loopctr = serial0, loopctr0
                        self._split_base = base
                        raise Split(csplit)
                    if trip is not None:
                        core.set_upper(it, trip)
                        tc = trip.const()
                        if tc is not None and tc <= self.max_unroll and brk_top is FALSE and kind == "for":
                            self.restore_loop(base, L0, ctx0, ev0, loops0, ret0, tries0, brk0, depth0, vars0, fr)
                            self.serial, self.loopctr = serial0, loopctr0
                            if self.unroll_cond(node, cond, body, inc):
                                return
                            raise Unmodelled("unrolling")
                        c_in = restrict(c, TRUE)
                        bf.brk = brk_top
                        self.live = d_not(brk_top)
                    else:
                        self.ctx = d_and(self.ctx, c)
                else:
                    if c is not FALSE:
                        self.ctx = d_and(self.ctx, c)
            self.stmt(body)
            self.live = d_or(self.live, bf.cont)
            if inc is not None and self.live is not FALSE:
                self.ev_expr(inc)
            cont_live = self.live
            # modified keys
            changed = {}
            for r, dct in self.st.items():
                if self.serials.get(r, 0) > serial0:
                    continue
                b = base.get(r)
                if b is None:
                    b = {}
                for p, d in dct.items():
                    I = b.get(p)
                    key = (r, p)
                    m = M.get(key)
                    if m is not None:
                        continue
                    if I is d:
                        continue
                    if I is None:
                        I = self.uninit(r, p, self.kind_of(d))
                        if I is d:
                            continue
                    if condfx and bf.brk is FALSE and fr.ret is FALSE and all(t.caught is FALSE for t in self.tries):
                        # changed only where the condition is false: the value at the head of the loop is the initial one
                        here = d_and(self.ctx, c)
                        d2 = restrict(restrict(d, cont_live), here)
                        if trip is not None and it in d2.deps:
                            # decisions that the number of iterations settles
                            d2 = Subst({it: dat(it)}).d(d2)
                        if d2 is restrict(I, here):
                            continue
                    changed[key] = (I, d)
            again = False
            for key, (I, d) in changed.items():
                k = self.kind_of(d)
                I2 = base.get(key[0], {}).get(key[1])
                if I2 is None:
                    I2 = self.uninit(key[0], key[1], k)
                    base.setdefault(key[0], {})[key[1]] = I2
                k = self.kind_of(I2) if k == "num" and self.kind_of(I2) != "num" else k
                guess = self.guess_ind(I2, d, it, L) if "[]" not in key[1] else None
                M[key] = guess if guess is not None else ("mu", k)
                again = True
            if not again:
                for key, m in list(M.items()):
                    if m[0] == "ind":
                        d = self.st[key[0]].get(key[1])
                        want = m[1](d_add(dat(it), ONE))
                        d2 = restrict(restrict(d, cont_live), self.ctx) if d is not None else None
                        if d2 is not want and restrict(restrict(want, cont_live), self.ctx) is not d2:
                            # maybe inductive with another step
                            M[key] = ("mu", self.kind_of(m[1](ZERO)))
                            again = True
            if not again and npass > 0:
                break
        else:
            raise Unmodelled("loop analysis did not stabilise")
        if seg is not None and segc is not TRUE:
            # another loop than one over these records
            self.restore_loop(base, L0, ctx0, ev0, loops0, ret0, tries0, brk0, depth0, vars0, fr)
            self.serial, self.loopctr = serial0, loopctr0
            return False
        # ---- final pass done: build the loop record
        lp = Loop()
        lp.L, lp.kind, lp.it, lp.trip, lp.omp = L, kind, it, trip, omp
        lp.loc = self.where(node)
        lp.fn = fr.fn
        lp.guard = L0
        lp.ctx = ctx0
        lp.cond = c
        lp.events = lp.rawevents = self.ev
        lp.serial0 = serial0
        lp.omp_region = getattr(self, "omp_region", None)
        lp.subst = []
        lp.node = node
        lp.M = M
        lp.rng = rng
        N = self.st
        E = {"brk": bf.brk, "ret": fr.ret}
        thr = FALSE
        for t in self.tries:
            thr = d_or(thr, t.caught)
        E["throw"] = thr
        E["exit"] = d_not(d_or(d_or(cont_live, bf.brk), d_or(fr.ret, thr)))
        if self.ctx is not TRUE:
            E = {k: (restrict(v, self.ctx) if v is not FALSE else v) for k, v in E.items()}
        lp.E = dict(E)
        for key, m in M.items():
            ki = KeyInfo()
            ki.I0 = base[key[0]].get(key[1])
            ki.I = restrict(restrict(ki.I0, L0), ctx0) if ki.I0 is not None else None
            ki.N = N[key[0]].get(key[1])
            ki.m = self.mu(L, key, m[1]) if m[0] == "mu" else m[1](dat(it))
            ki.cls = "ind" if m[0] == "ind" else None
            ki.F = ki.pre = None
            ki.G = None
            if m[0] == "ind":
                ki.pre = m[1](dat(it))
            lp.keys[key] = ki
        inloops = self.loops[loops0:]
        del self.loops[loops0:]
        # restore the state of before the loop
        vars_after = dict(fr.vars)
        self.restore_loop(base, L0, ctx0, ev0, loops0, ret0, tries0, brk0, depth0, vars0, fr)
        if trip is None and rng is None and seg is None:
            forever = c is TRUE or c is None
            cnt = atom("cnt", L, *self.outer_deps(lp), nn=True)
            cnt.info = "int"
            lp.trip = patom(cnt)
            lp.counted = False
            lp.forever = forever
        else:
            lp.counted = True
            lp.forever = False
        lp.tripD = leaf(lp.trip)
        self.resolve_loop(lp)
        self.loops += inloops
        self.loops.append(lp)
        self.nloops += 1
        self.ev.append(lp)
        # write back
        for key, ki in lp.keys.items():
            root, path = key
            F = ki.F
            if L0 is not TRUE:
                F = ite(L0, F, ki.I0)
            b = self.birth.get(root)
            if b is not None and b[0] == self.depth and b[1] is not TRUE:
                F = restrict(F, b[1])
            self.st[root][path] = self.widen(root, path, F)
        # liveness after the loop
        self.finish_liveness(lp, L0, fr)
        if self.live is not FALSE and condfx and lp.E["brk"] is not FALSE:
            raise Unmodelled("loop left early whose condition has effects")
        if self.live is not FALSE and (not lp.counted or condfx) and not lp.forever and cond is not None:
            # the condition is evaluated once more and is false
            ev1 = self.ev
            self.ev = []
            try:
                cfin = self.cond(cond)
            except Unmodelled:
                cfin = None
            lp.tailev = self.ev
            self.ev = ev1
            if cfin is not None and not cfin.is_leaf:
                self.ctx_after(d_not(cfin), lp)

    def ctx_after(self, fact, lp):
        """a fact that holds after a loop which ended normally"""
        if lp.E["brk"] is not FALSE:
            return
        if self.depth and nsize(fact, 48) >= 48:
            return
        if self.depth:
            # inside another loop the fact is an assumption about the rest of the iteration
            c = d_and(self.ctx, d_or(d_not(self.live), fact))
            if c is not FALSE:
                self.ctx = c
            return
        l = d_and(self.live, fact)
        if l is not FALSE:
            self.live = l

    def restore_loop(self, base, L0, ctx0, ev0, loops0, ret0, tries0, brk0, depth0, vars0, fr):
        self.st = base
        self.live, self.ctx = L0, ctx0
        self.ev = ev0
        fr.ret = ret0
        for t, c in zip(self.tries, tries0):
            t.caught = c
        self.brk = brk0
        self.depth = depth0
        self.itstk = self.itstk[:depth0]
        fr.vars = vars0

    def bind_elem(self, rng, i):
        if rng[2] is None:
            self.pyidx = i
            return
        self.bind_range_var(rng[2], LV(self.index(rng[0], i), rng[1]))

    def pyloop(self, e, n, f, cont=None):
        """counted loop of n iterations whose body is an analysis function (models of std:: algorithms)"""
        if cont is None:
            cont = leaf(RefV("ptr", "nothing"))
            self.st.setdefault("nothing", {})
        body = {"k": "pycall", "f": f, "l": e.get("l", 0)}
        self.loop(e, "rfor", None, body, None, rng=(cont, None, None, n))

    def s_pycall(self, s):
        s["f"](self.pyidx)

    def tmp_name(self, s):
        self.serial += 1
        a = atom("tmp", "%s%d" % (s, self.serial), nn=True)
        a.info = "int"
        return a

    def append_target(self, lv, n):
        pass

    def access(self, lv, i, name, e):
        if self.access_hook is not None:
            self.access_hook(lv, i, name, e)

    def bind_range_var(self, v, el):
        fr = self.frames[-1]
        ty = fr.tu.ty(v["t"])
        if ty.ref:
            if el.ty is None:
                el = LV(el.d, ty)
            fr.vars[v["id"]] = LV(el.d, self.param_ty(ty, el.ty))
        else:
            el = LV(el.d, el.ty or ty)
            r = self.newroot(v["n"] or "elem")
            lv = LV(leaf(RefV("ptr", r)), ty)
            self.store(lv, self.load(el))
            fr.vars[v["id"]] = lv
        for i, b in enumerate(v.get("binds") or []):
            lv = fr.vars[v["id"]]
            bt = fr.tu.ty(b["t"])
            if ty.n == "std::pair":
                fr.vars[b["id"]] = LV(self.field(lv.d, ("first", "second")[i]), bt)
            else:
                rec = self.db.recs.get(ty.usr)
                if rec is None:
                    raise Unmodelled("structured binding in range")
                fr.vars[b["id"]] = LV(self.field(lv.d, rec.fields[i]["n"]), bt)
            if b.get("hold"):
                fr.vars[b["hold"]] = fr.vars[b["id"]]

    def arr_len(self, contd):
        return None

    def unroll_range(self, node, body, rng, n):
        bf = BrkFrame()
        self.brk.append(bf)
        for i in range(n):
            if self.live is FALSE:
                break
            self.bind_elem(rng, num(i))
            bf.cont = FALSE
            self.stmt(body)
            self.live = d_or(self.live, bf.cont)
        self.brk.pop()
        self.live = d_or(self.live, bf.brk)

    def unroll_cond(self, node, cond, body, inc):
        bf = BrkFrame()
        self.brk.append(bf)
        for i in range(self.max_unroll + 1):
            if self.live is FALSE:
                break
            c = self.cond(cond)
            if c is FALSE:
                break
            if c is not TRUE or i == self.max_unroll:
                self.brk.pop()
                return False
            bf.cont = FALSE
            self.stmt(body)
            self.live = d_or(self.live, bf.cont)
            if inc is not None and self.live is not FALSE:
                self.ev_expr(inc)
        self.brk.pop()
        self.live = d_or(self.live, bf.brk)
        return True

    def mu(self, L, key, kind):
        n = sum(1 for p in key[1] if p == "[]")
        a = atom("mu", L, key, *[patom(ARGS[i]) for i in range(n)])
        return self.tv(kind, a)

    def is_mu(self, a, L):
        return a.kind == "mu" and a.args[0] == L

    def guess_ind(self, I, d, it, L):
        """constant-step recurrences"""
        try:
            if self.kind_of(I) == "ref" or self.kind_of(d) == "ref":
                if I.is_leaf and d.is_leaf and isinstance(I.leaf, RefV) and isinstance(d.leaf, RefV):
                    a, b = I.leaf, d.leaf
                    if a.kind in ("it", "rit") and a.kind == b.kind and (a.root, a.path) == (b.root, b.path):
                        st = d_sub(b.extra, a.extra)
                        if st.is_leaf and st.leaf.const() is not None and st.leaf.const() != 0:
                            return ("ind", lambda k, a=a, st=st: leaf(RefV(a.kind, a.root, a.path, d_add(a.extra, d_mul(k, st)))))
                return None
            if self.kind_of(I) != "num" or self.kind_of(d) != "num":
                return None
            I, d = restrict(I, self.ctx), restrict(d, self.ctx)
            st = d_sub(d, I)
            if st.is_leaf and st.leaf.const() is not None and st.leaf.const() != 0:
                return ("ind", lambda k, I=I, st=st: d_add(I, d_mul(k, st)))
        except Unmodelled:
            pass
        return None

    def find_trip(self, c, it, L):
        """(trip, early-exit condition at the top, variable to split on)"""
        if c is None or c.is_leaf:
            return None, FALSE, None
        cands = []
        for v in c.vars:
            if v.kind != "sgn":
                continue
            p = v.arg
            if it not in p.deps:
                continue
            lin = p_linear(p, it)
            if lin is None:
                continue
            a, rest = lin
            if any(self.is_mu(x, L) for x in rest.deps):
                continue
            if a not in (1, -1):
                # a*it + rest < 0
                cands.append((v, a, rest))
                continue
            cands.append((v, a, rest))
        first = None
        for v, a, rest in sorted(cands, key=lambda x: x[0].id):
            ok = [x for x in v.vals if cof(c, v, x) is not FALSE]
            if len(ok) == len(v.vals):
                # loop-invariant decisions above?
                continue
            B = cof(c, v, ok[0])
            if any(cof(c, v, x) is not B for x in ok[1:]):
                continue
            t = None
            S = set(ok) & {-1, 0, 1}
            if a in (1, -1):
                r = p_neg(rest) if a == 1 else rest
                if a == -1:
                    S = {-x for x in S}
                # condition: sign(it - r) in S
                if S == {-1}:
                    t = r
                elif S == {-1, 0}:
                    t = p_add(r, P1)
                elif S == {-1, 1}:
                    t = r
            else:
                # it < r/|a| (rounded up)
                sgn = 1 if a > 0 else -1
                S2 = S if a > 0 else {-x for x in S}
                r = p_scale(rest, Fraction(-1) / a)
                cc = r.const()
                if S2 == {-1}:
                    t = pconst(-((-cc.numerator) // cc.denominator)) if cc is not None else ceil_atom(r)
                elif S2 == {-1, 0}:
                    t = pconst(cc.numerator // cc.denominator + 1) if cc is not None else p_add(floor_atom(r), P1)
                elif S2 == {-1, 1} and cc is not None and cc.denominator == 1:
                    t = pconst(cc)
            if t is None:
                continue
            if B is TRUE:
                return t, FALSE, None
            if first is None:
                first = t, d_not(B), None
        # false at a certain iteration, whatever follows
        seen = set()
        for v, a, rest in sorted(cands, key=lambda x: x[0].id):
            if a not in (1, -1) or v.vals is None:
                continue
            for r in (p_neg(rest) if a == 1 else rest, p_add(p_neg(rest) if a == 1 else rest, P1)):
                if r in seen:
                    continue
                seen.add(r)
                if core.psign(r) not in ("nn", "pos", "zero") or Subst({it: leaf(r)}).d(c) is not FALSE:
                    continue
                core.set_upper(it, r)
                B = Subst({it: dat(it)}).d(c)
                core.set_upper(it, None)
                if B is TRUE:
                    return r, FALSE, None
                if first is None:
                    first = r, d_not(B), None
        if first is not None:
            return first
        # split on loop-invariant decisions
        for v in sorted(c.vars, key=lambda v: v.id):
            if it not in v.deps and not any(self.is_mu(x, L) for x in v.deps):
                if v.vals is not None and self.has_counter(c, it):
                    return None, FALSE, v
        return None, FALSE, None

    def has_counter(self, c, it):
        return any(v.kind == "sgn" and it in v.deps and p_linear(v.arg, it) is not None for v in c.vars)

    def outer_deps(self, lp):
        """atoms of enclosing loops on which this loop instance may depend (as extra arguments)"""
        L = lp.L
        deps = set()
        for ki in lp.keys.values():
            for d in (ki.I, ki.N):
                if d is not None:
                    deps |= d.deps
        if lp.cond is not None:
            deps |= lp.cond.deps
        for d in lp.E.values():
            deps |= d.deps
        deps |= lp.guard.deps
        if lp.trip is not None:
            deps |= lp.trip.deps
        outs = {a for a in deps if (a.kind == "it" and a.args[0] < L)}
        # a value carried round an enclosing loop may be another one in each of its iterations
        ls = [a.args[0] for a in deps if a.kind in ("mu", "phi") and (a.kind == "phi" or a.args[0] < L)]
        if ls:
            last = max([x for x in ls if isinstance(x, int)], default=L)
            outs |= {a for a in self.itstk if a.args[0] < L and (a.args[0] <= last or any(x.kind == "phi" for x in deps))}
        return tuple(patom(a) for a in sorted(outs, key=lambda a: a.id))

    # -------------------------------------------------------------- closed forms
    def resolve_loop(self, lp):
        L, it, trip = lp.L, lp.it, lp.trip
        E_all = FALSE
        for x in lp.E.values():
            E_all = d_or(E_all, x)
        lp.Eall = E_all
        only_exit = all(x is FALSE for n, x in lp.E.items() if n != "exit")
        infer = True
        keys = lp.keys
        pend = [k for k, ki in keys.items() if ki.cls is None]
        res = {k: ki for k, ki in keys.items() if ki.cls is not None}

        def mudeps(d):
            return {a.args[1] for a in d.deps if a.kind == "mu" and a.args[0] == L}

        def resolver():
            pres = {k: ki.pre for k, ki in keys.items() if ki.pre is not None and ki.cls not in (None,)}
            if not pres:
                return None

            def fn(a):
                if a.kind == "mu" and a.args[0] == L and a.args[1] in pres:
                    d = pres[a.args[1]]
                    idx = [leaf(p) for p in a.args[2:]]
                    return self.sub_args(d, idx, True) if idx else d
                return None
            mp = {}
            for k in pres:
                if "[]" not in k[1]:
                    for a in (atom("mu", L, k),):
                        mp[a] = pres[k]
            return Subst(mp, fn, lambda a: a.kind == "mu" and a.args[0] == L and a.args[1] in pres)
        body = TRUE if lp.counted or lp.cond is None else lp.cond
        second = self.depth == 0 and only_exit and (E_all is not FALSE or body is not TRUE)
        lp.order = []
        progress = True
        while pend and progress:
            progress = False
            rs = resolver()
            cur_E = rs.d(E_all) if rs is not None and E_all is not FALSE else E_all
            for k in list(pend):
                ki = keys[k]
                N = rs.d(ki.N) if rs is not None else ki.N
                others = mudeps(N) - {k}
                if others or mudeps(cur_E) - {k}:
                    # a guarded update may still be resolvable when only unrelated parts are pending
                    continue
                r = self.classify(lp, k, ki, N, cur_E)
                if r is None or (second and r[0] == "post"):
                    continue
                ki.cls, ki.F, ki.pre = r
                pend.remove(k)
                lp.order.append(k)
                progress = True
                if ki.pre is not None:
                    break
        # iterations that are followed by another one (or by code after the loop) did not end the program
        progress = second
        while pend and progress:
            progress = False
            rs = resolver()
            go = [d_not(E_all), body, lp.guard]
            go = [g if rs is None else rs.d(g) for g in go]
            for k in list(pend):
                ki = keys[k]
                N = rs.d(ki.N) if rs is not None else ki.N
                for g in go:
                    if g is not TRUE and g.vars & N.vars and len(g.vars) <= 32:
                        N = restrict(N, g)
                if mudeps(N) - {k}:
                    continue
                r = self.classify(lp, k, ki, N, FALSE)
                if r is None or r[0] == "post":
                    continue
                ki.cls, ki.F, ki.pre = r
                pend.remove(k)
                lp.order.append(k)
                progress = True
                if ki.pre is not None:
                    break
        rs = resolver()
        cur_E = rs.d(E_all) if rs is not None and E_all is not FALSE else E_all
        for k in pend:
            ki = keys[k]
            N = rs.d(ki.N) if rs is not None else ki.N
            ki.cls, ki.F, ki.pre = self.post(lp, k, ki, N, cur_E)
        for k, ki in keys.items():
            if ki.cls == "ind":
                if E_all is FALSE or only_exit or lp.forever:
                    ki.F = lp.M[k][1](leaf(trip))
                else:
                    ki.F = self.opaque_after(lp, k, ki, "indexit")
                if lp.forever:
                    ki.F = lp.M[k][1](dat(atom("lastit", L, *self.outer_deps(lp), nn=True)))
            elif lp.forever and ki.cls in ("fresh",):
                last = dat(atom("lastit", L, *self.outer_deps(lp), nn=True))
                ki.F = Subst({it: last}).d(rs.d(ki.N) if rs is not None else ki.N)
        lp.resolver = rs
        if rs is not None and only_exit and not lp.counted and not lp.forever and lp.cond is not None:
            # a condition that is a bound on the counter once the values carried round the loop are known
            t, top, _ = self.find_trip(rs.d(lp.cond), it, L)
            if t is not None and top is FALSE:
                cnt = trip.as_atom()
                for ki in keys.values():
                    if ki.F is not None and cnt in ki.F.deps:
                        ki.F = Subst({cnt: leaf(t)}).d(ki.F)
                lp.trip, lp.tripD, lp.counted = t, leaf(t), True
                core.set_upper(it, t)
        if rs is not None:
            f = rs.d
            lp.events = map_events(lp.events, f)
            lp.Er = {k: f(x) for k, x in lp.E.items()}
        else:
            lp.Er = dict(lp.E)

    def opaque_after(self, lp, key, ki, why):
        n = sum(1 for p in key[1] if p == "[]")
        a = atom("post", lp.L, key, *([patom(ARGS[i]) for i in range(n)] + list(self.outer_deps(lp))))
        return self.tv(self.kind_of(ki.N if ki.N is not None else ki.I), a)

    def covers(self, lp, key, argno):
        """does the loop visit every index of the argno-th array dimension of this key?"""
        n = -1
        for i, p in enumerate(key[1]):
            if p == "[]":
                n += 1
                if n == argno:
                    c = self.st[key[0]].get(key[1][:i] + ("#",))
                    if c is None:
                        return False
                    c = restrict(restrict(c, lp.guard), lp.ctx)
                    return c.is_leaf and isinstance(c.leaf, Poly) and c.leaf is lp.trip
        return False

    def before(self, lp, E, upto):
        """no early exit in the iterations before `upto`"""
        if E is FALSE:
            return TRUE
        t = atom("tmp", "E%d" % lp.L)
        return d_not(mk_exists(t, P0, upto, Subst({lp.it: dat(t)}).d(E)))

    def classify(self, lp, key, ki, N, E):
        L, it, trip = lp.L, lp.it, lp.trip
        I, m = ki.I, ki.m
        has_mu = any(a.kind == "mu" and a.args[0] == L for a in N.deps)
        if N is m:
            return ("same", I, I)
        arr = "[]" in key[1]
        nz = cmp(">", leaf(trip), ZERO, False)
        E_mu = any(a.kind == "mu" and a.args[0] == L for a in E.deps)
        if E_mu:
            return None
        # fresh value in every iteration
        if not has_mu and not arr:
            started = cmp(">", dat(it), ZERO, False)
            if it not in N.deps:
                pre = ite(started, N, I)
                if E is FALSE:
                    return ("const", ite(nz, N, I), pre)
                return ("fresh", self.opaque_after(lp, key, ki, "exit") if not lp.forever else None, pre)
            prev = Subst({it: d_sub(dat(it), ONE)}).d(N)
            # a closed form that gives the initial value at 0 needs no case distinction
            pre = prev if Subst({it: ZERO}).d(prev) is I else ite(started, prev, I)
            if E is FALSE and not lp.forever:
                last = Subst({it: leaf(p_sub(trip, P1))}).d(N)
                return ("fresh", ite(nz, last, I), pre)
            if lp.forever:
                return ("fresh", I, pre)
            # falls through for guarded forms; with early exits the last executed iteration is unknown
            return ("fresh", self.opaque_after(lp, key, ki, "exit"), pre)
        # unique writer per element
        if arr:
            r = self.as_map(lp, key, ki, N, E)
            if r is not None:
                return r
        kind = self.kind_of(N) if self.kind_of(N) != "num" else self.kind_of(m)
        mself = self.mself_atom(L, key)
        if kind == "num":
            r = self.as_sum(lp, key, ki, N, E, mself)
            if r is not None:
                return r
            r = self.as_ext(lp, key, ki, N, E, mself)
            if r is not None:
                return r
        r = self.as_const(lp, key, ki, N, E, mself)
        if r is not None:
            return r
        if not arr and E is FALSE and not lp.forever and self.depth == 0:
            r = self.as_cases(lp, key, ki, N, mself)
            if r is not None:
                return r
        return self.post(lp, key, ki, N, E)

    def as_cases(self, lp, key, ki, N, ms):
        """a scalar that stays the same after the first iteration, or one whose behaviour differs between cases
        that are fixed for the whole loop"""
        L, it, trip = lp.L, lp.it, lp.trip
        m, I = ki.m, ki.I
        if it not in N.deps and all(a is ms or not self.is_mu(a, L) for a in N.deps):
            s1 = self.sub_self(N, ms, I)
            if s1 is not None and self.sub_self(N, ms, s1) is s1:
                started = cmp(">", dat(it), ZERO, False)
                nz = cmp(">", leaf(trip), ZERO, False)
                return ("settled", ite(nz, s1, I), ite(started, s1, I))
        for v in sorted(N.vars, key=lambda v: v.id):
            if v.vals is None or it in v.deps or any(self.is_mu(a, L) for a in v.deps):
                continue
            out = []
            for x in v.vals:
                n = cof(N, v, x)
                k2 = KeyInfo()
                k2.I, k2.N, k2.m = cof(I, v, x), n, m
                r = self.classify(lp, key, k2, n, FALSE)
                if r is None or r[0] == "post" or r[2] is None or r[1] is None:
                    return None
                out.append((x, r))
            return ("cases", node(v, [(x, r[1]) for x, r in out]), node(v, [(x, r[2]) for x, r in out]))
        return None

    def sub_self(self, N, ms, val):
        if not (val.is_leaf and isinstance(val.leaf, Poly)) and self.kind_of(N) != "num":
            return None
        return apply(None, lambda l: Subst({ms: leaf(l)}).d(N), val)

    def mself_atom(self, L, key):
        n = sum(1 for p in key[1] if p == "[]")
        return atom("mu", L, key, *[patom(ARGS[i]) for i in range(n)])

    def uniq_vars(self, N, it, L):
        """decision variables sgn(arg - it - c) with a unique solution for the loop counter"""
        out = []
        for v in sorted(N.vars, key=lambda v: v.id):
            if v.kind != "sgn" or it not in v.deps:
                continue
            lin = p_linear(v.arg, it)
            if lin is None or lin[0] not in (1, -1):
                continue
            a, rest = lin
            if not any(x.kind == "arg" for x in rest.deps) or any(self.is_mu(x, L) for x in rest.deps):
                continue
            sol = p_neg(rest) if a == 1 else rest
            out.append((v, sol))
        return out

    def as_map(self, lp, key, ki, N, E):
        L, it, trip = lp.L, lp.it, lp.trip
        m, I = ki.m, ki.I
        for v, sol in self.uniq_vars(N, it, L):
            if cof(N, v, -1) is not m or cof(N, v, 1) is not m:
                continue
            V = cof(N, v, 0)
            V = Subst({it: leaf(sol)}).d(V)
            for a in V.deps:
                if a.kind == "mu" and a.args[0] == L and a.args[1] == key and any(
                        p is not patom(ARGS[i]) for i, p in enumerate(a.args[2:])):
                    return None
            # untouched before its own iteration
            mp = self.mself_atom(L, key)
            V = Subst({mp: I}).d(V) if mp in V.deps else V
            argno = next((x.args[0] for x in sorted(sol.deps, key=lambda x: x.id) if x.kind == "arg"), None)
            inr = TRUE
            covered = sol.as_atom() is ARGS[argno] and self.covers(lp, key, argno) if argno is not None else False
            if not covered:
                inr = d_and(cmp(">=", leaf(sol), ZERO, False), cmp("<", leaf(sol), leaf(trip), False))
            if E is not FALSE:
                if lp.forever or not lp.counted and False:
                    return None
                inr = d_and(inr, self.before(lp, E, sol))
                # the exiting iteration itself has run (up to its exit): E's own iteration is included
            F = ite(inr, V, I)
            done = cmp("<", leaf(sol), dat(it), False)
            if not covered:
                done = d_and(done, cmp(">=", leaf(sol), ZERO, False))
            pre = ite(done, V, I)
            return ("map", F, pre)
        return None

    def as_sum(self, lp, key, ki, N, E, ms):
        L, it, trip = lp.L, lp.it, lp.trip
        try:
            delta = d_sub(N, dat(ms))
        except Unmodelled:
            return None
        if any(a.kind == "mu" and a.args[0] == L or a.kind in ("tokok", "lineok", "contains", "phi") for a in delta.deps):
            return None
        if E is not FALSE:
            delta = ite(self.before(lp, E, patom(it)), delta, ZERO)
        t = atom("tmp", "S%d" % L)
        t.info = "int"
        body = Subst({it: dat(t)}).d(delta)
        try:
            F = d_add(ki.I, self.sum_over(t, P0, trip, body, lp, key))
            pre = d_add(ki.I, mk_sum(t, P0, patom(it), body))
        except Unmodelled:
            return None
        return ("sum", F, pre)

    def sum_over(self, t, lo, hi, body, lp, key):
        """sum with the elements selected by arg == t taken out"""
        for v, sol in self.uniq_vars(body, t, -1):
            b0, b1, b2 = cof(body, v, 0), cof(body, v, -1), cof(body, v, 1)
            if b1 is not b2:
                continue
            s = Subst({t: leaf(sol)})
            inr = d_and(cmp(">=", leaf(sol), leaf(lo), False), cmp("<", leaf(sol), leaf(hi), False))
            argno = next((x.args[0] for x in sol.deps if x.kind == "arg"), None)
            if sol.as_atom() is ARGS[argno] and self.covers(lp, key, argno):
                inr = TRUE
            one = ite(inr, d_sub(s.d(b0), s.d(b1)), ZERO)
            return d_add(one, self.sum_over(t, lo, hi, b1, lp, key))
        return mk_sum(t, lo, hi, body)

    def as_ext(self, lp, key, ki, N, E, ms):
        L, it, trip = lp.L, lp.it, lp.trip
        mp = patom(ms)
        if E is not FALSE:
            return None
        N = self.at_self(N, L, key, it)
        for kind in ("min", "max"):
            items = self.ext_items(N, ms, kind, L)
            if items is None:
                continue
            # express in (it, guard, value)
            flat = []
            ok = True
            for g, v in items:
                if isinstance(v, tuple):      # nested extremum of an inner loop
                    for (lo, hi, g2, v2, h) in v:
                        flat.append((d_and(g, g2) if False else (g, lo, hi, g2, v2, h)))
                else:
                    flat.append((g, None, None, None, leaf(v), None))
            init = ki.I
            out = []
            for g, lo, hi, g2, v2, h in flat:
                if lo is None:
                    cand = self.elim_single(lp, key, g, v2)
                else:
                    cand = self.elim_nested(lp, key, g, lo, hi, g2, v2, h)
                if cand is None:
                    ok = False
                    break
                out += cand
            if not ok:
                continue
            try:
                F = self.build_ext(kind, init, out)
            except Unmodelled:
                continue
            return ("ext", F, None)
        return None

    def at_self(self, N, L, key, it):
        """N with the old value at index x written as the old value of the element itself where arg == x"""
        old = [a for a in N.deps if a.kind == "mu" and a.args[0] == L and a.args[1] == key]
        if all(p.as_atom() in ARGS for a in old for p in a.args[2:]):
            return N
        for v in sorted(N.vars, key=lambda v: v.id):
            if v.kind != "sgn" or len(v.arg.t) != 2:
                continue
            tm = {m[0][0]: c for m, c in v.arg.t if len(m) == 1 and m[0][1] == 1}
            if len(tm) != 2 or sum(tm.values()) != 0 or abs(next(iter(tm.values()))) != 1:
                continue
            ar = [a for a in tm if a.kind == "arg"]
            ot = [a for a in tm if a.kind != "arg"]
            if len(ar) != 1 or len(ot) != 1 or not any(patom(ot[0]) in a.args[2:] for a in old):
                continue
            mp = {a: dat(atom("mu", L, key, *[patom(ar[0]) if p is patom(ot[0]) else p for p in a.args[2:]])) for a in old}
            mp[ot[0]] = dat(ar[0])
            z = Subst(mp).d(cof(N, v, 0))
            N = case(v, [(x, z if x == 0 else cof(N, v, x)) for x in v.vals])
        return N

    def build_ext(self, kind, init, out):
        singles = [(g, v) for x in out if x[0] == "one" for g, v in [x[1:]]]
        rng = [x[1:] for x in out if x[0] == "rng"]
        F = init
        for g, v in singles:
            F = ite(g, (d_min if kind == "min" else d_max)(F, v), F)
        if rng:
            F = apply(None, lambda i: mk_ext(kind, leaf(as_poly(i)), rng), F)
        return F

    def elim_single(self, lp, key, g, v):
        """item of one loop level"""
        it, trip = lp.it, lp.trip
        for var_, sol in self.uniq_vars(g, it, lp.L):
            if cof(g, var_, -1) is FALSE and cof(g, var_, 1) is FALSE:
                s = Subst({it: leaf(sol)})
                g0 = s.d(cof(g, var_, 0))
                argno = next((x.args[0] for x in sol.deps if x.kind == "arg"), None)
                if not (sol.as_atom() is ARGS[argno] and self.covers(lp, key, argno)):
                    g0 = conj([g0, cmp(">=", leaf(sol), ZERO, False), cmp("<", leaf(sol), leaf(trip), False)])
                return [("one", g0, s.d(v))]
        if any(x.kind == "bv" for x in v.deps | g.deps):
            pass
        t = atom("tmp", "X%d" % lp.L)
        s = Subst({it: dat(t)})
        return [("rng", t, P0, trip, s.d(g), s.d(v))]

    def elim_nested(self, lp, key, g, lo, hi, g2, v2, h):
        """item over an inner range that must be merged with this loop level"""
        it, trip = lp.it, lp.trip
        t = atom("tmp", "Y%d_%d" % (lp.L, h))
        s = Subst({atom("bv", h): dat(t)})
        gg, vv = d_and(g, s.d(g2)), s.d(v2)
        for var_, sol in self.uniq_vars(gg, it, lp.L):
            if cof(gg, var_, -1) is FALSE and cof(gg, var_, 1) is FALSE:
                s2 = Subst({it: leaf(sol)})
                argno = next((x.args[0] for x in sol.deps if x.kind == "arg"), None)
                g0 = s2.d(cof(gg, var_, 0))
                if not (sol.as_atom() is ARGS[argno] and self.covers(lp, key, argno)):
                    g0 = conj([g0, cmp(">=", leaf(sol), ZERO, False), cmp("<", leaf(sol), leaf(trip), False)])
                lo2, hi2 = s2.p(lo), s2.p(hi)
                if not (lo2.is_leaf and hi2.is_leaf):
                    return None
                return [("rng", t, as_poly(lo2.leaf), as_poly(hi2.leaf), g0, s2.d(vv))]
        # arg == neighbour b of it: use the symmetry of the neighbour relation
        for v in sorted(gg.vars, key=lambda v: v.id):
            if v.kind != "sgn" or cof(gg, v, -1) is not FALSE or cof(gg, v, 1) is not FALSE:
                continue
            p = v.arg
            nb = [a for mm, c in p.t for a, e in mm if a.kind == "nbid"]
            if len(nb) != 1 or len(p.t) != 2:
                continue
            nb = nb[0]
            e, i, b = nb.args
            if i.as_atom() is not it or b.as_atom() is not t:
                continue
            other = p_sub(p, patom(nb)) if dict(p.t).get(((nb, 1),)) == 1 else p_add(p, patom(nb))
            other = p_neg(other) if dict(p.t).get(((nb, 1),)) == 1 else other
            if other.as_atom() is None or other.as_atom().kind != "arg":
                continue
            if lo is not P0 or hi.as_atom() is None or hi.as_atom().kind != "nbsize":
                continue
            # i := nb(e, arg, t), nb(e, i, t) := arg
            g0 = cof(gg, v, 0)
            tm = atom("tmp", "Z%d" % lp.L)
            s3 = Subst({nb: leaf(other)})
            newi = dat(atom("nbid", e, other, patom(t), nn=True))
            s4 = Subst({it: newi})
            r_g = s4.d(self.swapdist(s3.d(g0), it, t, e, other))
            r_v = s4.d(self.swapdist(s3.d(vv), it, t, e, other))
            bad = atom("nbid", e, as_poly(newi.leaf), patom(t), nn=True)
            if bad in r_g.deps or bad in r_v.deps:
                return None
            size = patom(atom("nbsize", e, other, nn=True))
            return [("rng", t, P0, size, r_g, r_v)]
        return None

    def swapdist(self, d, it, t, e, other):
        return d

    def ext_items(self, N, ms, kind, L):
        """N == fold of kind over (guard, value) applied to the old value ms, or None"""
        mpoly = patom(ms)
        items = []
        covered = FALSE
        # nested extrema and direct candidates
        for c, l in leaf_conds(N):
            if l is mpoly:
                continue
            if not isinstance(l, Poly):
                return None
            a = l.as_atom()
            if a is not None and a.kind == "ext" and a.args[0] == kind and a.args[1] is mpoly:
                its = a.args[2]
                if any(ms in x[2].deps or ms in x[3].deps for x in its):
                    return None
                items.append((c, its))
                continue
            if ms in l.deps:
                return None
            items.append((c, l))
        R = dat(ms)
        # the guard of a direct candidate: c already contains the comparison with the old value; generalise it
        out = []
        for g, v in items:
            if isinstance(v, tuple):
                if any(self.is_mu(a, L) for a in g.deps):
                    return None
                out.append((g, v))
                R = ite(g, dat(atom("ext", kind, mpoly, v)), R)
                continue
            w = None
            for vv in N.vars:
                if vv.kind == "sgn":
                    p = vv.arg
                    q = p_sub(mpoly, v)
                    if p_eq_scaled(p, q):
                        w = vv
                        break
            if w is None:
                return None
            # side on which the candidate replaces the old value
            pos = p_scale_sign(w.arg, p_sub(mpoly, v))   # +1: var = m - v, -1: var = v - m
            repl = 1 if (kind == "min") == (pos > 0) else -1
            side = cof(N, w, repl)
            gg = apply(None, lambda l, v=v: TRUE if l is v else FALSE, side)
            if any(self.is_mu(a, L) for a in gg.deps):
                # other comparisons with the old value inside: only one level supported
                return None
            out.append((gg, v))
            cmpm = node_cmp(w, repl)
            R = ite(d_and(gg, cmpm), leaf(v), R)
        # ties: compare away from equality
        if R is N:
            return out
        ties = {vv for vv in N.vars | R.vars if vv.kind == "sgn" and ms in vv.deps}
        if detie(N, ties) is not detie(R, ties):
            return None
        if not any(vv.kind == "sgn" and ms in vv.deps for vv in N.vars):
            return None
        return out

    def as_const(self, lp, key, ki, N, E, ms):
        """conditional assignment of one constant (flags)"""
        L, it, trip = lp.L, lp.it, lp.trip
        cands = []
        for l in leaves_of(N):
            if isinstance(l, (bool, En, Str)) or isinstance(l, Poly) or isinstance(l, (RefV, Opq)):
                if getattr(l, "deps", EMPTY) and (any(self.is_mu(a, L) for a in l.deps) or it in l.deps):
                    continue
                cands.append(l)
        for c in cands:
            G = self.change_cond(N, ki, leaf(c), ms, L)
            if G is None:
                continue
            if E is not FALSE:
                if G is E:
                    pass
                elif implies(G, E) and len([1 for x in lp.E.values() if x is not FALSE]) == 1:
                    G = d_and(G, self.before(lp, E, patom(it)))
                else:
                    G = d_and(G, self.before(lp, E, patom(it)))
            t = atom("tmp", "C%d" % L)
            s = Subst({it: dat(t)})
            ex = self.exists_over(lp, key, G)
            pre = mk_exists(t, P0, patom(it), s.d(G))
            return ("flag", ite(ex, leaf(c), ki.I), ite(pre, leaf(c), ki.I))
        return None

    def exists_over(self, lp, key, G):
        it, trip = lp.it, lp.trip
        for v, sol in self.uniq_vars(G, it, lp.L):
            g0, g1, g2 = cof(G, v, 0), cof(G, v, -1), cof(G, v, 1)
            if g1 is not g2:
                continue
            s = Subst({it: leaf(sol)})
            inr = d_and(cmp(">=", leaf(sol), ZERO, False), cmp("<", leaf(sol), leaf(trip), False))
            argno = next((x.args[0] for x in sol.deps if x.kind == "arg"), None)
            if sol.as_atom() is ARGS[argno] and self.covers(lp, key, argno):
                inr = TRUE
            return d_or(d_and(inr, s.d(g0)), self.exists_over(lp, key, g1))
        t = atom("tmp", "C%d" % lp.L)
        return mk_exists(t, P0, trip, Subst({it: dat(t)}).d(G))

    def change_cond(self, N, ki, c, ms, L):
        """G with N == ite(G, c, old) and G free of this loop's values, or None"""
        m = ki.m
        vals = [v for v in N.vars | m.vars if v.arg is ms and v.kind in ("b", "e")]
        if vals:
            v = vals[0]
            G = None
            if v.kind == "b":
                n1, n0 = cof(N, v, 1), cof(N, v, 0)
                cl = c.leaf
                if cl is True:
                    if n1 is not TRUE:
                        return None
                    G = n0
                elif cl is False:
                    if n0 is not FALSE:
                        return None
                    G = d_not(n1)
                else:
                    return None
                if any(self.is_mu(a, L) for a in G.deps):
                    return None
                return G
            for x in v.vals:
                nx = cof(N, v, x)
                if isinstance(c.leaf, En) and c.leaf.v == x:
                    if nx is not c:
                        return None
                    continue
                old = leaf(En(ms.info[1], x))
                g = apply(None, lambda l, c=c, o=old: TRUE if l is c.leaf else FALSE if l is o.leaf else leaf(None), nx)
                if any(l is None for l in leaves_of(g)):
                    return None
                if G is None:
                    G = g
                elif G is not g:
                    return None
            if G is None or any(self.is_mu(a, L) for a in G.deps):
                return None
            return G
        if not m.is_leaf:
            return None
        g = apply(None, lambda l: TRUE if l is c.leaf else FALSE if l is m.leaf else leaf(None), N)
        if any(l is None for l in leaves_of(g)):
            return None
        if any(self.is_mu(a, L) for a in g.deps):
            return None
        return g

    def post(self, lp, key, ki, N, E):
        """opaque result, but only where some iteration may have changed it"""
        L, it, trip = lp.L, lp.it, lp.trip
        ms = self.mself_atom(L, key)
        G = self.may_change(N, ki.m, ms, L)
        ki.G = G
        P = self.opaque_after(lp, key, ki, "post")
        try:
            ex = self.exists_over(lp, key, G)
        except Unmodelled:
            ex = TRUE
        if any(a.kind in ("mu",) and a.args[0] == L for a in ex.deps) or it in ex.deps:
            ex = TRUE
        if any(a.kind in ("contains", "lineok", "tokok", "phi") for a in ex.deps):
            ex = TRUE
        F = ite(ex, P, ki.I)
        return ("post", F, None)

    def may_change(self, N, m, ms, L):
        vals = [v for v in N.vars | m.vars if v.arg is ms and v.kind in ("b", "e")]
        if vals:
            v = vals[0]
            G = FALSE
            for x in v.vals:
                nx = cof(N, v, x)
                old = cof(m, v, x)
                G = d_or(G, apply(None, lambda l, o: FALSE if l is o else TRUE, nx, old))
        else:
            G = apply(None, lambda l, o: FALSE if l is o else TRUE, N, m)
        # decisions on this loop's own values: assume either outcome
        for v in sorted(G.vars, key=lambda v: v.id):
            if any(self.is_mu(a, L) for a in v.deps) and v in G.vars:
                G = exist_var(G, v)
        return G

    def finish_liveness(self, lp, L0, fr):
        E, it, trip = lp.Er, lp.it, lp.trip
        L = lp.L
        self.live = L0
        if lp.forever:
            last = dat(atom("lastit", L, *self.outer_deps(lp), nn=True))
            s = Subst({it: last})

            def at(x):
                x = s.d(x)
                return self.deopaque(x, L, as_poly(last.leaf).as_atom())
            lp.last = last
            r = at(E["ret"])
            fr.ret = d_or(fr.ret, d_and(L0, r)) if E["ret"] is not FALSE else fr.ret
            if E["throw"] is not FALSE and self.tries:
                self.tries[-1].caught = d_or(self.tries[-1].caught, d_and(L0, at(E["throw"])))
            self.live = d_and(L0, at(E["brk"])) if E["brk"] is not FALSE else FALSE
            return
        X = d_or(d_or(E["ret"], E["throw"]), E["exit"])
        if X is FALSE:
            return
        Eall = d_or(X, E["brk"])
        multi = len([1 for x in E.values() if x is not FALSE]) > 1

        def ex(C):
            if C is FALSE:
                return FALSE
            C = self.deopaque(C, L, it)
            g = C
            if multi:
                g = d_and(C, self.before(lp, self.deopaque(Eall, L, it), patom(it)))
            t = atom("tmp", "L%d" % L)
            return mk_exists(t, P0, trip, Subst({it: dat(t)}).d(g))
        if E["ret"] is not FALSE:
            r = ex(E["ret"])
            fr.ret = d_or(fr.ret, d_and(L0, r))
        if E["throw"] is not FALSE:
            self.tries[-1].caught = d_or(self.tries[-1].caught, d_and(L0, ex(E["throw"])))
        if multi and E["brk"] is not FALSE:
            dead = d_or(ex(E["ret"]), d_or(ex(E["throw"]), ex(E["exit"])))
        else:
            dead = ex(X)
        self.live = d_and(L0, d_not(dead))

    def deopaque(self, x, L, it):
        """replace decisions on unresolved values of loop L by an opaque decision"""
        bad = [v for v in x.vars if any(self.is_mu(a, L) for a in v.deps)]
        if not bad:
            return x
        for v in sorted(bad, key=lambda v: v.id):
            outs = [patom(a) for a in sorted(set(a for a in v.deps if a.kind == "it") | set(self.itstk) | {it}, key=lambda a: a.id)]
            if v.vals is None:
                x = exist_var(x, v)
                continue
            if len(v.vals) == 2 or v.kind == "sgn":
                kids = [cof(x, v, y) for y in v.vals]
                r = kids[-1]
                for i, k in enumerate(kids[:-1]):
                    r = ite(bvar(_mkb(atom("undec", L, v.id, i, *outs))), k, r)
                x = r
            else:
                x = exist_var(x, v)
        return x


def _mkb(a):
    a.info = "bool"
    return a


def node_lit(v, x):
    return node(v, [(y, TRUE if y == x else FALSE) for y in v.vals])


def node_cmp(v, x):
    return node(v, [(y, TRUE if y == x else FALSE) for y in v.vals])


def exist_var(G, v):
    r = FALSE
    if v.vals is not None:
        for x in v.vals:
            r = d_or(r, cof(G, v, x))
        return r
    xs = set()

    def scan(n, seen):
        if n.id in seen or n.is_leaf:
            return
        seen.add(n.id)
        if n.var is v:
            for x, _ in n.kids:
                xs.add(x)
        for _, k in n.kids:
            scan(k, seen)
        if n.dflt is not None:
            scan(n.dflt, seen)
    scan(G, set())
    for x in xs:
        r = d_or(r, cof(G, v, x))
    return d_or(r, cof(G, v, None))


def detie(n, vs):
    """n with the case 0 of the given sign variables identified with the case -1"""
    memo = {}

    def rec(x):
        if x.is_leaf or not (x.vars & vs):
            return x
        r = memo.get(x.id)
        if r is None:
            kids = [(y, rec(k)) for y, k in x.kids]
            if x.var in vs:
                d = dict(kids)
                kids = [(-1, d[-1]), (0, d[-1]), (1, d[1])]
            df = rec(x.dflt) if x.dflt is not None else None
            r = memo[x.id] = core.case(x.var, kids, df)
        return r
    return rec(n)


def p_prim(p):
    """(sign, primitive part) up to positive factors, None when a factor of unknown sign is involved"""
    c, cm, q = core.p_content(p)
    s = 1 if c > 0 else -1
    for a, e in cm:
        if e % 2 and not a.pos:
            return None
    f = q.t[0][1]
    if f != 1:
        q = core.p_scale(q, 1 / f)
        if f < 0:
            s = -s
    return s, q


def p_eq_scaled(p, q):
    """p equals q up to a factor of known sign"""
    if not p.t or not q.t:
        return False
    x, y = p_prim(p), p_prim(q)
    return x is not None and y is not None and x[1] is y[1]


def p_scale_sign(p, q):
    return p_prim(p)[0] * p_prim(q)[0]


def ceil_atom(p):
    if is_integral(p):
        return p
    a = atom("ceil", p)
    a.info = "int"
    return patom(a)


def floor_atom(p):
    if is_integral(p):
        return p
    a = atom("floor", p)
    a.info = "int"
    return patom(a)


def eigen_dim(ty):
    """number of components of a fixed-size Eigen matrix/array, 'dyn' for dynamic vectors, else None"""
    if ty is None or ty.c != "rec" or ty.n not in ("Eigen::Matrix", "Eigen::Array"):
        return None
    el = ty.el
    if len(el) >= 3 and isinstance(el[1], int) and isinstance(el[2], int):
        if el[1] < 0 or el[2] < 0:
            return "dyn"
        return el[1] * el[2]
    return None
