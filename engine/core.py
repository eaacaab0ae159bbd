"""Canonical value domain of the value-flow analysis.

A value is a multi-valued decision diagram (class D).  Its decision variables (class Var) are abstract
predicates over program quantities (sign of a polynomial, an opaque boolean, the value of an enumeration or
of a string); its leaves are constants, rational expressions (Poly: Laurent polynomials over interned atoms),
strings (Str), references, or opaque constants.  All objects are interned, so equality of canonical forms is
identity.  Nothing here enumerates program paths or calls a solver.
"""
from fractions import Fraction
import sys
import time
sys.setrecursionlimit(60000)

F0, F1 = Fraction(0), Fraction(1)


# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "args", "id", "deps", "h", "nn", "pos", "info")
    table = {}
    count = 0

    def __repr__(self):
        return show_atom(self)


def _deps_of(x, acc):
    if isinstance(x, Atom):
        acc.append(x.deps)
    elif isinstance(x, (Poly, D, Var, Str, RefV)):
        acc.append(x.deps)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _deps_of(y, acc)


EMPTY = frozenset()
LEAFY = {"it", "bv", "arg", "mu", "cur", "sym", "last", "tmp"}
NONNEG = {"size", "sqrt", "abs", "nbsize", "len", "tell"}


BINDERS = {"sum", "sumopq", "ext", "exq"}


def _binder_deps(kind, args):
    """dependencies of an atom with a bound variable: everything that occurs freely"""
    if kind in ("sum", "sumopq"):
        items = [((args[0], args[1]), args[2:4], args[4])]
    elif kind == "exq":
        items = [((args[0], args[1]), (args[2],), args[3])]
    else:
        items = [((lo, hi), (g, v), h) for lo, hi, g, v, h in args[2]]
    acc = []
    if kind == "ext":
        _deps_of(args[:2], acc)
    for out, ins, h in items:
        _deps_of(out, acc)
        x = []
        _deps_of(ins, x)
        if x:
            acc.append(frozenset().union(*x) - {atom("bv", h)})
    return acc


def atom(kind, *args, nn=None, pos=None):
    key = (kind,) + args
    a = Atom.table.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.args = kind, args
    Atom.count += 1
    a.id = Atom.count
    acc = []
    for x in args:
        _deps_of(x, acc)
    if kind in BINDERS:
        acc = _binder_deps(kind, args)
    deps = frozenset().union(*acc) if acc else EMPTY
    if kind not in ("opq",) or not deps:
        deps = deps | {a}
    a.deps = deps
    h = 0
    for d in deps:
        if d.kind == "bv" and d is not a:
            h = max(h, d.args[0])
    a.h = args[0] if kind == "bv" else h
    a.nn = (kind in NONNEG) if nn is None else nn
    a.pos = bool(pos)
    if a.pos:
        a.nn = True
    a.info = None
    Atom.table[key] = a
    return a


# ----------------------------------------------------------------------------- polynomials
class Poly:
    """Laurent polynomial: immutable mapping monomial -> Fraction; monomial = tuple of (Atom, exponent)"""
    __slots__ = ("t", "_h", "_deps", "id")
    table = {}

    def __new__(cls, terms):
        t = tuple(sorted(((m, c) for m, c in terms.items() if c != 0), key=lambda mc: mono_key(mc[0])))
        k = tuple((tuple((a.id, e) for a, e in m), c) for m, c in t)
        p = cls.table.get(k)
        if p is None:
            p = object.__new__(cls)
            p.t = t
            p._h = hash(k)
            p._deps = None
            p.id = len(cls.table) + 1
            cls.table[k] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @property
    def deps(self):
        if self._deps is None:
            s = set()
            for m, c in self.t:
                for a, e in m:
                    s |= a.deps
            self._deps = frozenset(s)
        return self._deps

    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return F0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def d(self):
        return dict(self.t)

    def __repr__(self):
        return show_poly(self)

    def single(self):
        """(coeff, mono) when a single term"""
        return self.t[0] if len(self.t) == 1 else None

    def as_atom(self):
        if len(self.t) == 1:
            m, c = self.t[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


def mono_key(m):
    return tuple((a.id, e) for a, e in m)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def pconst(c):
    c = Fraction(c)
    return Poly({(): c})


P0, P1 = pconst(0), pconst(1)


def patom(a):
    return Poly({((a, 1),): F1})


def _has_pow(m):
    for a, e in m:
        if a.kind == "sqrt" and (e >= 2 or e <= -2):
            return True
        if a.kind == "abs" and (e >= 2 or e <= -2):
            return True
        if a.kind == "poly" and e > 0:
            return True
    return False


def _expand(terms):
    """rewrite sqrt(p)^2 -> p, abs(p)^2 -> p^2, (poly p)^+n -> p^n"""
    out = {}
    work = list(terms.items())
    while work:
        m, c = work.pop()
        if c == 0:
            continue
        for a, e in m:
            if a.kind == "sqrt" and e >= 2:
                rest = dict(m)
                rest[a] = e - 2
                if rest[a] == 0:
                    del rest[a]
                r = tuple(sorted(rest.items(), key=lambda x: x[0].id))
                for m2, c2 in a.args[0].t:
                    work.append((mono_mul(r, m2), c * c2))
                break
            if a.kind == "sqrt" and e <= -2:
                rest = dict(m)
                rest[a] = e + 2
                if rest[a] == 0:
                    del rest[a]
                r = tuple(sorted(rest.items(), key=lambda x: x[0].id))
                for m2, c2 in p_inv(a.args[0]).t:
                    work.append((mono_mul(r, m2), c * c2))
                break
            if a.kind == "abs" and e >= 2:
                rest = dict(m)
                rest[a] = e - 2
                if rest[a] == 0:
                    del rest[a]
                r = tuple(sorted(rest.items(), key=lambda x: x[0].id))
                for m2, c2 in p_mul(a.args[0], a.args[0]).t:
                    work.append((mono_mul(r, m2), c * c2))
                break
            if a.kind == "poly" and e > 0:
                rest = dict(m)
                rest[a] = e - 1
                if rest[a] == 0:
                    del rest[a]
                r = tuple(sorted(rest.items(), key=lambda x: x[0].id))
                for m2, c2 in a.args[0].t:
                    work.append((mono_mul(r, m2), c * c2))
                break
        else:
            out[m] = out.get(m, F0) + c
    return out


def mkpoly(terms):
    if any(_has_pow(m) for m in terms):
        terms = _expand(terms)
    return Poly(terms)


def p_add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, F0) + c
    return Poly(d)


def p_neg(a):
    return Poly({m: -c for m, c in a.t})


def p_sub(a, b):
    return p_add(a, p_neg(b))


_mulmemo = {}


def p_mul(a, b):
    if a is P1:
        return b
    if b is P1:
        return a
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulmemo.get(k)
    if r is None:
        d = {}
        for m, c in a.t:
            for m2, c2 in b.t:
                mm = mono_mul(m, m2)
                d[mm] = d.get(mm, F0) + c * c2
        r = _mulmemo[k] = mkpoly(d)
    return r


def p_scale(a, c):
    return Poly({m: c * x for m, x in a.t})


def mono_inv(m):
    return tuple((a, -e) for a, e in m)


def p_content(p):
    """split p = c * mono * q, q primitive (leading coefficient 1, no common monomial)"""
    if not p.t:
        return F1, (), p
    lead = p.t[0][1]
    common = None
    for m, c in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            nc = {}
            for a in set(common) | set(d):
                e = min(common.get(a, 0), d.get(a, 0))
                if e != 0:
                    nc[a] = e
            common = nc
    cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
    inv = mono_inv(cm)
    q = Poly({mono_mul(m, inv): c / lead for m, c in p.t})
    return lead, cm, q


def p_inv(p):
    if not p.t:
        return patom(atom("divzero"))
    if len(p.t) == 1:
        m, c = p.t[0]
        return mkpoly({mono_inv(m): 1 / c})
    p = norm_sums(p)
    if len(p.t) <= 1:
        return p_inv(p)
    c, m, q = p_content(p)
    if len(q.t) == 1:
        return mkpoly({mono_inv(m): 1 / c})
    a = atom("poly", q)
    return mkpoly({mono_mul(mono_inv(m), ((a, -1),)): 1 / c})


def p_div(a, b):
    return p_mul(a, p_inv(b))


def p_zero(p):
    """decide p == 0 modulo denominators, square roots and linear sums"""
    if not p.t:
        return True
    for _ in range(6):
        den = {}
        for m, c in p.t:
            for a, e in m:
                if e < 0 and a.kind == "poly":
                    den[a] = max(den.get(a, 0), -e)
        if not den:
            break
        for a, e in den.items():
            for _i in range(e):
                # multiply every term by the polynomial: a^-k becomes a^-(k-1)
                d = {}
                for m, c in p.t:
                    dm = dict(m)
                    k = dm.get(a, 0)
                    if k < 0:
                        if k == -1:
                            del dm[a]
                        else:
                            dm[a] = k + 1
                        mm = tuple(sorted(dm.items(), key=lambda x: x[0].id))
                        d[mm] = d.get(mm, F0) + c
                    else:
                        for m2, c2 in a.args[0].t:
                            mm = mono_mul(m, m2)
                            d[mm] = d.get(mm, F0) + c * c2
                p = mkpoly(d)
                if not p.t:
                    return True
    # clear negative powers so that sqrt^-1 * ... normalises
    neg = {}
    for m, c in p.t:
        for a, e in m:
            if e < 0 and a.kind in ("sqrt", "abs"):
                neg[a] = max(neg.get(a, 0), -e)
    if neg:
        mm = tuple(sorted(neg.items(), key=lambda x: x[0].id))
        p = mkpoly(_expand({mono_mul(m, mm): c for m, c in p.t}))
        if not p.t:
            return True
        if any(e < 0 and a.kind == "poly" for m, c in p.t for a, e in m):
            return p_zero(p)
    q = norm_sums(p)
    return not q.t


def p_eq(a, b):
    return a is b or p_zero(p_sub(a, b))


def _open_sum(a):
    """(mono, q) of a sum atom with its bound variable renamed to a common name, or None"""
    lo, hi, mono, q, h = a.args
    t = atom("tmp", "opensum")
    s = Subst({_bv_of(a): dat(t)})
    m2 = s.p(Poly({mono: F1})) if mono else ONE
    if not m2.is_leaf or m2.leaf.single() is None:
        return None
    mm, cc = m2.leaf.single()
    return mm, d_scale(s.d(q), cc)


def norm_sums(p):
    """add up linear occurrences of sums that run over the same range with the same summand"""
    groups = {}
    rest = {}
    n = 0
    for m, c in p.t:
        sa = None
        for a, e in m:
            if a.kind == "sum" and e == 1:
                sa = a
                break
        if sa is None:
            rest[m] = rest.get(m, F0) + c
            continue
        n += 1
        r = tuple((a, e) for a, e in m if a is not sa)
        groups.setdefault((r, sa.args[0], sa.args[1]), []).append((c, sa))
    if n < 2 or all(len(v) < 2 for v in groups.values()):
        return p
    out = Poly(rest)
    changed = False
    for (r, lo, hi), lst in groups.items():
        if len(lst) == 1:
            out = p_add(out, mkpoly({mono_mul(r, ((lst[0][1], 1),)): lst[0][0]}))
            continue
        sub = {}
        for c, sa in lst:
            o = _open_sum(sa)
            if o is None:
                out = p_add(out, mkpoly({mono_mul(r, ((sa, 1),)): c}))
            else:
                sub.setdefault(o[0], []).append((c, sa, o[1]))
        for mono, items in sub.items():
            if len(items) == 1:
                c, sa, q = items[0]
                out = p_add(out, mkpoly({mono_mul(r, ((sa, 1),)): c}))
                continue
            changed = True
            tot = ZERO
            for c, sa, q in items:
                tot = d_add(tot, d_scale(q, c))
            if tot is ZERO:
                continue
            t = atom("tmp", "opensum")
            closed = _close_sum(t, lo, hi, mono, tot)
            out = p_add(out, p_mul(Poly({r: F1}), closed))
    return out if changed else p


def _close_sum(t, lo, hi, mono, q):
    """sum over t = lo .. hi-1 of mono * q (every decision variable of q that does not depend on t stays inside)"""
    deps = q.deps.union(*[a.deps for a, e in mono]) if mono else q.deps
    if t not in deps and q.is_leaf:
        return p_mul(p_scale(p_sub(hi, lo), first_coeff(q)), Poly({mono: F1}))
    h = max_h(deps | lo.deps | hi.deps) + 1
    s = Subst({t: dat(atom("bv", h))})
    m2 = s.p(Poly({mono: F1}))
    mm, cc = m2.leaf.single()
    return _sum_term(lo, hi, mm, d_scale(s.d(q), cc), h)


def _sum_term(lo, hi, mono, q, h):
    s = first_coeff(q)
    qn = d_scale(q, 1 / s)
    if not mono and qn.is_leaf:
        return p_scale(p_sub(hi, lo), s)
    return mkpoly({((atom("sum", lo, hi, mono, qn, h), 1),): s})


def first_coeff(q):
    for l in leaves_of(q):
        c = l.const()
        if c != 0:
            return c
    return F1


# ----------------------------------------------------------------------------- strings, references
class Str:
    __slots__ = ("parts", "_h", "deps")
    table = {}

    def __new__(cls, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        k = tuple(p if isinstance(p, str) else ("#", p.id) for p in out)
        s = cls.table.get(k)
        if s is None:
            s = object.__new__(cls)
            s.parts = tuple(out)
            s._h = hash(k)
            acc = [p.deps for p in out if not isinstance(p, str)]
            s.deps = frozenset().union(*acc) if acc else EMPTY
            cls.table[k] = s
        return s

    def __hash__(self):
        return self._h

    def const(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return "\"" + "".join(p if isinstance(p, str) else "{%s}" % p for p in self.parts) + "\""


class RefV:
    """a pointer/iterator value: kind ('ptr'|'it'|'end'|'fn'|'lam'), root, path (tuple of steps; index steps hold D)"""
    __slots__ = ("kind", "root", "path", "extra", "_h", "deps", "id")
    table = {}

    def __new__(cls, kind, root, path=(), extra=None):
        k = (kind, root, tuple(x if not isinstance(x, D) else ("#", x.id) for x in path), extra if not isinstance(extra, D) else ("#", extra.id))
        r = cls.table.get(k)
        if r is None:
            r = object.__new__(cls)
            r.kind, r.root, r.path, r.extra = kind, root, path, extra
            r._h = hash(k)
            acc = [x.deps for x in path if isinstance(x, D)]
            if isinstance(extra, D):
                acc.append(extra.deps)
            r.deps = frozenset().union(*acc) if acc else EMPTY
            r.id = len(cls.table)
            cls.table[k] = r
        return r

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "&%s:%s%s%s" % (self.kind, self.root, "".join("[%s]" % x if isinstance(x, D) else "." + str(x) for x in self.path),
                               "+%s" % self.extra if self.extra is not None else "")


class Opq:
    """opaque constant leaf"""
    __slots__ = ("n",)
    table = {}

    def __new__(cls, n):
        o = cls.table.get(n)
        if o is None:
            o = object.__new__(cls)
            o.n = n
            cls.table[n] = o
        return o

    @property
    def deps(self):
        return EMPTY

    def __repr__(self):
        return "<%s>" % (self.n,)


class En:
    """enumerator constant"""
    __slots__ = ("e", "v")
    table = {}
    deps = EMPTY

    def __new__(cls, e, v):
        k = (e, int(v))
        o = cls.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.e, o.v = k
            cls.table[k] = o
        return o

    def __repr__(self):
        return "%s:%d" % (self.e, self.v)


NULL = Opq("null")
VOID = Opq("void")


# ----------------------------------------------------------------------------- decision variables
class Var:
    __slots__ = ("kind", "key", "vals", "id", "deps", "arg")
    table = {}

    def __repr__(self):
        if self.kind == "sgn":
            return "sgn(%s)" % (self.arg,)
        return "%s" % (self.arg,)


def var(kind, arg, vals):
    key = (kind, arg, len(vals) if kind == "sgn" else 0)
    v = Var.table.get(key)
    if v is None:
        v = Var()
        v.kind, v.arg, v.vals = kind, arg, vals
        v.id = len(Var.table) + 1
        v.deps = arg.deps
        v.key = key
        Var.table[key] = v
    return v


class D:
    """decision diagram node. leaf: var None. kids: tuple of (value, D); dflt: D or None (open domains)"""
    __slots__ = ("var", "leaf", "kids", "dflt", "id", "_deps", "_vars")
    table = {}
    n = 0

    @property
    def is_leaf(self):
        return self.var is None

    @property
    def deps(self):
        if self._deps is None:
            if self.var is None:
                self._deps = getattr(self.leaf, "deps", EMPTY)
            else:
                s = set(self.var.deps)
                for v, k in self.kids:
                    s |= k.deps
                if self.dflt is not None:
                    s |= self.dflt.deps
                self._deps = frozenset(s)
        return self._deps

    @property
    def vars(self):
        if self._vars is None:
            if self.var is None:
                self._vars = EMPTY
            else:
                s = {self.var}
                for v, k in self.kids:
                    s |= k.vars
                if self.dflt is not None:
                    s |= self.dflt.vars
                self._vars = frozenset(s)
        return self._vars

    def __repr__(self):
        return show(self)


def leaf(x):
    key = ("L", type(x).__name__, x if not isinstance(x, bool) else ("b", x))
    n = D.table.get(key)
    if n is None:
        n = object.__new__(D)
        n.var, n.leaf, n.kids, n.dflt = None, x, None, None
        D.n += 1
        n.id = D.n
        n._deps = n._vars = None
        D.table[key] = n
        if not D.n & 4095 and DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            raise TooLarge("the values of the program do not stay small enough to be tracked")
    return n


DEADLINE = [None]


class TooLarge(Exception):
    """the analysis of a phase exceeds its time"""


_contmemo = {}
_rootmemo = {}


def solve_for_atom(p):
    """(atom, value) with p = 0, for an atom that occurs in p once, linearly, with a constant coefficient"""
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            rest = p_sub(p, p_scale(patom(a), c))
            if a in rest.deps:
                continue
            if a.kind in ("it", "bv", "arg"):
                continue
            return a, leaf(p_scale(rest, F1 / -c))
    return None


def root_at_zero(p, a):
    """(a, value) with p = 0, for a square root whose argument is a multiple of p plus one term"""
    r = _rootmemo.get((p, a), 0)
    if r == 0:
        r = None
        q = a.args[0]
        if isinstance(q, Poly) and 2 <= len(p.t) <= 12 and len(q.t) <= 14:
            ks = {}
            for mp, cp in p.t:
                inv = tuple((x, -e) for x, e in mp)
                for mq, cq in q.t:
                    k = (mono_mul(mq, inv), cq / cp)
                    ks[k] = ks.get(k, 0) + 1
            for k, n in ks.items():
                if n >= len(q.t) - 1 and n >= len(p.t) - 1:
                    rest = p_sub(q, p_mul(p, Poly({k[0]: k[1]})))
                    if len(rest.t) == 1:
                        v = d_sqrt(leaf(rest))
                        if a not in v.deps:
                            r = (a, v)
                            break
        _rootmemo[(p, a)] = r
    return r


def only_in_values(a, *ds):
    """a occurs in the numbers of ds, and in none of their decisions"""
    return any(a in d.deps for d in ds) and not any(a in v.deps for d in ds for v in d.vars)


def continuous(n):
    """n with, at each sign, the value for zero replaced by the formula of one side (the negative one first) where the
    two agree at zero: `x >= r ? 0 : r/x - 1` and `x > r ? 0 : r/x - 1` are one function and get one form"""
    if n.is_leaf:
        return n
    r = _contmemo.get(n.id)
    if r is not None:
        return r
    kids = [(x, continuous(k)) for x, k in n.kids]
    v = n.var
    if v.kind == "sgn" and n.dflt is None and len(kids) == 3:
        k = dict(kids)
        B = k[0]
        ss = [solve_for_atom(v.arg)] if len(v.arg.t) <= 8 else []
        ss += [root_at_zero(v.arg, a) for a in sorted(B.deps | k[-1].deps | k[1].deps, key=lambda a: a.id) if a.kind == "sqrt"]
        done = False
        for X in (k[-1], k[1]):
            for y in ss:
                if X is B or (y is not None and only_in_values(y[0], X, B)
                              and Subst({y[0]: y[1]}).d(X) is Subst({y[0]: y[1]}).d(B)):
                    kids = [(x, X if x == 0 else d) for x, d in kids]
                    done = True
                    break
            if done:
                break
    r = node(v, kids, continuous(n.dflt) if n.dflt is not None else None)
    _contmemo[n.id] = r
    return r


def node(v, kids, dflt=None):
    """kids: list of (value, D); all tops of kids must be ordered after v"""
    if dflt is None:
        f = kids[0][1]
        if all(k is f for _, k in kids):
            return f
    else:
        kids = [(x, k) for x, k in kids if k is not dflt]
        if not kids:
            return dflt
    kids = tuple(sorted(kids, key=lambda x: (str(type(x[0])), x[0])))
    key = (v.id, tuple((x, k.id) for x, k in kids), dflt.id if dflt is not None else None)
    n = D.table.get(key)
    if n is None:
        n = object.__new__(D)
        n.var, n.leaf, n.kids, n.dflt = v, None, kids, dflt
        D.n += 1
        n.id = D.n
        n._deps = n._vars = None
        D.table[key] = n
    return n


TRUE, FALSE = leaf(True), leaf(False)
ZERO, ONE = leaf(P0), leaf(P1)


def kid(n, v, x):
    """cofactor of n for top variable v = x"""
    if n.var is not v:
        return n
    for y, k in n.kids:
        if y == x:
            return k
    return n.dflt


def dflt_of(n, v):
    return n if n.var is not v else n.dflt


_applymemo = {}


def apply(name, op, *ns):
    """op(leaves...) -> D ; name: memo key or None"""
    memo = _applymemo.setdefault(name, {}) if name is not None else {}

    def rec(ns):
        k = tuple(n.id for n in ns)
        r = memo.get(k)
        if r is not None:
            return r
        top = None
        for n in ns:
            if n.var is not None and (top is None or n.var.id < top.id):
                top = n.var
        if top is None:
            r = op(*[n.leaf for n in ns])
        else:
            if top.vals is not None:
                kids = [(x, rec(tuple(kid(n, top, x) for n in ns))) for x in top.vals]
                d = None
            else:
                xs = []
                for n in ns:
                    if n.var is top:
                        for x, _ in n.kids:
                            if x not in xs:
                                xs.append(x)
                kids = [(x, rec(tuple(kid(n, top, x) for n in ns))) for x in xs]
                d = rec(tuple(dflt_of(n, top) for n in ns))
            r = case(top, kids, d)
        memo[k] = r
        return r
    return rec(tuple(ns))


_casememo = {}


def case(v, kids, dflt=None):
    """general composition: value of v selects a kid; kids may test variables ordered before v"""
    allk = [k for _, k in kids] + ([dflt] if dflt is not None else [])
    f = allk[0]
    if all(k is f for k in allk):
        return f
    top = None
    for k in allk:
        if k.var is not None and k.var.id <= v.id and (top is None or k.var.id < top.id):
            top = k.var
    if top is None:
        return node(v, kids, dflt)
    key = (v.id, tuple((x, k.id) for x, k in kids), dflt.id if dflt is not None else None)
    r = _casememo.get(key)
    if r is not None:
        return r
    if top is v:
        # kids that test v themselves
        nk = [(x, kid(k, v, x)) for x, k in kids]
        nd = dflt
        if dflt is not None and dflt.var is v:
            have = {x for x, _ in kids}
            nk += [(x, k) for x, k in dflt.kids if x not in have]
            nd = dflt.dflt
        r = case(v, nk, nd)
    elif top.vals is not None:
        r = node(top, [(x, case(v, [(y, kid(k, top, x)) for y, k in kids], None if dflt is None else kid(dflt, top, x)))
                       for x in top.vals])
    else:
        xs = []
        for k in allk:
            if k.var is top:
                for x, _ in k.kids:
                    if x not in xs:
                        xs.append(x)
        r = node(top, [(x, case(v, [(y, kid(k, top, x)) for y, k in kids], None if dflt is None else kid(dflt, top, x))) for x in xs],
                 case(v, [(y, dflt_of(k, top)) for y, k in kids], None if dflt is None else dflt_of(dflt, top)))
    _casememo[key] = r
    return r


_itememo = {}
WORK = [None]        # remaining steps of a simplification that may be given up
_heavy = set()


class OverBudget(Exception):
    pass


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    key = (c.id, a.id, b.id)
    r = _itememo.get(key)
    if r is not None:
        return r
    if WORK[0] is not None:
        WORK[0] -= 1
        if WORK[0] < 0:
            raise OverBudget()
    top = c.var
    for n in (a, b):
        if n.var is not None and n.var.id < top.id:
            top = n.var
    ns = (c, a, b)
    if top.vals is not None:
        r = node(top, [(x, ite(kid(c, top, x), kid(a, top, x), kid(b, top, x))) for x in top.vals])
    else:
        xs = []
        for n in ns:
            if n.var is top:
                for x, _ in n.kids:
                    if x not in xs:
                        xs.append(x)
        r = node(top, [(x, ite(kid(c, top, x), kid(a, top, x), kid(b, top, x))) for x in xs],
                 ite(dflt_of(c, top), dflt_of(a, top), dflt_of(b, top)))
    _itememo[key] = r
    return r


def d_and(a, b):
    return ite(a, b, FALSE)


def d_or(a, b):
    return ite(a, TRUE, b)


def d_not(a):
    return ite(a, FALSE, TRUE)


def conj(xs):
    r = TRUE
    for x in xs:
        r = d_and(r, x)
    return r


def implies(a, b):
    return d_and(a, d_not(b)) is FALSE


_restrictmemo = {}


def restrict(f, care):
    """simplify f where care holds (generalised cofactor)"""
    if care is TRUE or f.is_leaf:
        return f
    if care is FALSE:
        return f
    memo = _restrictmemo

    def rec(f, c):
        if c is TRUE or f.is_leaf or c is FALSE:
            return f
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        if c.var.id < f.var.id:
            # quantify out the care variable
            u = FALSE
            for x, kk in c.kids:
                u = d_or(u, kk)
            if c.dflt is not None:
                u = d_or(u, c.dflt)
            r = rec(f, u)
        else:
            v = f.var
            vals = list(v.vals) if v.vals is not None else [x for x, _ in f.kids]
            if v.vals is None and c.var is v:
                vals += [x for x, _ in c.kids if x not in vals]
            live = []
            for x in vals:
                ck = kid(c, v, x)
                if ck is not FALSE:
                    live.append((x, rec(kid(f, v, x), ck)))
            dl = None
            if v.vals is None:
                ck = dflt_of(c, v)
                if ck is not FALSE:
                    dl = rec(dflt_of(f, v), ck)
            if not live and dl is None:
                r = f
            elif v.vals is None:
                dd = dl if dl is not None else live[0][1]
                r = case(v, live, dd)
            else:
                fill = live[0][1]
                have = {x for x, _ in live}
                r = case(v, live + [(x, fill) for x in v.vals if x not in have])
        memo[k] = r
        return r
    # the simplification is optional: give it up when the care set is too entangled
    if WORK[0] is not None:
        return rec(f, care)
    WORK[0] = 1000 if care.id in _heavy else 60000
    try:
        return rec(f, care)
    except OverBudget:
        _heavy.add(care.id)
        return f
    finally:
        WORK[0] = None


def nsize(d, limit):
    """number of nodes of d, counted up to limit"""
    seen, st = {d.id}, [d]
    while st and len(seen) < limit:
        x = st.pop()
        if x.var is None:
            continue
        for y in [k for _, k in x.kids] + ([x.dflt] if x.dflt is not None else []):
            if y.id not in seen:
                seen.add(y.id)
                st.append(y)
    return len(seen)


def leaves_of(n):
    seen, out, st = set(), [], [n]
    ids = set()
    while st:
        x = st.pop()
        if x.id in ids:
            continue
        ids.add(x.id)
        if x.var is None:
            out.append(x.leaf)
        else:
            if x.dflt is not None:
                st.append(x.dflt)
            for _, k in reversed(x.kids):
                st.append(k)
    return out


def leaf_conds(n):
    """list of (condition, leaf) for the distinct leaves"""
    out = []
    for l in leaves_of(n):
        ll = leaf(l)
        out.append((apply(None, lambda x, l=l: TRUE if x is l else FALSE, n), l))
    return out


# ----------------------------------------------------------------------------- numeric operations on D
def num(c):
    return leaf(pconst(c))


def dat(a):
    return leaf(patom(a))


class Finding(Exception):
    """a violation of property pid found while the program was being analysed"""

    def __init__(self, pid, name, where, detail):
        Exception.__init__(self, "%s: %s (%s)" % (name, detail, where))
        self.pid, self.name, self.where, self.detail = pid, name, where, detail


class Unmodelled(Exception):
    pass


class Endless(Unmodelled):
    """a loop over known contents that has not ended after thousands of rounds"""


def as_poly(x):
    if isinstance(x, Poly):
        return x
    if x is True:
        return P1
    if x is False:
        return P0
    if isinstance(x, En):
        return pconst(x.v)
    if isinstance(x, Str):
        return patom(atom("strnum", x))
    if isinstance(x, RefV):
        return patom(atom("refnum", x))
    if isinstance(x, Opq):
        return patom(atom("opqnum", x.n))
    raise Unmodelled("not a number: %r" % (x,))


def d_add(a, b):
    return apply("add", lambda x, y: leaf(p_add(as_poly(x), as_poly(y))), a, b)


def d_sub(a, b):
    return apply("sub", lambda x, y: leaf(p_sub(as_poly(x), as_poly(y))), a, b)


def d_mul(a, b):
    return apply("mul", lambda x, y: leaf(p_mul(as_poly(x), as_poly(y))), a, b)


def d_div(a, b):
    return apply("div", lambda x, y: leaf(p_div(as_poly(x), as_poly(y))), a, b)


def d_neg(a):
    return apply("neg", lambda x: leaf(p_neg(as_poly(x))), a)


def d_scale(a, c):
    return apply(("scale", c), lambda x: leaf(p_scale(x, c)), a)


def d_sqrt(a):
    def f(x):
        x = norm_sums(as_poly(x))
        c = x.const()
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return num(Fraction(n, d))
        s = x.single()
        if s is not None:
            m, c = s
            if all(e % 2 == 0 for a_, e in m) and c > 0:
                import math
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    r = ONE
                    for a_, e in m:
                        base = dat(a_) if a_.nn else d_abs(dat(a_))
                        for _ in range(abs(e) // 2):
                            r = d_mul(r, base) if e > 0 else d_div(r, base)
                    return d_mul(r, num(Fraction(n, d)))
        # pull out squares of nonnegative factors
        return dat(atom("sqrt", x))
    return apply("sqrt", f, a)


def d_abs(a):
    def f(x):
        x = as_poly(x)
        c = x.const()
        if c is not None:
            return num(abs(c))
        s = psign(x)
        if s in ("pos", "nn", "zero"):
            return leaf(x)
        if s in ("neg", "np"):
            return leaf(p_neg(x))
        cc, m, q = p_content(x)
        if cc < 0:
            x = p_neg(x)
        return dat(atom("abs", x))
    return apply("abs", f, a)


def psign(p):
    """'pos','nn','neg','np','zero' or None from the declared signs of atoms"""
    if not p.t:
        return "zero"
    c = p.const()
    if c is not None:
        return "pos" if c > 0 else "neg"
    allnn = allnp = True
    strict = False
    for m, c in p.t:
        st = True
        for a, e in m:
            if e % 2 == 0:
                if not a.pos:
                    st = False
            elif a.pos:
                pass
            elif a.nn:
                st = False
            elif a.kind == "poly":
                s = psign(a.args[0])
                if s != "pos":
                    allnn = allnp = False
                    break
            else:
                allnn = allnp = False
                break
        if c > 0:
            allnp = False
        else:
            allnn = False
        strict = strict or st
        if not allnn and not allnp:
            return None
    if allnn:
        return "pos" if strict else "nn"
    if allnp:
        return "neg" if strict else "np"
    return None


NANMODE = [False]
SGN = (-1, 0, 1)
SGNN = (-1, 0, 1, 2)  # 2: unordered (not-a-number)


def sgn_case(p, neg, zero, pos, isfloat=True, unord=None):
    """D that is neg/zero/pos according to the sign of the rational expression p"""
    p = as_poly(p)
    p = norm_sums(p)
    c = p.const()
    if c is not None:
        return neg if c < 0 else zero if c == 0 else pos
    if p_zero(p):
        return zero
    nan = NANMODE[0] and isfloat and unord is not None
    s = psign(p)
    if not nan:
        if s == "pos":
            return pos
        if s == "neg":
            return neg
    if len(p.t) >= 2 and not nan:
        ks = known_sign(p)
        if ks == "nn":
            neg = zero
        elif ks == "np":
            pos = zero
        elif ks is not None:
            return neg if ks == "neg" else pos
    # divide by known-positive common factors, make the leading coefficient 1
    lead, cm, q = p_content(p)
    flip = lead < 0
    keep = []
    for a, e in cm:
        if a.pos or (a.kind == "poly" and psign(a.args[0]) == "pos"):
            continue
        if e % 2 == 0:
            e = 2
        else:
            e = 1
        keep.append((a, e))
    p = p_mul(q, Poly({tuple(keep): F1}))
    # clear positive polynomial denominators
    if not nan:
        for _ in range(4):
            den = [a for m, c in p.t for a, e in m if e < 0 and a.kind == "poly" and psign(a.args[0]) == "pos"]
            if not den:
                break
            p = p_mul(p, den[0].args[0])
            p = mkpoly(_clear(p, den[0]))
    # sqrt(Q) - R with R >= 0 known   <=>  Q - R^2
    if not nan:
        p0, p = p, _unsqrt(p)
        if p is not p0 and p.const() is None:
            lead, cm, q = p_content(p)
            keep = []
            for a, e in cm:
                if a.pos or (a.kind == "poly" and psign(a.args[0]) == "pos"):
                    continue
                keep.append((a, 2 if e % 2 == 0 else 1))
            p = p_mul(q, Poly({tuple(keep): F1 if lead > 0 else -F1}))
    c = p.const()
    if c is not None:
        n2 = neg if not flip else pos
        p2 = pos if not flip else neg
        return n2 if c < 0 else zero if c == 0 else p2
    if len(p.t) > 1 or True:
        l2, _, _ = p_content(p)
        if l2 < 0:
            p = p_neg(p)
            flip = not flip
        if abs(l2) != 1:
            p = p_scale(p, 1 / abs(l2))
    if flip:
        neg, pos = pos, neg
    s = psign(p) if not nan else None
    if s == "nn":
        neg = zero
    elif s == "np":
        pos = zero
    elif s == "pos":
        return pos
    elif s == "neg":
        return neg
    if _never_zero(p):
        zero = pos if s is None else (pos if s == "nn" else neg)
    if NANMODE[0] and isfloat:
        v = var("sgn", p, SGNN)
        return case(v, [(-1, neg), (0, zero), (1, pos), (2, unord if unord is not None else zero)])
    v = var("sgn", p, SGN)
    return case(v, [(-1, neg), (0, zero), (1, pos)])


def _clear(p, a):
    d = {}
    for m, c in p.t:
        d[m] = d.get(m, F0) + c
    return d


def _unsqrt(p):
    if len(p.t) < 2:
        return p
    sq = [(m, c) for m, c in p.t if any(a.kind == "sqrt" and e == 1 for a, e in m)]
    if len(sq) != 1:
        return p
    m, c = sq[0]
    orig = p
    if any(not (a.nn or a.pos) and e % 2 for a, e in m):
        return p
    rest = Poly({m2: c2 for m2, c2 in p.t if m2 != m})
    s = psign(rest)
    if c < 0:
        p = p_neg(p)
        c = -c
        rest = p_neg(rest)
        s = psign(rest)
        sign = -1
    else:
        sign = 1
    if s in ("neg", "np"):
        a = Poly({m: c})
        r = p_sub(p_mul(a, a), p_mul(rest, rest))
        return r if sign == 1 else p_neg(r)
    return orig


def _never_zero(p):
    """index inequalities known by construction: a neighbour is never the particle itself"""
    if len(p.t) == 2:
        (m1, c1), (m2, c2) = p.t
        if c1 == -c2 and len(m1) == 1 and len(m2) == 1:
            a, b = m1[0][0], m2[0][0]
            return nbpair(a, b) or nbpair(b, a)
    return False


UPPER = {}   # atom -> exclusive upper bound (Poly) of an integer-valued atom
NBSIZE = {}  # epoch -> number of particles (Poly)


def set_upper(a, p):
    """declare a < p (None: forget); results memoised under other facts are dropped"""
    if UPPER.get(a) is p:
        return
    if p is None:
        UPPER.pop(a, None)
    else:
        UPPER[a] = p
    for k in list(_applymemo):
        n = k[0] if isinstance(k, tuple) else k
        if n in ("cmp", "max", "min", "abs", "trunc", "sqrt"):
            del _applymemo[k]


def upper(a):
    u = UPPER.get(a)
    if u is None and a.kind == "nbid":
        u = NBSIZE.get(a.args[0])
    return u


def known_sign(p):
    """sign of an integer difference that follows from the range of a loop counter or a neighbour index"""
    weak = None
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            u = upper(a)
            if u is None:
                continue
            # a <= u - 1: the bound of p that follows
            b = p_add(p, p_scale(p_sub(p_sub(u, P1), patom(a)), c))
            s = psign(b)
            if c > 0 and s == "neg" or c < 0 and s == "pos":
                return s
            if c > 0 and s in ("np", "zero"):
                weak = "np"
            if c < 0 and s in ("nn", "zero"):
                weak = "nn"
    return weak


def nbpair(a, b):
    """a = the id of a neighbour of b"""
    return a.kind == "nbid" and a.args[1].as_atom() is b


def cmp(op, a, b, isfloat=True):
    T, Fa = TRUE, FALSE
    tab = {"<": (T, Fa, Fa, Fa), "<=": (T, T, Fa, Fa), ">": (Fa, Fa, T, Fa), ">=": (Fa, T, T, Fa), "==": (Fa, T, Fa, Fa),
           "!=": (T, Fa, T, T)}[op]

    def f(x, y):
        x, y = as_poly(x), as_poly(y)
        p = p_sub(x, y)
        if not isfloat:
            # integers: p < 0 with p = q - 1 and q >= 0 means q == 0
            d = dict(p.t)
            c = d.get((), F0)
            if c == -1:
                q = p_add(p, P1)
                if psign(q) == "nn":
                    if op == "<":
                        return sgn_case(q, Fa, T, Fa, False)
                    if op == ">=":
                        return sgn_case(q, Fa, Fa, T, False)
            if c == 1:
                q = p_sub(P1, p)
                if psign(q) == "nn":
                    if op == ">":
                        return sgn_case(q, Fa, T, Fa, False)
                    if op == "<=":
                        return sgn_case(q, Fa, Fa, T, False)
            if len(d) > 1 and all(cc.denominator == 1 for cc in d.values()) and c != 0 and op in ("<", ">", "<=", ">="):
                # canonical strictness for integers: prefer the form with the smaller constant
                q = {m: cc for m, cc in d.items() if m != ()}
                lead = sorted(q.items(), key=lambda mc: mono_key(mc[0]))[0][1]
                pp, oo = (p, op) if lead > 0 else (p_neg(p), {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op])
                # pp = L + c oo 0 ; use strict forms: L + c <= 0 -> L + c - 1 < 0 ; L + c >= 0 -> L + c + 1 > 0 ; L+c>0 -> not (L+c-1<0)
                if oo == "<=":
                    return sgn_case(p_sub(pp, P1), T, Fa, Fa, False)
                if oo == ">":
                    return sgn_case(p_sub(pp, P1), Fa, T, T, False)
                if oo == "<":
                    return sgn_case(pp, T, Fa, Fa, False)
                if oo == ">=":
                    return sgn_case(pp, Fa, T, T, False)
        return sgn_case(p, tab[0], tab[1], tab[2], isfloat, tab[3])
    return apply(("cmp", op, isfloat, NANMODE[0]), f, a, b)


def d_max(a, b):
    # ties return either: canonical choice
    def f(x, y):
        x, y = as_poly(x), as_poly(y)
        lx, ly = leaf(x), leaf(y)
        z = lx if x.id < y.id else ly
        return sgn_case(p_sub(x, y), ly, z, lx)
    return apply("max", f, a, b)


def d_min(a, b):
    def f(x, y):
        x, y = as_poly(x), as_poly(y)
        lx, ly = leaf(x), leaf(y)
        z = lx if x.id < y.id else ly
        return sgn_case(p_sub(x, y), lx, z, ly)
    return apply("min", f, a, b)


def bvar(a):
    """opaque boolean"""
    return node(var("b", a, (0, 1)), [(0, FALSE), (1, TRUE)])


ENUMVALS = {}


EXCLUDE = None   # hook: enumerators an opaque enumeration value cannot take


def evar(a, name):
    """opaque enumeration value: every leaf is the constant of one enumerator"""
    vals = ENUMVALS[name]
    if EXCLUDE is not None:
        vals = EXCLUDE(a, name, vals)
        if len(vals) == 1:
            return leaf(En(name, vals[0]))
    if a.info is None:
        a.info = ("enum", name)
    return node(var("e", a, vals), [(v, leaf(En(name, v))) for v in vals])


def streq(a, b):
    def f(x, y):
        if isinstance(x, Str) and isinstance(y, Str):
            cx, cy = x.const(), y.const()
            if x is y:
                return TRUE
            if cx is not None and cy is not None:
                return TRUE if cx == cy else FALSE
            if cx is not None:
                x, y, cx, cy = y, x, cy, cx
            if cy is not None:
                # strip common literal prefix/suffix
                px, lit = list(x.parts), cy
                while px and isinstance(px[0], str):
                    if not lit.startswith(px[0]):
                        return FALSE
                    lit = lit[len(px[0]):]
                    px = px[1:]
                while px and isinstance(px[-1], str):
                    if not lit.endswith(px[-1]):
                        return FALSE
                    lit = lit[:-len(px[-1])]
                    px = px[:-1]
                x = Str(px)
                if len(px) == 1 and px[0].kind == "otherword" and lit in px[0].args[1]:
                    return FALSE
                return node(var("s", x, None), [(lit, TRUE)], FALSE)
            k = sorted([x, y], key=lambda s: repr(s))
            return bvar(atom("streq", k[0], k[1]))
        return bvar(atom("eqopq", x, y))
    return apply("streq", f, a, b)


# ----------------------------------------------------------------------------- substitution
class Subst:
    """replace atoms inside values; mapping Atom -> D (scalar)"""

    def __init__(self, mp, fn=None, pred=None):
        self.mp = mp
        self.keys = frozenset(mp)
        self.fn = fn      # optional: atom -> D or None (called on rebuilt atoms)
        self.pred = pred  # optional: atom -> bool, which atoms fn may change
        self.m = {}
        self.hm = {}

    def hit(self, deps):
        if not self.keys.isdisjoint(deps):
            return True
        if self.fn is None:
            return False
        if self.pred is None:
            return True
        r = self.hm.get(deps)
        if r is None:
            p = self.pred
            r = self.hm[deps] = any(p(a) for a in deps)
        return r

    def d(self, n):
        if not self.hit(n.deps):
            return n
        r = self.m.get(("d", n.id))
        if r is None:
            if n.is_leaf:
                r = self.leaf(n.leaf)
            else:
                kids = [(x, self.d(k)) for x, k in n.kids]
                df = self.d(n.dflt) if n.dflt is not None else None
                r = self.var(n.var, kids, df)
            self.m[("d", n.id)] = r
        return r

    def var(self, v, kids, df):
        if not self.hit(v.deps):
            return case(v, kids, df)
        if v.kind == "sgn":
            k = dict(kids)
            p = self.p(v.arg)
            return apply(None, lambda x: sgn_case(x, k[-1], k[0], k[1], True, k.get(2)), p)
        if v.kind == "b":
            k = dict(kids)
            return ite(self.batom(v.arg), k[1], k[0])
        if v.kind == "e":
            e = self.eatom(v.arg, v.vals)
            k = dict(kids)

            # choose by leaf constants; enumerators the old atom could not take are don't-cares
            out = None
            for cond, l in leaf_conds(e):
                if isinstance(l, En):
                    c = l.v
                else:
                    c = as_poly(l).const()
                    if c is None:
                        raise Unmodelled("enum substitution")
                kk = k.get(int(c))
                if kk is None:
                    continue
                out = kk if out is None else ite(cond, kk, out)
            if out is None:
                raise Unmodelled("enum substitution")
            return out
        if v.kind == "s":
            s = self.leaf(v.arg)

            def f(x):
                if isinstance(x, Str):
                    c = x.const()
                    if c is not None:
                        for y, kk in kids:
                            if y == c:
                                return kk
                        return df
                    return case(var("s", x, None), kids, df)
                raise Unmodelled("string substitution")
            return apply(None, f, s)
        raise Unmodelled("var " + v.kind)

    def batom(self, a):
        r = self.mp.get(a)
        if r is not None:
            return r
        if not self.hit(a.deps):
            return bvar(a)
        nm = self.rebuild(a)
        if isinstance(nm, Atom):
            if self.fn is not None:
                r = self.fn(nm)
                if r is not None:
                    return r
            return bvar(nm)
        return nm

    def eatom(self, a, vals):
        r = self.mp.get(a)
        if r is not None:
            return r
        if not self.hit(a.deps):
            return evar(a, a.info[1])
        nm = self.rebuild(a)
        if isinstance(nm, Atom):
            if self.fn is not None:
                r = self.fn(nm)
                if r is not None:
                    return r
            return evar(nm, a.info[1])
        # rebuilt as conditional: list of (cond, atom)
        return nm

    def leaf(self, x):
        if isinstance(x, Poly):
            return self.p(x)
        if isinstance(x, Str):
            out = leaf(Str(()))
            for part in x.parts:
                pd = leaf(Str((part,))) if isinstance(part, str) else self.satom(part)
                out = apply(None, lambda u, w: leaf(Str(u.parts + w.parts)), out, pd)
            return out
        if isinstance(x, RefV):
            path = tuple(self.d(s) if isinstance(s, D) else s for s in x.path)
            ex = self.d(x.extra) if isinstance(x.extra, D) else x.extra
            return leaf(RefV(x.kind, x.root, path, ex))
        return leaf(x)

    def satom(self, a):
        r = self.mp.get(a)
        if r is not None:
            return r
        if not self.hit(a.deps):
            return leaf(Str((a,)))
        n = self.rebuild(a)
        if isinstance(n, Atom):
            if self.fn is not None:
                r = self.fn(n)
                if r is not None:
                    return r
            return leaf(Str((n,)))
        return n

    def p(self, p):
        """Poly -> D"""
        if not self.hit(p.deps):
            return leaf(p)
        r = self.m.get(("p", p.id))
        if r is not None:
            return r
        out = ZERO
        for m, c in p.t:
            term = num(c)
            for a, e in m:
                v = self.a(a)
                if e > 0:
                    for _ in range(e):
                        term = d_mul(term, v)
                else:
                    for _ in range(-e):
                        term = d_div(term, v)
            out = d_add(out, term)
        self.m[("p", p.id)] = out
        return out

    def a(self, a):
        """numeric atom -> D"""
        r = self.mp.get(a)
        if r is not None:
            return r
        if not self.hit(a.deps):
            return dat(a)
        r = self.m.get(("a", a.id))
        if r is None:
            n = self.rebuild(a)
            if isinstance(n, Atom):
                r = None
                if self.fn is not None:
                    r = self.fn(n)
                if r is None:
                    r = dat(n)
            else:
                r = n
            self.m[("a", a.id)] = r
        return r

    def scalarargs(self, args):
        """substitute inside argument tuple; returns list of alternatives (cond, args)"""
        alts = [(TRUE, ())]
        for x in args:
            if isinstance(x, Poly):
                d = self.p(x)
                opts = leaf_conds(d) if not d.is_leaf else [(TRUE, d.leaf)]
                opts = [(c, as_poly(l)) for c, l in opts]
            elif isinstance(x, D):
                opts = [(TRUE, self.d(x))]
            elif isinstance(x, Atom):
                d = self.a(x)
                y = d.leaf.as_atom() if d.is_leaf and isinstance(d.leaf, Poly) else None
                if y is None:
                    opts = [(TRUE, d)]
                else:
                    opts = [(TRUE, y)]
            elif isinstance(x, (Str, RefV)):
                d = self.leaf(x)
                opts = leaf_conds(d) if not d.is_leaf else [(TRUE, d.leaf)]
            elif isinstance(x, tuple):
                opts = self.scalarargs(x)
            else:
                opts = [(TRUE, x)]
            if len(opts) == 1 and opts[0][0] is TRUE:
                alts = [(c, t + (opts[0][1],)) for c, t in alts]
            else:
                alts = [(cc, t + (o,)) for c, t in alts for oc, o in opts for cc in [d_and(c, oc)] if cc is not FALSE]
        return alts

    def rebuild(self, a):
        k = a.kind
        if k in ("it", "bv", "arg", "tmp"):
            return a
        if k == "sqrt":
            return d_sqrt(self.p(a.args[0]))
        if k == "abs":
            return d_abs(self.p(a.args[0]))
        if k == "poly":
            return self.p(a.args[0])
        if k == "trunc":
            return d_trunc(self.p(a.args[0]))
        if k == "sumopq":
            lo, hi, m2, q, h = a.args
            t = atom("tmp", "s%d" % a.id)
            s = Subst({atom("bv", h): dat(t)})
            body = self.d(d_mul(s.d(q), s.d(m2)))
            return apply(None, lambda l, h: mk_sum(t, as_poly(l), as_poly(h), body), self.p(lo), self.p(hi))
        if k == "sum":
            lo, hi, mono, q, h = a.args
            bv = atom("bv", h)
            t = atom("tmp", "s%d" % a.id)
            s = Subst({bv: dat(t)})
            body = d_mul(s.d(q), s.p(Poly({mono: F1})))
            body = self.d(body)
            return apply(None, lambda l, h: mk_sum(t, as_poly(l), as_poly(h), body), self.p(lo), self.p(hi))
        if k == "ext":
            kind, init, items = a.args
            its = []
            for (lo, hi, g, v, h) in items:
                bv = atom("bv", h)
                t = atom("tmp", "x%d_%d" % (a.id, h))
                s = Subst({bv: dat(t)})
                its.append((t, self.p(lo), self.p(hi), self.d(s.d(g)), self.d(s.d(v))))
            return mk_ext(kind, self.p(init) if init is not None else None, its)
        if k == "exq":
            lo, hi, g, h = a.args
            t = atom("tmp", "e%d" % a.id)
            s = Subst({atom("bv", h): dat(t)})
            g2 = self.d(s.d(g))
            return apply(None, lambda l, h2: mk_exists(t, as_poly(l), as_poly(h2), g2), self.p(lo), self.p(hi))
        alts = self.scalarargs(a.args)
        h = REBUILD.get(k)
        if len(alts) == 1:
            n = atom(k, *alts[0][1], nn=a.nn, pos=a.pos)
            if n.info is None:
                n.info = a.info
            if h is not None:
                r = h(n)
                if r is not None:
                    return r
            return n
        out = None
        for c, args in reversed(alts):
            n = atom(k, *args, nn=a.nn, pos=a.pos)
            if n.info is None:
                n.info = a.info
            v = h(n) if h is not None else None
            if v is None:
                v = self.wrap(n, a)
            out = v if out is None else ite(c, v, out)
        return out

    def wrap(self, n, a):
        t = WRAP.get(a.kind)
        if t is not None:
            return t(n)
        ki = a.info
        if isinstance(ki, tuple) and ki and ki[0] == "enum":
            return evar(n, ki[1])
        if ki == "bool":
            return bvar(n)
        if ki == "str":
            return leaf(Str((n,)))
        return dat(n)


WRAP = {}
# simplification of rebuilt atoms by kind: atom -> D or None
REBUILD = {"toenum": lambda a: leaf(En(a.args[0], int(a.args[1].const()))) if isinstance(a.args[1], Poly) and a.args[1].const() is not None else None}


def _bv_of(a):
    """bound variable of a sum atom"""
    return atom("bv", a.args[4])


def subst(n, mp):
    if not mp:
        return n
    return Subst(mp).d(n)


# ----------------------------------------------------------------------------- reductions
def split_mono(m, it):
    dep, ind = [], []
    for a, e in m:
        (dep if it in a.deps else ind).append((a, e))
    return tuple(dep), tuple(ind)


def max_h(deps):
    h = 0
    for d in deps:
        if d.kind == "bv":
            h = max(h, d.args[0])
    return h


def mk_sum(it, lo, hi, body):
    """sum of body over it = lo .. hi-1 ; body D over numbers; returns D"""
    if body is ZERO or lo is hi:
        return ZERO
    if it not in body.deps:
        return d_mul(body, leaf(p_sub(hi, lo)))
    for v in sorted(body.vars, key=lambda v: v.id):
        if it not in v.deps:
            return _lift(v, body, lambda b: mk_sum(it, lo, hi, b))
    # all decision variables depend on `it`
    body = continuous(body)
    if it not in body.deps:
        return d_mul(body, leaf(p_sub(hi, lo)))
    keys = {}
    for l in leaves_of(body):
        for m, c in as_poly(l).t:
            dep, ind = split_mono(m, it)
            keys.setdefault((dep, ind), None)
    out = P0
    for dep, ind in keys:
        def coef(l):
            d = F0
            for m, c in as_poly(l).t:
                if split_mono(m, it) == (dep, ind):
                    d += c
            return num(d)
        q = apply(None, coef, body)
        if q is ZERO:
            continue
        deps = q.deps.union(*[a.deps for a, e in dep]) if dep else q.deps
        if it not in deps:
            cnt = p_scale(p_sub(hi, lo), first_coeff(q))
            out = p_add(out, p_mul(Poly({ind: F1}), cnt))
            continue
        h = max_h(deps | lo.deps | hi.deps) + 1
        s = Subst({it: dat(atom("bv", h))})
        q2 = s.d(q)
        m2 = s.p(Poly({dep: F1}))
        if m2.is_leaf and m2.leaf.single() is not None:
            mm, cc = m2.leaf.single()
            term = _sum_term(lo, hi, mm, d_scale(q2, cc), h)
        else:
            # renaming changed the shape: keep as opaque product
            term = patom(atom("sumopq", lo, hi, m2, q2, h))
        out = p_add(out, p_mul(Poly({ind: F1}), term))
    return leaf(norm_sums(out))


def _lift(v, body, f):
    if v.vals is not None:
        return case(v, [(x, f(cof(body, v, x))) for x in v.vals])
    xs = set()
    st, seen = [body], set()
    while st:
        n = st.pop()
        if n.id in seen or n.is_leaf:
            continue
        seen.add(n.id)
        if n.var is v:
            xs |= {x for x, _ in n.kids}
        st += [k for _, k in n.kids] + ([n.dflt] if n.dflt is not None else [])
    return case(v, [(x, f(cof(body, v, x))) for x in sorted(xs)], f(cof(body, v, None)))


_cofmemo = {}


def cof(n, v, x):
    """cofactor for any variable (x None = none of the listed values, open domains)"""
    if n.is_leaf or n.var.id > v.id or v not in n.vars:
        return n
    key = (n.id, v.id, x)
    r = _cofmemo.get(key)
    if r is None:
        if n.var is v:
            if x is None:
                r = n.dflt
            else:
                r = kid(n, v, x)
        else:
            r = node(n.var, [(y, cof(k, v, x)) for y, k in n.kids], cof(n.dflt, v, x) if n.dflt is not None else None)
        _cofmemo[key] = r
    return r


def mk_ext(kind, init, items):
    """max/min over items (it, lo, hi, guard, value) and init (D or None)"""
    its = []
    for (it, lo, hi, g, v) in items:
        lo, hi = _leafp(lo), _leafp(hi)
        if g is FALSE or lo is hi:
            continue
        v = restrict(v, g)
        for c, l in ([(TRUE, v.leaf)] if v.is_leaf else leaf_conds(v)):
            gc = d_and(g, c)
            if gc is FALSE:
                continue
            vl = leaf(l)
            h = max_h(gc.deps | vl.deps | lo.deps | hi.deps) + 1
            s = Subst({it: dat(atom("bv", h))})
            its.append((lo, hi, s.d(gc), s.d(vl), h))
    # merge equal ranges and values
    merged = {}
    for lo, hi, g, v, h in its:
        k = (lo, hi, v, h)
        merged[k] = d_or(merged[k], g) if k in merged else g
    # liftable guards are kept inside: canonical enough
    final = tuple(sorted(((lo, hi, g, v, h) for (lo, hi, v, h), g in merged.items()), key=lambda x: (x[0].id, x[1].id, x[3].id, x[4])))
    if not final:
        return init if init is not None else dat(atom("noext"))

    def build(final, init):
        # lift decision variables of guards that do not depend on the bound variable
        for (lo, hi, g, v, h) in final:
            bvs = atom("bv", h)
            for vv in sorted(g.vars, key=lambda v: v.id):
                if bvs not in vv.deps:
                    def sub(x):
                        f2 = tuple((lo2, hi2, cof(g2, vv, x), v2, h2) for lo2, hi2, g2, v2, h2 in final)
                        f2 = tuple(i for i in f2 if i[2] is not FALSE)
                        return build(f2, init) if f2 else (init if init is not None else dat(atom("noext")))
                    if vv.vals is not None:
                        return case(vv, [(x, sub(x)) for x in vv.vals])
        if init is None:
            return dat(atom("ext", kind, None, final))
        return apply(None, lambda x: dat(atom("ext", kind, as_poly(x), final)), init)
    return build(final, init)


def _leafp(d):
    if isinstance(d, Poly):
        return d
    if d.is_leaf:
        return as_poly(d.leaf)
    raise Unmodelled("conditional loop bound")


def p_linear(p, a):
    """(coefficient, rest) when p = coefficient * a + rest with a occurring nowhere else"""
    c = None
    rest = {}
    for m, k in p.t:
        has = [x for x, e in m if a in x.deps]
        if not has:
            rest[m] = k
            continue
        if len(m) == 1 and m[0] == (a, 1):
            c = k
            continue
        return None
    if c is None:
        return None
    return c, Poly(rest)


def mk_exists(it, lo, hi, g):
    if g is FALSE or lo is hi:
        return FALSE
    if it not in g.deps:
        return d_and(g, cmp(">", leaf(hi), leaf(lo), False))
    for v in sorted(g.vars, key=lambda v: v.id):
        if it not in v.deps:
            return _lift(v, g, lambda b: mk_exists(it, lo, hi, b))
    a, b = lo.const(), hi.const()
    if a is not None and b is not None and b - a <= 16:
        r = FALSE
        while a < b:
            r = d_or(r, Subst({it: num(a)}).d(g))
            a += 1
        return r
    if g.var.kind == "sgn" and len(g.vars) == 1 and g.dflt is None:
        # one linear condition on the bound variable: decided at an end of the range
        lin = p_linear(g.var.arg, it)
        k = dict(g.kids)
        if lin is not None and len(k) == 3 and all(x.is_leaf for x in k.values()):
            S = {s for s, x in k.items() if x is TRUE}
            if lin[0] < 0:
                S = {-s for s in S}
            end = p_sub(hi, P1) if S in ({1}, {0, 1}) else lo if S in ({-1}, {-1, 0}) else None
            if end is not None:
                return d_and(cmp(">", leaf(hi), leaf(lo), False), Subst({it: leaf(end)}).d(g))
    # a witness
    if cmp(">", leaf(hi), leaf(lo), False) is TRUE:
        cand = [lo, p_sub(hi, P1)]
        for v in sorted(g.vars, key=lambda v: v.id):
            lin = p_linear(v.arg, it) if v.kind == "sgn" else None
            if lin is not None and it not in lin[1].deps:
                r = p_scale(lin[1], F1 / -lin[0])
                if is_integral(r):
                    cand.append(r)
        for r in cand:
            if Subst({it: leaf(r)}).d(g) is TRUE and cmp(">=", leaf(r), leaf(lo), False) is TRUE and cmp("<", leaf(r), leaf(hi), False) is TRUE:
                return TRUE
    h = max_h(g.deps | lo.deps | hi.deps) + 1
    return bvar(atom("exq", lo, hi, Subst({it: dat(atom("bv", h))}).d(g), h))


def d_trunc(a):
    def f(x):
        x = as_poly(x)
        c = x.const()
        if c is not None:
            return num(int(c))  # truncation toward zero
        if is_integral(x):
            return leaf(x)
        return dat(atom("trunc", x))
    return apply("trunc", f, a)


INTATOMS = {"size", "it", "bv", "nbsize", "nbid", "trunc", "id", "len", "tell", "round", "floor", "ceil", "idiv", "imod"}


def is_integral(p):
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not (a.kind in INTATOMS or a.info == "int"):
                if a.kind == "sum" and e > 0 and is_integral(Poly({a.args[2]: F1})) and all(is_integral(as_poly(l)) for l in leaves_of(a.args[3])):
                    continue
                return False
    return True


# ----------------------------------------------------------------------------- printing
def show_atom(a):
    k = a.kind
    ar = a.args
    if k == "sym":
        return str(ar[0]) + ("(%s)" % ",".join(map(str, ar[1:])) if len(ar) > 1 else "")
    if k == "fld":
        return "%s@%s[%s]" % (ar[0], ar[1], ",".join(map(str, ar[2:])))
    if k == "cfg":
        return "cfg:" + ".".join(map(str, ar))
    if k == "bv":
        return "b%d" % ar[0]
    if k == "it":
        return "k%s" % ar[0]
    if k == "sum":
        return "SUM{%s..%s}(%s | %s)" % (ar[0], ar[1], show_poly(Poly({ar[2]: F1})), ar[3])
    if k == "nbid":
        return "nb%s(%s,%s)" % (ar[0], ar[1], ar[2])
    return "%s(%s)" % (k, ",".join(map(str, ar)))


def show_poly(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        s = "*".join(("%s" % a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out)


def show(n, depth=0):
    if n.is_leaf:
        return repr(n.leaf)
    if depth > 12:
        return "..."
    if n.var.kind == "b" and {k for _, k in n.kids} == {TRUE, FALSE}:
        return ("" if n.kids[1][1] is TRUE else "!") + repr(n.var)
    return "{%r? %s%s}" % (n.var, "; ".join("%s:%s" % (x, show(k, depth + 1)) for x, k in n.kids),
                           "; *:" + show(n.dflt, depth + 1) if n.dflt is not None else "")


def short(n, lim=300):
    s = show(n) if isinstance(n, D) else repr(n)
    return s if len(s) <= lim else s[:lim] + "..."
