"""What the input streams contain when a loader reads a document written by an exporter: the loader is analysed on the document
(literal text, value expressions and one record per particle for an unknown number of particles)."""
import re
import math
import contextlib
from base import *
from lib import batom
from exporters import Doc, INTS, NUMS, as_int

FLOATCH = "0123456789+-.einfa"
INTCH = "0123456789-"


def ints(p):
    """(q, c, g) with p = g * q + c for integer-valued q"""
    c, g = Fraction(0), 0
    for m, k in p.t:
        if m:
            if k.denominator != 1:
                return p, Fraction(0), 1
            g = math.gcd(g, int(k))
        else:
            c = k
    if g <= 1 or c.denominator != 1 or not core.is_integral(p):
        return p, Fraction(0), 1
    return core.p_scale(core.p_sub(p, pconst(c)), Fraction(1, g)), c, g


def ilt(a, b):
    """a < b for integers"""
    q, c, g = ints(core.p_sub(a, b))
    return cmp("<", leaf(core.p_add(q, pconst(c // g))), ZERO, False)


def ieq(a, b):
    q, c, g = ints(core.p_sub(a, b))
    return FALSE if c % g else cmp("==", leaf(core.p_add(q, pconst(c / g))), ZERO, False)


class Reg:
    """lines (or tokens) start .. start + w*count, one item each (count 1) or w items per record"""

    def __init__(self, start, items, lp=None, fix=None):
        self.start, self.items, self.lp = start, items, lp
        self.count = lp.trip if lp is not None else P1
        if fix:
            self.count = as_poly(Subst(fix).d(leaf(self.count)).leaf)
        self.end = core.p_add(start, core.p_mul(pconst(len(items)), self.count))

    def at(self, X):
        """(number of the item within the record or None, record)"""
        off = core.p_sub(X, self.start)
        w = len(self.items)
        if w == 1:
            return 0, off
        c = off.t.get((), 0) if hasattr(off.t, "get") else sum(k for m, k in off.t if not m)
        rest = [k for m, k in off.t if m]
        if Fraction(c).denominator != 1 or any((Fraction(k) / w).denominator != 1 for k in rest):
            return None, None
        j = int(c) % w
        return j, core.p_scale(core.p_sub(off, pconst(j)), Fraction(1, w))

    def before(self, X):
        j, r = self.at(X)
        return ilt(X, self.start) if j is None else ilt(r, P0)

    def upto(self, X):
        """X lies before the end of the region"""
        j, r = self.at(X)
        return ilt(X, self.end) if j is None else ilt(r, self.count)


class Seq:
    def __init__(self, parts, fix=None):
        """parts: ([items], loop or None)"""
        self.regs = []
        pos = pconst(0)
        for items, lp in parts:
            if lp is None:
                for x in items:
                    r = Reg(pos, [x])
                    self.regs.append(r)
                    pos = r.end
            elif items:
                r = Reg(pos, items, lp, fix)
                self.regs.append(r)
                pos = r.end
        self.end = pos

    def query(self, X, f, opaque):
        """f(item, index of the record or None) -> D (None: unknown); item None: behind the end"""
        vals = []
        for r in self.regs:
            if r.before(X) is TRUE:
                break
            if r.upto(X) is FALSE:
                continue
            v = self.value(r, X, f)
            vals.append((r, v))
            if v is None or v is not vals[0][1]:
                break
            if r.upto(X) is TRUE:
                break
        else:
            vals.append((None, f(None, None)))
        first = vals[0][1]
        if first is None:
            return opaque()
        r, v = vals[-1]
        if v is first:
            return first if r is None or r.upto(X) is TRUE else ite(r.upto(X), first, opaque())
        if v is None:
            tail = opaque()
        elif r is None or r.upto(X) is TRUE:
            tail = v
        else:
            one = r.lp is None
            here = ieq(X, r.start) if one else r.upto(X)
            tail = ite(here, v, opaque())
        prev = vals[-2][0]
        return ite(prev.upto(X) if r is None else r.before(X), first, tail)

    def value(self, r, X, f):
        if r.lp is None:
            return f(r.items[0], None)
        j, k = r.at(X)
        if j is not None:
            return f(r.items[j], k)
        return None


class Content:
    """one document as the content of the file called `path`"""

    def __init__(self, doc, path, fix=None):
        """fix: {atom: value} gives the number of particles"""
        self.fix = fix
        self.opens = TRUE
        self.doc, self.path = doc, path
        self.holes = []
        self.reads = 0
        self.hdr = None
        self.csvnames = None
        self.csvsep = ","
        self.lines = Seq(self.split_lines(doc.text), fix)
        self.tokens = None
        try:
            self.tokens = Seq(self.split_tokens(doc.text), fix)
        except Unmodelled:
            pass

    def mine(self, s):
        return s is self.path

    # ---------------------------------------------------------------- structure of the document
    def elems(self, text, lp):
        """text -> list of characters and hole numbers"""
        out = []
        for ch in text:
            m = self.doc.mk(ch)
            if m is None:
                out.append(ch)
            else:
                self.holes.append((m, lp))
                out.append(len(self.holes) - 1)
        return out

    def split_lines(self, text):
        parts, cur = [], []

        def flush():
            nonlocal cur
            if cur:
                parts.append(([cur], None))
                cur = []
        for ch in text:
            m = self.doc.mk(ch)
            if m is not None and m[0] == "loop" and "\n" in m[2]:
                if cur or not m[2].endswith("\n"):
                    raise Unmodelled("records that do not start at a line start")
                rec = m[2].split("\n")[:-1]
                parts.append(([self.elems(x, m[1]) for x in rec], m[1]))
                continue
            if ch == "\n":
                parts.append(([cur], None))
                cur = []
                continue
            cur += self.elems(ch, None)
        flush()
        return parts

    def split_tokens(self, text):
        parts, cur = [], []

        def flush():
            nonlocal cur
            if cur:
                parts.append(([cur], None))
                cur = []
        for ch in text:
            m = self.doc.mk(ch)
            if m is not None and m[0] == "loop":
                if cur or not m[2][-1:].isspace() and not m[2][:1].isspace():
                    raise Unmodelled("records that are not separated")
                toks = [self.elems(x, m[1]) for x in m[2].split()]
                parts.append((toks, m[1]))
                continue
            if m is not None and m[0] == "bin":
                raise Unmodelled("binary data")
            if ch in " \t\r\n\v\f":
                flush()
                continue
            cur += self.elems(ch, None)
        flush()
        return parts

    def records(self, I):
        """(number of records, key of the position of the stream, position) when a stream on the document stands at the start of a block
        of them"""
        for root, m in I.st.items():
            d = m.get(("$line",))
            if d is None or not d.is_leaf or m.get(("$src",)) is None or not m[("$src",)].is_leaf or not self.mine(m[("$src",)].leaf):
                continue
            X = as_poly(d.leaf)
            for r in self.lines.regs:
                if r.lp is not None and len(r.items) == 1 and r.start is X and r.count.const() is None:
                    return r.count, (root, ("$line",)), d
        return None

    # ---------------------------------------------------------------- values
    def chars(self, h):
        m, lp = self.holes[h]
        if m[0] == "v" and m[2] in INTS:
            return INTCH
        if m[0] == "v" and m[2] in NUMS:
            return FLOATCH
        return None

    def str_of(self, el, idx):
        parts = []
        for x in el:
            parts.append(x if isinstance(x, str) else atom("hole", id(self), x, idx if idx is not None else pconst(0)))
        return leaf(Str(tuple(parts)))

    def elems_of(self, s):
        """elements of a string made of text and holes: list of chars and (hole, index); None when it has other parts"""
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out += list(p)
            elif p.kind == "hole" and p.args[0] == id(self):
                out.append((p.args[1], p.args[2]))
            else:
                return None
        return out

    def number(self, el, idx, tn):
        """the value of a token when read as tn: (ok, value or None)"""
        el = [(x, idx) if isinstance(x, int) else x for x in el]
        if len(el) == 1 and isinstance(el[0], tuple):
            h, ix = el[0]
            m, lp = self.holes[h]
            if m[0] != "v" or m[2] not in NUMS:
                return None, None
            v = m[1]
            if lp is not None and lp.it in v.deps:
                v = Subst({lp.it: leaf(ix)}).d(v)
            if self.fix:
                v = Subst(self.fix).d(v)
            if tn.startswith("int") and m[2] in INTS:
                return TRUE, as_int(v)
            if tn in ("double", "float"):
                return TRUE, as_int(v)
            return None, None
        if all(isinstance(x, str) for x in el):
            t = "".join(el)
            g = re.match(r"[+-]?\d+$" if tn.startswith("int") else r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$", t)
            if g:
                return TRUE, num(Fraction(t) if not tn.startswith("int") else int(t))
            if not re.match(r"[+-]?[.]?[\dinIN]", t):
                return FALSE, ZERO
        return None, None

    # ---------------------------------------------------------------- queries of the stream library
    def whole(self, s):
        """X when s is exactly the X-th line of the document"""
        if len(s.parts) == 1 and not isinstance(s.parts[0], str) and s.parts[0].kind == "line":
            a = s.parts[0]
            if isinstance(a.args[0], D) and a.args[0].is_leaf and self.mine(a.args[0].leaf):
                return a.args[1]
        return None

    def on_line(self, s, f, opaque):
        """f(elements, index) on the text of string s"""
        X = self.whole(s)
        if X is not None:
            return self.lines.query(X, lambda el, ix: f([], None) if el is None else f(el, ix), opaque)
        el = self.elems_of(s)
        if el is None:
            return opaque()
        v = f(el, None)
        return opaque() if v is None else v

    def line(self, s, X, fv):
        if not self.mine(s):
            return fv(s, X)
        self.reads += 1
        for r in self.lines.regs:
            if r.before(X) is TRUE:
                break
            if r.upto(X) is FALSE:
                continue
            if r.before(X) is not FALSE or r.upto(X) is not TRUE:
                break
            v = self.lines.value(r, X, self.str_of)
            return v if v is not None else fv(s, X)
        return fv(s, X)

    def lineok(self, s, X, fo):
        return ilt(X, self.lines.end) if self.mine(s) else fo(s, X)

    def contains(self, s, pat):
        c = pat.const()
        if c is None:
            return None
        op = lambda: batom("contains", leaf(s), leaf(pat))
        return self.on_line(s, lambda el, ix: self.occurs(el, c), op)

    def occurs(self, el, pat):
        """does pat occur in the line?  TRUE / FALSE / None"""
        txt = "".join(x if isinstance(x, str) else "\0" for x in el)
        if any(pat in seg for seg in txt.split("\0")):
            return TRUE
        # positions of the pattern reachable so far, holes being non-empty texts over their alphabets
        st = {0}
        for x in el:
            if isinstance(x, str):
                st = {0} | {k + 1 for k in st if pat[k] == x}
            else:
                cs = self.chars(x if isinstance(x, int) else x[0])
                new, todo = set(), set(st)
                while todo:
                    k = todo.pop()
                    n = {0} | ({k + 1} if cs is None or pat[k] in cs else set())
                    for j in n - new:
                        if j == len(pat):
                            return None
                        new.add(j)
                        todo.add(j)
                st = new
            if len(pat) in st:
                return None
        return FALSE

    def token_of(self, el, j):
        """the j-th blank-separated token"""
        toks, cur = [], []
        for x in el:
            if isinstance(x, str) and x in " \t\r\n\v\f":
                if cur:
                    toks.append(cur)
                cur = []
            else:
                cur.append(x)
        if cur:
            toks.append(cur)
        return toks[j] if j < len(toks) else None

    def read(self, s, pos, tn, what, opaque):
        """what 0: does reading succeed, 1: value"""
        def val(tok, ix):
            if tok is None:
                return (FALSE, ZERO)[what]
            return self.number(tok, ix, tn)[what]
        if self.mine(s):
            self.reads += 1
            if self.tokens is None:
                return opaque()
            return self.tokens.query(pos, val, opaque)
        j = pos.const()
        if j is None:
            return opaque()

        def ofline(el, ix):
            if any(not isinstance(x, (str, tuple)) and self.holes[x][0][0] == "loop" for x in el):
                return None
            return val(self.token_of(el, int(j)), ix)
        return self.on_line(s, ofline, opaque)

    def tok(self, s, pos, tn, fv):
        return self.read(s, pos, tn, 1, lambda: fv(s, pos))

    def tokok(self, s, pos, tn, fo):
        return self.read(s, pos, tn, 0, lambda: fo(s, pos))

    def num(self, base, s, fv):
        tn = "double" if base in ("stod", "stof", "stold", "strtod", "atof") else "int"

        def f(el, ix):
            t = self.token_of(el, 0)
            return None if t is None else self.number(t, ix, tn)[1]
        return self.on_line(s, f, lambda: fv(s))

    def numok(self, base, s, fo):
        tn = "double" if base in ("stod", "stof", "stold", "strtod", "atof") else "int"

        def f(el, ix):
            t = self.token_of(el, 0)
            return FALSE if t is None else self.number(t, ix, tn)[0]
        return self.on_line(s, f, lambda: fo(s))

    # ---------------------------------------------------------------- atoms whose arguments became known
    @contextlib.contextmanager
    def active(self, I):
        lf = lambda x: x.leaf if isinstance(x, D) and x.is_leaf else x

        def plain(a):
            if a.kind in ("tokok", "lineok", "contains", "numok", "csvrow"):
                return bvar(a)
            if a.kind == "line" or a.kind in ("tok", "csvtok") and a.args[-1] == "word":
                return leaf(Str((a,)))
            return dat(a)

        def simp(f):
            def g(a):
                args = [lf(x) for x in a.args]
                if not all(isinstance(x, (Str, Poly, str)) for x in args):
                    return None
                p = plain(a)
                v = f(*args, lambda *z: p)
                return None if v is None or v is p else v
            return g

        def contains(s, y, op):
            v = self.contains(s, y)
            return op() if v is None else v
        hooks = {"tok": self.tok, "tokok": self.tokok, "line": self.line, "lineok": self.lineok, "contains": contains, "num": self.num,
                 "numok": self.numok, "csvrow": self.csvrow, "csvtok": self.csvtok}
        save = dict(core.REBUILD)
        core.REBUILD.update({k: simp(f) for k, f in hooks.items()})
        I.content = self
        try:
            yield self
        finally:
            core.REBUILD.clear()
            core.REBUILD.update(save)

    # ---------------------------------------------------------------- csv reader
    def csvheader(self, src, n, policy, names):
        """is the line of the titles accepted?"""
        if not src.is_leaf or not self.mine(src.leaf):
            return True
        k = n.leaf.const() if n.is_leaf else None
        if k is None:
            raise Unmodelled("position of the column titles")
        self.hdr = int(k)
        r = [r for r in self.lines.regs if r.start.const() == k and r.lp is None]
        if r and all(isinstance(x, str) for x in r[0].items[0]):
            self.csvnames = [x.strip(" \t") for x in "".join(r[0].items[0]).rstrip("\r").split(self.csvsep)]
        else:
            self.csvnames = []
            return False
        extra = [t for t in self.csvnames if t not in names]
        return len(set(self.csvnames)) == len(self.csvnames) and (not extra or bool(policy & 1))

    def csvhas(self, s, nm, fo):
        return batoms(nm in self.csvnames) if self.mine(s) and self.csvnames is not None else fo(s)

    def csvrow(self, s, r, fo):
        if not self.mine(s) or self.hdr is None:
            return fo(s, r)
        return ilt(core.p_add(r, pconst(self.hdr + 1)), self.lines.end)

    def cells(self, el):
        cells, cur = [], []
        for x in el:
            if x == self.csvsep:
                cells.append(cur)
                cur = []
            elif not (isinstance(x, str) and x in " \t\r"):
                cur.append(x)
        cells.append(cur)
        return cells

    def csvbad(self, s, r, cols):
        """reading this row throws"""
        if not self.mine(s) or self.csvnames is None:
            return FALSE

        def f(el, ix):
            if el is None:
                return FALSE
            cells = self.cells(el)
            if len(cells) != len(self.csvnames):
                return TRUE
            for nm, tn in cols:
                if nm in self.csvnames:
                    ok = self.number(cells[self.csvnames.index(nm)], ix, tn)[0]
                    if ok is None:
                        return None
                    if ok is FALSE:
                        return TRUE
            return FALSE
        return self.lines.query(core.p_add(r, pconst(self.hdr + 1)), f, lambda: batom("csvbad", leaf(s), r))

    def csvtok(self, s, r, nm, tn, fv):
        op = lambda: fv(s, r)
        if not self.mine(s) or self.csvnames is None or nm not in self.csvnames:
            return op()
        j = self.csvnames.index(nm)

        def f(el, ix):
            if el is None:
                return None
            cells = self.cells(el)
            if len(cells) != len(self.csvnames):
                return None
            return self.number(cells[j], ix, tn)[1]
        return self.lines.query(core.p_add(r, pconst(self.hdr + 1)), f, op)


def batoms(b):
    return TRUE if b else FALSE
