"""What the snapshot files contain (S23, S24): the sequence of everything written to the file is reconstructed as a document whose
skeleton is literal text and whose holes are value expressions, and is parsed as that format."""
from base import *
import interp
from lib import batom
import xml.etree.ElementTree as ET

MARK = 0xF0000


class Doc:
    """everything written to one stream, in order"""

    def __init__(self, rep, W, ref, care, name):
        self.rep, self.W, self.ref, self.care, self.name = rep, W, ref, care, name
        self.marks = []
        self.loc = None
        self.lost = []

    def mark(self, x):
        self.marks.append(x)
        return chr(MARK + len(self.marks) - 1)

    def build(self, evs):
        self.evs = evs
        self.text = self.items(evs, self.care, None)
        return self

    def collected(self, L, key):
        """what a string stream had collected when loop L ended"""
        root, path = key
        sub = RefV("ptr", root, path[:-1])
        d = leaf(sub)
        ref, self.ref = self.ref, d
        out = []
        try:
            for e in self.evs:
                if any(isinstance(x, Ev) and x.kind == "strset" and self.mine(x.data[0]) for x in interp.walk_events([e])):
                    raise Unmodelled("string stream that is reset")
                out.append(self.items([e], self.care, None))
                if isinstance(e, Loop) and e.L == L:
                    return "".join(out)
        finally:
            self.ref = ref
        raise Unmodelled("text collected in a nested loop")

    # ---------------------------------------------------------------- events -> text with marks
    def items(self, evs, care, lp):
        out = []
        for e in evs:
            if isinstance(e, Loop):
                if not self.touches(e):
                    continue
                g = restrict(e.guard, care)
                if g is FALSE:
                    continue
                if g is not TRUE:
                    raise Unmodelled("conditional loop in the output of " + self.name)
                for k, x in e.E.items():
                    if restrict(x, care) is not FALSE:
                        raise Unmodelled("loop of the output of %s left by %s" % (self.name, k))
                body = self.items(e.events, care, e)
                out.append(self.mark(("loop", e, body)))
                continue
            if e.kind != "out" or not self.mine(e.data[0]):
                continue
            g = restrict(e.g, care)
            if g is FALSE:
                continue
            self.loc = self.loc or e.loc
            t = self.value(e, restrict(e.data[1], d_and(g, care)))
            if g is not TRUE:
                t = self.mark(("if", g, t, e.loc))
            out.append(t)
        return "".join(out)

    def mine(self, ref):
        return self.W.I.simp(ref) is self.ref or ref is self.ref

    def touches(self, lp):
        return any(isinstance(x, Ev) and x.kind == "out" and self.mine(x.data[0]) for x in interp.walk_events(lp.events))

    def value(self, e, v):
        kind, w, fill, prec, flt = e.data[2:7]
        if kind == "path":
            return self.mark(("v", v, "path", e.loc))
        if kind in ("str",):
            if not v.is_leaf or not isinstance(v.leaf, Str):
                if all(isinstance(x, Str) for x in leaves_of(v)):
                    l = list(leaf_conds(v))
                    return "".join(self.mark(("if", c, self.string(x, e), e.loc)) for c, x in l)
                raise Unmodelled("text of unknown value in the output of " + self.name)
            return self.string(v.leaf, e)
        if kind in ("double", "float", "long double"):
            self.digits(e, prec, flt)
        else:
            # a number written with a width is padded by blanks
            pass
        return self.mark(("v", v, kind, e.loc))

    def digits(self, e, prec, flt):
        f = flt.leaf.const() if flt.is_leaf and isinstance(flt.leaf, Poly) else None
        p = prec.leaf.const() if prec.is_leaf and isinstance(prec.leaf, Poly) else None
        if f is None or p is None:
            raise Unmodelled("number format that is not constant")
        if f == 1:
            self.lost.append((e.loc, "fixed-point notation"))
        elif f == 0 and p < 6 or f == 2 and p < 5:
            self.lost.append((e.loc, "precision %d" % p))

    def string(self, s, e):
        out = []
        for x in s.parts:
            if isinstance(x, str):
                out.append(x)
            elif x.kind == "post" and x.args[1][1][-1] == "$str":
                out.append(self.collected(*x.args[:2]))
            elif x.kind in ("mu", "post", "phi"):
                raise Unmodelled("text carried through a loop in the output of " + self.name)
            elif x.kind == "fmt" and x.args[2] is P0 and len(x.args) > 5:
                self.digits(e, leaf(x.args[4]), leaf(x.args[5]))
                out.append(self.mark(("v", leaf(x.args[1]), x.args[0], e.loc)))
            elif x.kind in ("tostr", "fmt"):
                ty, p = x.args[0], x.args[1]
                if ty not in ("int",):
                    self.lost.append((e.loc, "fixed-point notation (to_string)"))
                out.append(self.mark(("v", leaf(p), ty, e.loc)))
            elif x.kind == "content":
                out.append(self.mark(("bin", x.args[0], e.loc)))
            else:
                out.append(self.mark(("v", leaf(Str((x,))), "str", e.loc)))
        return "".join(out)

    # ---------------------------------------------------------------- helpers of the parsers
    def split(self, text, seps=" \t\r\n"):
        """list of marks of a text that consists of single values, loops and separators"""
        out = []
        word = ""
        for ch in text:
            if ord(ch) >= MARK:
                out.append(("m", self.marks[ord(ch) - MARK]))
            elif ch in seps:
                out.append(("s", ch))
            else:
                out.append(("t", ch))
        return out

    def mk(self, ch):
        return self.marks[ord(ch) - MARK] if len(ch) == 1 and ord(ch) >= MARK else None

    def show(self, text):
        r = ""
        for ch in text:
            m = self.mk(ch)
            r += ch if m is None else "<%s>" % (short(m[1], 80) if m[0] in ("v",) else m[0])
        return r.strip()[:200]


def collected_text(a):
    return not isinstance(a, str) and a.kind == "post" and a.args[1][1][-1] == "$str"


def settle_text(evs):
    """text collected by a loop: without a single iteration nothing is collected, which the record of the loop covers"""
    out = []
    loops = {e.L: e for e in evs if isinstance(e, Loop)}
    for e in evs:
        if isinstance(e, Ev) and e.kind == "out" and e.data[2] == "str" and not e.data[1].is_leaf:
            l = list(leaf_conds(e.data[1]))
            if all(isinstance(x, Str) for c, x in l):
                ps = [x for c, x in l if any(collected_text(a) for a in x.parts)]
                lp = loops.get(next(a.args[0] for a in ps[0].parts if collected_text(a))) if len(ps) == 1 else None
                if lp is not None and lp.tripD is not None:
                    some = cmp(">", lp.tripD, ZERO, False)
                    if all(x is ps[0] or d_and(d_and(c, some), e.g) is FALSE for c, x in l):
                        e = Ev(e.kind, e.g, (e.data[0], leaf(ps[0])) + tuple(e.data[2:]), e.loc)
        out.append(e)
    return out


def file_docs(rep, fname, args=None):
    """analyse an exporter function; [(care, Doc, extra)] of the file named by its path argument"""
    core.NANMODE[0] = False
    W = World(rep.db)
    I = W.I
    f = W.method("ParticlesExporter::" + fname)
    this = W.this_of(f)
    W.call(f, this, args or {})
    I.ev = settle_text(I.ev)
    rep.note(W)
    root, b = W.particle_vector(this)
    st = I.st[root]
    n = st[b + ("#",)]

    def fld(*p):
        d = st[b + ("[]",) + p]
        return lambda it: sub_arg(d, dat(it))
    opens = [(e, g) for e, ls, g in flat(I.ev) if e.kind == "open" and e.data[0] != "in"]
    return W, f, n, fld, opens


def sole_file(rep, W, f, opens, kind):
    """the one output file: (reference, condition under which it was opened)"""
    I = W.I
    if not rep.check(len(opens) == 1, "%s: one file is written" % kind, f.file, "%d files are opened" % len(opens)):
        return None
    e, g = opens[0]
    rep.same("%s: the file is always opened" % kind, g, TRUE, where=e.loc)
    ref, path = e.data[1], e.data[2]
    mode = as_poly(e.data[3].leaf if isinstance(e.data[3], D) else e.data[3]).const() if len(e.data) > 3 else 16
    rep.check(mode is not None and not int(mode) & 3 and (int(mode) & 32 or not int(mode) & 8), "%s: an existing file is replaced" % kind, e.loc, "the file is opened in append or update mode")
    ok = batom("openok", "out", path)
    live = I.live
    bad = d_not(ok)
    rep.check(d_and(live, bad) is FALSE, "%s: failing to open the file stops the program" % kind, e.loc, "the function goes on although the file could not be opened")
    for x, ls, gg in flat(I.ev):
        if x.kind == "exit":
            hit = d_and(gg, bad)
            if hit is FALSE:
                rep.fail("%s: a snapshot is always completed" % kind, x.loc, "the program exits although the file is open when " + short(gg, 200))
                continue
            for c, v in leaf_conds(x.data[0]):
                k = as_poly(v).const() if isinstance(v, Poly) else None
                rep.check(k is not None and int(k) % 256, "%s: nonzero status when the file cannot be opened" % kind, x.loc, "exit status %s" % short(x.data[0]))
    rep.check(mismatch(live, ok) is None, "%s: a snapshot is always completed" % kind, f.file, "the function does not reach its end when " + short(d_and(ok, d_not(live)), 200))
    rep.same("%s: the file has the requested name" % kind, path, leaf(Str((path_atom(W, f),))), where=e.loc)
    return I.simp(ref), ok


def path_atom(W, f):
    return atom("sym", f.o["params"][0]["n"])


def cases(W, evs, ref, care, limit=16):
    """split on decisions that select between pieces of the output and do not depend on a loop"""
    todo, out = [care], []
    while todo:
        c = todo.pop()
        var = None
        for e, ls, g in flat(evs):
            if e.kind != "out" or not (e.data[0] is ref or W.I.simp(e.data[0]) is ref):
                continue
            gs = [restrict(e.g, c)] + [restrict(l.guard, c) for l in ls]
            if e.data[2] == "str":
                v = restrict(e.data[1], c)
                if not v.is_leaf:
                    gs.append(v)
            for g in gs:
                if g.is_leaf:
                    continue
                for v in sorted(g.vars, key=lambda v: v.id):
                    if not any(a.kind in ("it", "fld") for a in v.deps):
                        var = (v, g)
                        break
                if var:
                    break
            if var:
                break
        if var is None:
            out.append(c)
            continue
        v = var[0]
        vals = v.vals or (-1, 0, 1)
        for x in vals:
            cx = d_and(c, core.node(v, [(y, TRUE if y == x else FALSE) for y in vals]))
            if cx is not FALSE:
                todo.append(cx)
        if len(out) + len(todo) > limit:
            raise Unmodelled("too many variants of the output")
    return out


# ------------------------------------------------------------------ line formats
def lines(doc, text):
    """split into lines at newline characters outside loops; a loop must be followed by a new line's start and its body end with a newline"""
    out, cur = [], ""
    for ch in text:
        m = doc.mk(ch)
        if m is not None and m[0] == "loop":
            if cur.strip():
                out.append(cur)
            cur = ""
            out.append(ch)
            continue
        if ch == "\n":
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur + "\0")
    return out


def row(doc, text, seps):
    """values of a record: list of value marks, or None when text is not values separated by seps"""
    vals = []
    want = True
    for k, x in doc.split(text, " \t\r\n"):
        if k == "m":
            if x[0] == "if" and not x[2].strip():
                continue
            if not want:
                return None
            vals.append(x)
            want = False
        elif k == "s":
            if not seps.strip():
                want = True
        elif x in seps:
            if want:
                return None
            want = True
        else:
            return None
    return vals


def one_value(rep, doc, text, name, want, kinds=None, care=TRUE):
    t = text.strip()
    m = doc.mk(t)
    if not rep.check(m is not None and m[0] == "v", "%s: %s" % (doc.name, name), doc.loc, "found %r instead of a value" % doc.show(text)):
        return
    value(rep, doc, m, name, want, kinds, care)


def value(rep, doc, m, name, want, kinds=None, care=TRUE):
    if m[0] == "if":
        if any(a.kind == "fld" for a in m[1].deps):
            rep.fail("%s: %s" % (doc.name, name), m[3], "written only when " + short(m[1], 200))
            return
        raise Unmodelled("conditional value in the output of " + doc.name)
    if m[0] != "v":
        rep.fail("%s: %s" % (doc.name, name), doc.loc, "found %s instead of a value" % m[0])
        return
    if kinds:
        rep.check(m[2] in kinds, "%s: %s is written as a number" % (doc.name, name), m[3], "written as %s" % m[2])
    rep.same("%s: %s" % (doc.name, name), m[1], want, care, m[3])


INTS = ("int", "short", "long")
NUMS = INTS + ("double", "float", "long double")


def as_int(d):
    """enumerators as the numbers they are written as"""
    return apply("enumint", lambda x: num(int(x.v)) if isinstance(x, En) else leaf(x), d)


def record_loop(rep, doc, ch, n, what, loc):
    m = doc.mk(ch)
    if not rep.check(m is not None and m[0] == "loop", "%s: %s" % (doc.name, what), loc, "found %r instead of one record per particle" % doc.show(ch)):
        return None
    lp = m[1]
    rep.same("%s: %s: as many as particles" % (doc.name, what), leaf(lp.trip), n, doc.care, lp.loc)
    return lp, m[2]


def record(rep, doc, lp, body, seps, cols, what, care):
    """cols: [(name, fn(it) -> D, kinds)]"""
    vals = row(doc, body, seps)
    if vals is None:
        cond = [doc.mk(c) for c in body if doc.mk(c) is not None and doc.mk(c)[0] == "if"]
        if cond and not any(a.kind == "fld" for c in cond for a in c[1].deps):
            raise Unmodelled("conditional text in the records of " + doc.name)
        rep.fail("%s: %s" % (doc.name, what), lp.loc, "the record %r is not a list of values" % doc.show(body))
        return
    if not rep.check(len(vals) == len(cols), "%s: %s has %d values" % (doc.name, what, len(cols)), lp.loc, "%d values in %r" % (len(vals), doc.show(body))):
        return
    for m, (name, fn, kinds) in zip(vals, cols):
        value(rep, doc, m, "%s: %s" % (what, name), fn(lp.it), kinds, care)


def lossless(rep, doc):
    for loc, what in doc.lost:
        rep.fail("%s: numbers keep their leading digits" % doc.name, loc, "a floating-point value is written in %s" % what)
    rep.ok("%s: numbers keep their leading digits" % doc.name)


def s23(rep):
    """prof and csv as line formats, vtu (ASCII and binary) as XML documents: every value written equals the documented quantity"""
    prof(rep)
    csv(rep)
    for binary in (False, True):
        vtu(rep, binary)
    reference(rep)


def reference(rep):
    """the reference value handed to the vtu writer of the simulation is the one of the number density"""
    import program
    P = program.program(rep)
    n0 = Const().n0("NumberDensity")
    for top in P.events:
        inner = [top] if isinstance(top, Ev) else [x for x, ls, g in flat(top.events)]
        f = top.resolver.d if isinstance(top, Loop) and top.resolver is not None else (lambda d: d)
        for e in inner:
            if e.kind == "export" and e.data[0].startswith("toVtu") and len(e.data[1]) > 2:
                rep.same("vtu: the ratio is relative to the reference number density of the simulation", f(e.data[1][2]), n0, where=e.loc)


def typ(fld):
    return lambda it: as_int(fld("type")(it))


def prof(rep):
    W, f, n, fld, opens = file_docs(rep, "toProf")
    r = sole_file(rep, W, f, opens, "prof")
    if r is None:
        return
    ref, ok = r
    for care in cases(W, W.I.ev, ref, ok):
        doc = Doc(rep, W, ref, care, "prof").build(W.I.ev)
        ls = [l for l in lines(doc, doc.text) if l.strip()]
        if not rep.check(len(ls) == 3, "prof: time, number of particles, records", doc.loc, "%d parts: %s" % (len(ls), [doc.show(x) for x in ls])):
            continue
        one_value(rep, doc, ls[0], "line 1 is the time", time_arg(W, f), NUMS, care)
        one_value(rep, doc, ls[1], "line 2 is the number of particles", n, INTS, care)
        x = record_loop(rep, doc, ls[2], n, "one record per particle", doc.loc)
        if x:
            lp, body = x
            rep.check(body.endswith("\n") and body.count("\n") == 1, "prof: one line per particle", lp.loc, "a record is not exactly one line")
            cols = [("type", typ(fld), INTS)] + [("%s %s" % (q, "xyz"[k]), fld(q, str(k)), NUMS) for q in ("position", "velocity") for k in range(3)]
            record(rep, doc, lp, body, " \t", cols, "record", care)
        lossless(rep, doc)


def time_arg(W, f):
    return dat(atom("sym", f.o["params"][1]["n"]))


def csv(rep):
    W, f, n, fld, opens = file_docs(rep, "toCsv")
    r = sole_file(rep, W, f, opens, "csv")
    if r is None:
        return
    ref, ok = r
    quant = {"type": (typ(fld), INTS), "fluidType": (fld("fluidType"), INTS)}
    for k, c in enumerate("xyz"):
        quant[c] = (fld("position", str(k)), NUMS)
        quant["v" + c] = (fld("velocity", str(k)), NUMS)
    for care in cases(W, W.I.ev, ref, ok):
        doc = Doc(rep, W, ref, care, "csv").build(W.I.ev)
        ls = [l for l in lines(doc, doc.text) if l.strip()]
        if not rep.check(len(ls) == 4, "csv: time, number of particles, titles, records", doc.loc, "%d parts: %s" % (len(ls), [doc.show(x) for x in ls])):
            continue
        one_value(rep, doc, ls[0], "line 1 is the time", time_arg(W, f), NUMS, care)
        one_value(rep, doc, ls[1], "line 2 is the number of particles", n, INTS, care)
        titles = [t.strip() for t in ls[2].split(",")]
        want = ["type", "fluidType", "x", "y", "z", "vx", "vy", "vz"]
        if not rep.check(titles == want, "csv: column titles", doc.loc, "titles %s instead of %s" % (titles, want)):
            continue
        x = record_loop(rep, doc, ls[3], n, "one record per particle", doc.loc)
        if x:
            lp, body = x
            rep.check(body.endswith("\n") and body.count("\n") == 1, "csv: one line per particle", lp.loc, "a record is not exactly one line")
            record(rep, doc, lp, body, ",", [(t,) + quant[t] for t in titles], "record", care)
        lossless(rep, doc)


# ------------------------------------------------------------------ vtu
WIDTH = {"Float64": (64, "double"), "Float32": (32, "float"), "Int32": (32, "int"), "Int64": (64, "long"), "UInt8": (8, "unsigned char"), "Int8": (8, "signed char"),
         "UInt64": (64, "unsigned long"), "UInt32": (32, "unsigned int"), "Int16": (16, "short"), "UInt16": (16, "unsigned short")}


def parse(rep, doc):
    try:
        return ET.fromstring(doc.text.encode("utf-8"))
    except ET.ParseError as ex:
        line = doc.text.split("\n")[ex.position[0] - 1] if ex.position[0] - 1 < len(doc.text.split("\n")) else ""
        rep.fail("%s: well-formed document" % doc.name, doc.loc, "%s: %s" % (ex, doc.show(line)))
        return None


def arrays(rep, binary):
    """[(care, doc, {(section, name): info}, tree, n, fld, W, f)]"""
    name = "vtu (binary)" if binary else "vtu (ASCII)"
    W, f, n, fld, opens = file_docs(rep, "toVtu", {3: TRUE if binary else FALSE})
    r = sole_file(rep, W, f, opens, name)
    out = []
    if r is None:
        return out
    ref, ok = r
    for care in cases(W, W.I.ev, ref, ok):
        doc = Doc(rep, W, ref, care, name).build(W.I.ev)
        tree = parse(rep, doc)
        if tree is None:
            continue
        rep.ok("%s: well-formed document" % name)
        arr = {}
        for sec in ("Points", "PointData", "Cells", "FieldData"):
            for node in tree.iter(sec):
                for a in node.iter("DataArray"):
                    k = (sec, a.get("Name"))
                    rep.check(k not in arr, "%s: array names are unique" % name, doc.loc, "array %s appears twice in %s" % (k[1], sec))
                    arr[k] = a
        out.append((care, doc, arr, tree, n, fld, W, f))
        lossless(rep, doc)
    return out


def spec_arrays(fld, n0, time):
    return {
        ("Points", "Position"): [fld("position", c) for c in "012"],
        ("PointData", "Particle Type"): [typ(fld)],
        ("PointData", "Velocity"): [fld("velocity", c) for c in "012"],
        ("PointData", "Pressure"): [fld("pressure")],
        ("PointData", "Number Density"): [fld("numberDensity")],
        ("PointData", "Number Density Ratio"): [lambda it: d_div(fld("numberDensity")(it), n0)],
        ("PointData", "Boundary Condition"): [lambda it: as_int(fld("boundaryCondition")(it))],
        ("PointData", "Fluid Type"): [fld("fluidType")],
        ("Cells", "connectivity"): [lambda it: dat(it)],
        ("Cells", "offsets"): [lambda it: d_add(dat(it), ONE)],
        ("Cells", "types"): [lambda it: ONE],
    }


def comps(a):
    c = a.get("NumberOfComponents")
    return 1 if c is None else int(c) if c.isdigit() else -1


def vtu(rep, binary):
    for care, doc, arr, tree, n, fld, W, f in arrays(rep, binary):
        time = time_arg(W, f)
        name = doc.name
        spec = spec_arrays(fld, n0_arg(W, f), time)
        blocks = None
        if binary:
            blocks = Blocks(rep, doc, W, tree, care)
        for (sec, an), cols in spec.items():
            a = arr.get((sec, an))
            if not rep.check(a is not None, "%s: array %s" % (name, an), doc.loc, "there is no array %s in %s" % (an, sec)):
                continue
            if not rep.check(comps(a) == len(cols), "%s: components of %s" % (name, an), doc.loc, "%s components instead of %d" % (a.get("NumberOfComponents"), len(cols))):
                continue
            data = content(rep, doc, a, n, an, blocks, care)
            if data is None:
                continue
            lp, vals = data
            if not rep.check(len(vals) == len(cols), "%s: values of %s" % (name, an), lp.loc, "%d values per particle instead of %d" % (len(vals), len(cols))):
                continue
            for k, (v, fn) in enumerate(zip(vals, cols)):
                label = "%s%s" % (an, " " + "xyz"[k] if len(cols) == 3 else "")
                if binary:
                    rep.same("%s: %s" % (name, label), v[0], fn(lp.it), care, v[1])
                else:
                    value(rep, doc, v, label, fn(lp.it), NUMS, care)
        a = arr.get(("FieldData", "Time"))
        if rep.check(a is not None, "%s: time" % name, doc.loc, "there is no array Time in FieldData"):
            if binary:
                v = blocks.single(a, "Time")
                if v is not None:
                    rep.same("%s: time" % name, v[0], time, care, v[1])
            else:
                one_value(rep, doc, a.text or "", "time", time, NUMS, care)


def n0_arg(W, f):
    return dat(atom("sym", f.o["params"][2]["n"]))


def content(rep, doc, a, n, an, blocks, care):
    """(loop, values) of the data of an array"""
    if blocks is not None:
        return blocks.of(a, an, n)
    t = (a.text or "").strip()
    m = doc.mk(t)
    if not rep.check(m is not None and m[0] == "loop", "%s: data of %s" % (doc.name, an), doc.loc, "found %r instead of one record per particle" % doc.show(t)):
        return None
    lp = m[1]
    rep.same("%s: %s: one record per particle" % (doc.name, an), leaf(lp.trip), n, care, lp.loc)
    if not rep.check(m[2][-1:].isspace() or m[2][:1].isspace(), "%s: records of %s are separated" % (doc.name, an), lp.loc, "the records run together"):
        return None
    vals = row(doc, m[2], " \t\n")
    if vals is None:
        rep.fail("%s: data of %s" % (doc.name, an), lp.loc, "the record %r is not a list of numbers" % doc.show(m[2]))
        return None
    return lp, vals


class Blocks:
    """appended binary data: blocks located by offset"""

    def __init__(self, rep, doc, W, tree, care):
        self.rep, self.doc, self.W, self.care = rep, doc, W, care
        self.seq, self.ref = [], None
        I = W.I
        app = [x for x in tree.iter("AppendedData")]
        ok = rep.check(len(app) == 1, "%s: appended data" % doc.name, doc.loc, "%d AppendedData elements" % len(app))
        if not ok:
            return
        a = app[0]
        rep.check(a.get("encoding") == "raw", "%s: appended data is raw" % doc.name, doc.loc, "encoding %s" % a.get("encoding"))
        t = (a.text or "").lstrip()
        m = doc.mk(t[1:2])
        if not rep.check(t[:1] == "_" and m is not None and m[0] == "bin", "%s: appended data starts after an underscore" % doc.name, doc.loc, "found %r" % doc.show(t)):
            return
        rep.check(not t[2:].strip(), "%s: nothing but the blocks is appended" % doc.name, doc.loc, "found %r" % doc.show(t))
        self.root = m[1]
        self.collect()

    def collect(self):
        """top-level sequence of block writes; nothing may be written after the text was taken"""
        closed = False
        for e in self.W.I.ev:
            if isinstance(e, Ev) and e.kind == "str" and self.mine(e.data[0]):
                closed = True
            elif isinstance(e, Ev) and e.kind == "out" and self.mine(e.data[0]):
                raise Unmodelled("text written to the appended data")
            elif isinstance(e, Ev) and e.kind == "binwrite" and self.mine(e.data[0]):
                g = restrict(e.g, self.care)
                if g is FALSE:
                    continue
                if g is not TRUE:
                    raise Unmodelled("conditional block")
                if closed:
                    self.rep.fail("%s: every block is part of the file" % self.doc.name, e.loc, "written after the appended data was taken")
                self.seq.append(e)
            elif isinstance(e, Loop):
                l = [x for x in interp.walk_events(e.events) if isinstance(x, Ev) and x.kind == "binwrite" and self.mine(x.data[0])]
                if l:
                    if closed:
                        self.rep.fail("%s: every block is part of the file" % self.doc.name, e.loc, "written after the appended data was taken")
                    if restrict(e.guard, self.care) is not TRUE:
                        raise Unmodelled("conditional block")
                    self.seq.append(e)

    def mine(self, ref):
        r = self.W.I.simp(ref)
        return r.is_leaf and isinstance(r.leaf, RefV) and r.leaf.root == self.root

    def offset(self, a, an):
        rep, doc = self.rep, self.doc
        rep.check(a.get("format") == "appended", "%s: %s refers to appended data" % (doc.name, an), doc.loc, "format %s" % a.get("format"))
        o = (a.get("offset") or "").strip()
        if o.isdigit():
            return num(int(o))
        m = doc.mk(o)
        if not rep.check(m is not None and m[0] == "v", "%s: offset of %s" % (doc.name, an), doc.loc, "offset is %r" % doc.show(o)):
            return None
        return m[1]

    def at(self, a, an):
        """index in the sequence of the header of the array's block"""
        o = self.offset(a, an)
        if o is None:
            return None
        for k, e in enumerate(self.seq):
            if isinstance(e, Ev) and mismatch(e.data[5], o, self.care) is None:
                return k
        self.rep.fail("%s: the offset of %s is the position of a block" % (self.doc.name, an), self.doc.loc, "no block starts at %s" % short(o, 200))
        return None

    def header(self, k, an, want):
        rep, doc = self.rep, self.doc
        h = self.seq[k]
        good = h.data[4] == 64 and mismatch(h.data[2], num(8), self.care) is None and "unsigned" in str(h.data[3])
        rep.check(good, "%s: block header of %s is a UInt64" % (doc.name, an), h.loc, "header of type %s, %s bytes" % (h.data[3], short(h.data[2])))
        rep.same("%s: length of the block of %s" % (doc.name, an), h.data[1], want, self.care, h.loc)
        return h

    def elem(self, e, a, an, pos):
        rep, doc = self.rep, self.doc
        w, cn = WIDTH.get(a.get("type"), (None, None))
        ty = str(e.data[3]).replace("const ", "").strip()
        isf = ty in ("float", "double", "long double")
        uns = "unsigned" in ty or ty in ("bool", "uint8_t", "uint64_t")
        dt = a.get("type")
        rep.check(w is not None and e.data[4] == w and isf == dt.startswith("Float") and (isf or uns == dt.startswith("UInt")),
                  "%s: elements of %s have the declared type" % (doc.name, an), e.loc, "declared %s, written from %s (%s bit)" % (dt, ty, e.data[4]))
        rep.same("%s: element size of %s" % (doc.name, an), e.data[2], num((w or 0) // 8), self.care, e.loc)
        rep.same("%s: element position of %s" % (doc.name, an), e.data[5], pos, self.care, e.loc)

    def of(self, a, an, n):
        rep, doc = self.rep, self.doc
        if self.ref is None and not self.seq:
            return None
        k = self.at(a, an)
        if k is None:
            return None
        w = (WIDTH.get(a.get("type")) or (0, 0))[0] // 8
        c = comps(a)
        h = self.header(k, an, d_mul(num(w * c), n))
        lp = self.seq[k + 1] if k + 1 < len(self.seq) else None
        if not rep.check(isinstance(lp, Loop), "%s: block of %s" % (doc.name, an), h.loc, "the header is not followed by one record per particle"):
            return None
        rep.same("%s: %s: one record per particle" % (doc.name, an), leaf(lp.trip), n, self.care, lp.loc)
        vals = []
        for x in lp.events:
            if isinstance(x, Loop):
                if any(isinstance(y, Ev) and y.kind == "binwrite" for y in interp.walk_events(x.events)):
                    raise Unmodelled("inner loop of a block")
                continue
            if x.kind == "binwrite" and self.mine(x.data[0]):
                if restrict(x.g, self.care) is not TRUE:
                    if any(y.kind == "fld" for y in x.g.deps):
                        rep.fail("%s: block of %s" % (doc.name, an), x.loc, "an element is written only when " + short(x.g, 200))
                        return None
                    raise Unmodelled("conditional element of a block")
                pos = d_add(d_add(h.data[5], num(8 + w * len(vals))), d_mul(num(w * c), dat(lp.it)))
                self.elem(x, a, an, pos)
                vals.append((x.data[1], x.loc))
        return lp, vals

    def single(self, a, an):
        rep, doc = self.rep, self.doc
        if not self.seq:
            return None
        k = self.at(a, an)
        if k is None:
            return None
        w = (WIDTH.get(a.get("type")) or (0, 0))[0] // 8
        h = self.header(k, an, num(w))
        e = self.seq[k + 1] if k + 1 < len(self.seq) else None
        if not rep.check(isinstance(e, Ev), "%s: block of %s" % (doc.name, an), h.loc, "the header is not followed by one value"):
            return None
        self.elem(e, a, an, d_add(h.data[5], num(8)))
        return e.data[1], e.loc


def skeleton(rep, doc, tree, n, care):
    """grid, counts and header attributes"""
    name = doc.name
    rep.check(tree.tag == "VTKFile" and tree.get("type") == "UnstructuredGrid", "%s: an unstructured grid" % name, doc.loc, "%s %s" % (tree.tag, tree.get("type")))
    rep.check(tree.get("header_type") == "UInt64", "%s: 64-bit block headers are declared" % name, doc.loc, "header_type is %s" % tree.get("header_type"))
    rep.check(tree.get("byte_order") == "LittleEndian", "%s: byte order of this machine" % name, doc.loc, "byte_order is %s" % doc.show(tree.get("byte_order") or ""))
    g = [x for x in tree if x.tag == "UnstructuredGrid"]
    p = [x for x in g[0] if x.tag == "Piece"] if g else []
    if rep.check(len(g) == 1 and len(p) == 1, "%s: one grid of one piece" % name, doc.loc, "%d grids, %d pieces" % (len(g), len(p))):
        for k in ("NumberOfPoints", "NumberOfCells"):
            one_value(rep, doc, p[0].get(k) or "", k, n, INTS, care)
        for sec in ("Points", "PointData", "Cells"):
            rep.check(len([x for x in p[0] if x.tag == sec]) == 1, "%s: section %s" % (name, sec), doc.loc, "not exactly one %s element in the piece" % sec)
        rep.check(any(x.tag == "FieldData" for x in g[0]), "%s: section FieldData" % name, doc.loc, "no FieldData element in the grid")


def s24(rep):
    """both vtu documents: same arrays, types, components, values; counts; offsets, lengths and element positions of the binary form"""
    both = {}
    for binary in (False, True):
        l = arrays(rep, binary)
        for care, doc, arr, tree, n, fld, W, f in l:
            skeleton(rep, doc, tree, n, care)
            tab = {}
            blocks = Blocks(rep, doc, W, tree, care) if binary else None
            for (sec, an), a in arr.items():
                if sec == "FieldData":
                    continue
                d = content(rep, doc, a, n, an, blocks, care)
                if d is None:
                    continue
                lp, vals = d
                c = comps(a)
                rep.check(len(vals) == c, "%s: %s has as many values as components" % (doc.name, an), lp.loc, "%d values, %d components" % (len(vals), c))
                common = Subst({lp.it: dat(COMMON)})
                vv = []
                for v in vals:
                    if not binary and v[0] != "v":
                        raise Unmodelled("conditional value of " + an)
                    vv.append(common.d(v[0] if binary else v[1]))
                    if not binary and a.get("type", "").startswith(("Int", "UInt")):
                        rep.check(v[2] in INTS, "%s: %s holds integers" % (doc.name, an), v[3], "written as %s" % v[2])
                tab[(sec, an)] = (a.get("type"), c, vv, lp.loc)
                if not binary:
                    rep.check(a.get("format") == "ascii", "%s: %s is ASCII" % (doc.name, an), doc.loc, "format %s" % a.get("format"))
            ft = arr.get(("FieldData", "Time"))
            if ft is not None:
                rep.check(ft.get("NumberOfTuples") == "1", "%s: one time value" % doc.name, doc.loc, "NumberOfTuples %s" % ft.get("NumberOfTuples"))
                if binary:
                    v = blocks.single(ft, "Time")
                    if v is not None:
                        tab[("FieldData", "Time")] = (ft.get("type"), 1, [v[0]], v[1])
                else:
                    m = doc.mk((ft.text or "").strip())
                    if m is not None and m[0] == "v":
                        tab[("FieldData", "Time")] = (ft.get("type"), 1, [m[1]], m[3])
            both.setdefault(binary, []).append((care, doc, tab))
    for ca, da, ta in both.get(False, []):
        for cb, db_, tb in both.get(True, []):
            care = d_and(ca, cb)
            if care is FALSE:
                continue
            for k in sorted(set(ta) | set(tb), key=str):
                if not rep.check(k in ta and k in tb, "array %s is in both forms" % k[1], da.loc, "array %s is only in the %s form" % (k[1], "ASCII" if k in ta else "binary")):
                    continue
                a, b = ta[k], tb[k]
                rep.check(a[0] == b[0], "type of %s agrees" % k[1], b[3], "ASCII %s, binary %s" % (a[0], b[0]))
                if rep.check(a[1] == b[1] and len(a[2]) == len(b[2]), "components of %s agree" % k[1], b[3], "ASCII %d, binary %d" % (a[1], b[1])):
                    for x, y in zip(a[2], b[2]):
                        rep.same("values of %s agree" % k[1], y, x, care, b[3])


COMMON = fresh_it()
