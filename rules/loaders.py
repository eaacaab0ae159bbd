"""Particle files that are read: what a loader makes of the documents the program itself writes (S25), of documents that are
incomplete (S26), and the ids it hands out (S18)."""
import itertools
import interp
from base import *
from lib import batom, strl, satom
import exporters
import content
from exporters import Doc, NUMS, INTS


class Made:
    """result of one analysis of a loader"""

    def __init__(self, rep, f, C=None):
        core.NANMODE[0] = False
        self.W = W = World(rep.db)
        I = W.I
        self.f = f
        ps = f.o["params"]
        self.path = Str((atom("sym", ps[0]["n"]),))
        self.density = dat(atom("sym", ps[1]["n"]))
        if C is not None:
            with C.active(I):
                self.value = W.call(f, W.this_of(f))
        else:
            self.value = W.call(f, W.this_of(f))
        rep.note(W)
        self.live = I.live
        m = self.value.m if isinstance(self.value, Agg) else {}
        self.time = m.get(("first",))
        self.fields = {}
        self.n = None
        for k, v in m.items():
            # the particle collection: ('second', inner vector, ...)
            if k[0] == "second" and k[-1] == "#" and "[]" not in k:
                self.pre = k[:-1]
                self.n = v
        for k, v in m.items():
            if self.n is not None and k[:len(self.pre) + 1] == self.pre + ("[]",):
                self.fields[k[len(self.pre) + 1:]] = v

    def at(self, it, *p):
        return sub_arg(self.fields[p], dat(it))


def loader_of(rep):
    """{extension: reader} chosen by the program for a particle file"""
    db = rep.db
    core.NANMODE[0] = False
    W = World(db)
    I = W.I
    base = [r for r in db.recs.values() if r.n == "ParticlesLoader::Interface"]
    if len(base) != 1:
        raise Unmodelled("class ParticlesLoader::Interface")
    used = []
    readers = {}
    for r in db.recs.values():
        if r.usr != base[0].usr and db.derived(r.usr, base[0].usr):
            readers[r.n] = r
    W.hook_load()
    mk = I.hooks["ParticlesLoader::Interface::load"]
    del I.hooks["ParticlesLoader::Interface::load"]

    def hook(q):
        def h(I, this, args, e):
            vals = tuple(I.scalar(a if isinstance(a, D) else I.load(a)) for a in args)
            g = d_and(I.live, I.ctx)
            r = mk(I, this, args, e)
            used.append((q, g, vals, I.where(e), r))
            return r
        return h
    for q in readers:
        I.hooks[q + "::load"] = hook(q)
    f = W.method("Loader::load")
    inp = W.call(f, W.this_of(f))
    rep.note(W)
    out = {}
    ran = FALSE
    for q, g, vals, loc, r in used:
        ran = d_or(ran, g)
    ran = d_and(ran, I.live)
    m = inp.m if isinstance(inp, Agg) else {}
    if rep.check(("startTime",) in m, "the loaded start time is handed on", f.file, "no start time in the result"):
        rep.same("the loaded start time is handed on", m[("startTime",)], dat(atom("cfg", "startTime", "particles")), ran, f.file)
    pre = [k[:-1] for k in m if k[0] == "particles" and k[-1] == "#" and "[]" not in k]
    if rep.check(len(pre) == 1, "the loaded particles are handed on", f.file, "no particles in the result"):
        pre = pre[0]
        ref = used[0][4].m
        for k, v in ref.items():
            if k[0] == "second" and "neighbors" not in k:
                rep.same("the loaded particles are handed on (%s)" % ".".join(x for x in k[1:] if x != "[]"), m.get(("particles",) + k[1:], leaf(core.Opq("lost"))), v, ran, f.file)
    for ext in (".prof", ".csv", ".vtu"):
        sel = FALSE
        hit = []
        for q, g, vals, loc, r in used:
            same = streq(satom("extension", vals[0]), strl(ext))
            if d_and(g, same) is not FALSE:
                hit.append((q, loc, vals))
                rep.same("files named *%s: read with the configured default density" % ext, vals[1], cfg("defaultDensity"), d_and(g, same), loc)
        if rep.check(len(hit) == 1, "files named *%s are read by one reader" % ext, f.file, "%d readers" % len(hit)):
            fs = [x for x in db.fn(hit[0][0] + "::load") if x.o.get("body")]
            if len(fs) != 1:
                raise Unmodelled("reader " + hit[0][0])
            out[ext] = fs[0]
    return out


# ------------------------------------------------------------------------------------------------ documents
class Written:
    """a document with the particles it describes"""

    def __init__(self, name, doc, care, n, time, fld, loc, density=None):
        self.name, self.doc, self.care, self.n, self.time, self.fld, self.loc, self.density = name, doc, care, n, time, fld, loc, density


def written(rep):
    """the documents written by the program, by extension"""
    out = {".prof": [], ".csv": [], ".vtu": []}
    quiet = Report(rep.pid, rep.db)
    for ext, fn in ((".prof", "toProf"), (".csv", "toCsv")):
        W, f, n, fld, opens = exporters.file_docs(quiet, fn)
        r = exporters.sole_file(quiet, W, f, opens, ext)
        if r is None:
            continue
        for care in exporters.cases(W, W.I.ev, *r):
            doc = Doc(quiet, W, r[0], care, ext[1:]).build(W.I.ev)
            out[ext].append(Written(ext[1:], doc, care, n, exporters.time_arg(W, f), fld, f.file))
    W, f, n, fld, opens = exporters.file_docs(quiet, "toVtu", {3: FALSE})
    r = exporters.sole_file(quiet, W, f, opens, ".vtu")
    if r is not None:
        for care in exporters.cases(W, W.I.ev, *r):
            doc = Doc(quiet, W, r[0], care, "vtu").build(W.I.ev)
            out[".vtu"].append(Written("vtu", doc, care, n, exporters.time_arg(W, f), fld, f.file))
    rep.functions |= quiet.functions
    return out


class Synthetic:
    """a document given as text; {i:name} stands for a value of the current particle, {name} for a value of the whole file"""

    def __init__(self, n):
        self.marks, self.text = [], ""
        self.lp = interp.Loop()
        self.lp.it = fresh_it()
        self.lp.trip = n
        core.set_upper(self.lp.it, n)
        self.loc = self.lp.loc = "(a particle file)"

    def mk(self, ch):
        return self.marks[ord(ch) - exporters.MARK] if len(ch) == 1 and ord(ch) >= exporters.MARK else None

    def put(self, m):
        self.marks.append(m)
        return chr(exporters.MARK + len(self.marks) - 1)

    def val(self, d, kind):
        return self.put(("v", d, kind, self.loc))

    def field(self, name, kind="double", *p):
        return self.val(dat(atom("fld", name, "file", patom(self.lp.it))), kind)

    def records(self, body):
        return self.put(("loop", self.lp, body))


def samples(ext):
    """documents other than the program's own whose reading is specified: columns in another order, densities present"""
    n = patom(size_atom())
    time = dat(atom("sym", "time"))
    fields = {"type": "int", "fluidType": "int", "x": "double", "y": "double", "z": "double", "vx": "double", "vy": "double", "vz": "double", "density": "double"}

    def fld(*p):
        nm = {("position", "0"): "x", ("position", "1"): "y", ("position", "2"): "z", ("velocity", "0"): "vx", ("velocity", "1"): "vy", ("velocity", "2"): "vz"}.get(p, p[0])
        if nm == "type":
            return lambda it: core.evar(atom("toenum", "ParticleType", patom(atom("fld", nm, "file", patom(it)))), "ParticleType")
        return lambda it: dat(atom("fld", nm, "file", patom(it)))
    out = []
    if ext == ".csv":
        for what, cols in (("csv with densities", "type,fluidType,x,y,z,vx,vy,vz,density"), ("csv with columns in another order", "density,vz,y,type,x,fluidType,vx,z,vy"),
                           ("csv without fluid types and densities", "x,y,z,vx,vy,vz,type")):
            d = Synthetic(n)
            t = [d.val(time, "double"), "\n", d.val(leaf(n), "int"), "\n", cols, "\n"]
            t.append(d.records(",".join(d.field(c, fields[c]) for c in cols.split(",")) + "\n"))
            d.text = "".join(t)
            out.append((what, d, n, time, fld, "density" in cols, "fluidType" in cols))
    if ext == ".vtu":
        P = {"Particle Type": ["type"], "Velocity": ["vx", "vy", "vz"], "Fluid Type": ["fluidType"], "Density": ["density"], "Number Density": ["other"],
             "Pressure": ["other"], "Density Ratio": ["other"]}
        for what, order, q in (("vtu with densities", ["Velocity", "Density", "Number Density", "Fluid Type", "Pressure", "Particle Type"], '"'),
                               ("vtu with arrays in another order", ["Density Ratio", "Fluid Type", "Number Density", "Particle Type", "Density", "Velocity"], "'"),
                               ("vtu without fluid types and densities", ["Pressure", "Particle Type", "Number Density", "Velocity"], '"')):
            d = Synthetic(n)

            def array(nm, cols, ty="Float64"):
                k = ' NumberOfComponents=%s%d%s' % (q, len(cols), q)
                return ["<DataArray type=%s%s%s Name=%s%s%s%s format=%sascii%s>\n" % (q, ty, q, q, nm, q, k, q, q),
                        d.records(" ".join(d.field(c, fields.get(c, "double")) for c in cols) + "\n"), "</DataArray>\n"]
            t = ["<?xml version=%s1.0%s?>\n<VTKFile type=%sUnstructuredGrid%s>\n<UnstructuredGrid>\n<FieldData>\n" % (q, q, q, q)]
            t += ["<DataArray type=%sFloat64%s Name=%sTime%s NumberOfTuples=%s1%s format=%sascii%s>\n" % ((q,) * 8), d.val(time, "double"), "\n</DataArray>\n</FieldData>\n"]
            t += ["<Piece>\n<PointData>\n"]
            for nm in order:
                t += array(nm, P[nm], "Int32" if "Type" in nm else "Float64")
            t += ["</PointData>\n<Points>\n"] + array("Position", ["x", "y", "z"]) + ["</Points>\n</Piece>\n</UnstructuredGrid>\n</VTKFile>\n"]
            d.text = "".join(t)
            out.append((what, d, n, time, fld, "Density" in order, "Fluid Type" in order))
    return out


def size_atom():
    a = atom("filesize", nn=True)
    a.info = "int"
    return a


def reload(rep, f, name, doc, care, n, time, fld, density=None, fluid=True):
    """the generic document; where that cannot be followed, documents with a few particles may still show a violation"""
    try:
        reload1(rep, f, name, doc, care, n, time, fld, density, fluid)
    except Unmodelled as ex:
        a = as_poly(n.leaf).as_atom()
        for k in (2, 1, 3, 0):
            sub = Report(rep.pid, rep.db)
            try:
                reload1(sub, f, "%s with %d particles" % (name, k), doc, care, n, time, fld, density, fluid, {a: num(k)})
            except Unmodelled:
                continue
            if sub.failed():
                rep.obls += sub.obls
                return
        raise ex


def reload1(rep, f, name, doc, care, n, time, fld, density, fluid, fix=None):
    ps = f.o["params"]
    C = content.Content(doc, Str((atom("sym", ps[0]["n"]),)), fix)
    M = Made(rep, f, C)
    loc = f.file
    care = d_and(care, d_not(bvar(atom("isnan", as_poly(time.leaf)))))
    if fix:
        n = Subst(fix).d(n)
    if not rep.check(mismatch(M.live, TRUE, care) is None, "%s: the file is accepted" % name, loc, "the loader does not return when " + short(d_and(care, d_not(M.live)), 300)):
        return
    # column titles
    for e, ls, g in flat(M.W.I.ev):
        if e.kind == "csvheader" and C.csvnames:
            pol = as_poly(e.data[0].leaf if isinstance(e.data[0], D) else e.data[0]).const()
            names = {x for x in e.data[2:] if isinstance(x, str)} | {x.leaf.const() for x in e.data[2:] if isinstance(x, D)}
            extra = [t for t in C.csvnames if t not in names]
            rep.check(not extra or int(pol) & 1, "%s: the column titles are accepted" % name, e.loc, "a file with the columns %s is refused because of %s" % (C.csvnames, extra))
    if not rep.check(M.time is not None and M.n is not None, "%s: start time and particles are returned" % name, loc, "no such values"):
        return
    rep.same("%s: start time" % name, M.time, time, care, loc)
    if not rep.same("%s: number of particles" % name, M.n, n, care, loc):
        return
    k = as_poly(n.leaf).const()
    if k is not None:
        for i in range(int(k)):
            compare(rep, "%s: %%s of particle %d" % (name, i), M, num(i), fld, density, fluid, care, loc)
        return
    it = fresh_it()
    core.set_upper(it, as_poly(n.leaf))
    care = conj([care, cmp(">=", dat(it), ZERO, False), cmp("<", dat(it), n, False)])
    compare(rep, name + ": %s of a particle", M, dat(it), fld, density, fluid, care, loc)


def compare(rep, name, M, i, fld, density, fluid, care, loc):
    def the(p):
        it = fresh_it()
        return Subst({it: i}).d(fld(*p)(it))
    cols = [("type",)] + [(q, c) for q in ("position", "velocity") for c in "012"]
    for p in cols + [("fluidType",)]:
        if p not in M.fields:
            rep.fail(name % exporters_name(p), loc, "not set")
            continue
        got = restrict(sub_arg(M.fields[p], i), care)
        want = the(p)
        if p == ("fluidType",) and not fluid:
            want = ZERO
        if p == ("type",):
            got, want = exporters.as_int(got), exporters.as_int(want)
        rep.same(name % exporters_name(p), got, want, care, loc)
    want = M.density
    if density is not None:
        want = ite(lt(the(("density",)), ZERO), M.density, the(("density",)))
    rep.same(name % "density", restrict(sub_arg(M.fields[("density",)], i), care), want, care, loc)


def exporters_name(p):
    return p[0] if len(p) == 1 else p[0] + " " + "xyz"[int(p[1])]


def s25(rep):
    """reader composed with writer: the reader is analysed on the document of the writer, with n records for an unknown n; time, size
    and every field of the particle at any index must be the written ones"""
    readers = loader_of(rep)
    docs = written(rep)
    for ext, f in readers.items():
        rep.check(docs[ext], "*%s files are written" % ext, "ParticlesExporter", "nothing is written")
        for w in docs[ext]:
            fluid = ext != ".prof"
            reload(rep, f, w.name, w.doc, w.care, w.n, w.time, w.fld, None, fluid)
        for what, d, n, time, fld, dens, fluid in samples(ext):
            reload(rep, f, what, d, TRUE, leaf(n), time, fld, dens or None, fluid)


# ------------------------------------------------------------------------------------------------ incomplete documents
J, K = atom("before", nn=True), atom("after", nn=True)
J.info = K.info = "int"
JUNK = "?"


class Broken:
    """a copy of a document of J + 1 + K particles with one defect, which in a block of records is in record J"""

    def __init__(self, base, n, j=None, k=None):
        """j, k: numbers of records before and after the defect (None: any number)"""
        self.base = base
        self.j = patom(J) if j is None else pconst(j)
        self.k = patom(K) if k is None else pconst(k)
        self.fix = {as_poly(n.leaf).as_atom(): leaf(core.p_add(core.p_add(self.j, self.k), P1))}
        self.marks = []
        self.loc = base.loc
        self.care = TRUE
        self.text = ""
        self.n = len(base.marks)

    def mk(self, ch):
        if len(ch) != 1 or ord(ch) < exporters.MARK:
            return None
        k = ord(ch) - exporters.MARK
        return self.base.marks[k] if k < self.n else self.marks[k - self.n]

    def put(self, m):
        self.marks.append(m)
        return chr(exporters.MARK + self.n + len(self.marks) - 1)

    def map(self, body, lp, idx):
        """text of a record for index idx"""
        out = []
        for ch in body:
            m = self.mk(ch)
            if m is None:
                out.append(ch)
            elif m[0] == "v":
                out.append(self.put(("v", Subst({lp.it: idx}).d(m[1])) + m[2:]))
            else:
                raise Unmodelled("records of records")
        return "".join(out)

    def part(self, lp, body, trip, shift):
        """the records shift .. shift + trip - 1"""
        l2 = interp.Loop()
        l2.it, l2.trip, l2.loc = fresh_it(), trip, lp.loc
        core.set_upper(l2.it, trip)
        return self.put(("loop", l2, self.map(body, lp, leaf(core.p_add(shift, patom(l2.it))))))

    def head(self, lp, body):
        return self.part(lp, body, self.j, core.P0)

    def one(self, lp, body):
        return self.map(body, lp, leaf(self.j))

    def tail(self, lp, body):
        return self.part(lp, body, self.k, core.p_add(self.j, P1))


def defects(w, j=None, k=None):
    """(name, document) for every place of the document in which one value is not a number, one value or record is missing or behind
    which the file ends"""
    base, text = w.doc, w.doc.text
    vtu = "<" in text[:1]
    sep = "," if w.name.startswith("csv") else None

    def fresh():
        return Broken(base, w.n, j, k)

    def at(p):
        return "line %d" % (text[:p].count("\n") + 1)

    def is_record(m):
        return m is not None and m[0] == "loop"
    # ---- the file ends
    cuts = {0}
    for p, ch in enumerate(text):
        if ch == "\n" and p + 1 < len(text) and text[p + 1:].strip():
            cuts.add(p + 1)
    for p in sorted(cuts):
        b = fresh()
        b.text = text[:p]
        yield "the file ends before %s" % at(p), b
    for p, ch in enumerate(text):
        m = base.mk(ch)
        if m is None:
            continue
        if is_record(m):
            lp, body = m[1], m[2]
            what = "a record of " + title(base, text, p)
            spots = [q for q, c in enumerate(body) if base.mk(c) is not None]
            for k, q in enumerate(spots):
                b = fresh()
                b.text = text[:p] + b.head(lp, body) + b.one(lp, body[:q])
                yield "the file ends before value %d of %s" % (k + 1, what), b
            for k, q in enumerate(spots):
                b = fresh()
                b.text = text[:p] + b.head(lp, body) + b.one(lp, body[:q] + JUNK + body[q + 1:]) + b.tail(lp, body) + text[p + 1:]
                yield "value %d of %s is not a number" % (k + 1, what), b
                if vtu or sep:
                    b = fresh()
                    rec = body[:q] + body[q + 1:]
                    if sep:
                        rec = (body[:q].rstrip(sep) + body[q + 1:]).lstrip(sep)
                    b.text = text[:p] + b.head(lp, body) + b.one(lp, rec) + b.tail(lp, body) + text[p + 1:]
                    yield "value %d of %s is missing" % (k + 1, what), b
            b = fresh()
            b.text = text[:p] + b.head(lp, body) + b.tail(lp, body) + text[p + 1:]
            # an array of data that a file need not have counts as absent when it is empty
            b.care = cmp(">", leaf(core.p_add(b.j, b.k)), ZERO, False) if title(base, text, p) in ("Fluid Type", "Density") else TRUE
            yield what + " is missing", b
        elif m[0] == "v":
            b = fresh()
            b.text = text[:p] + JUNK + text[p + 1:]
            yield "the value in %s is not a number" % at(p), b


def title(doc, text, p):
    """what a block of records describes"""
    import re
    head = text[:p].rstrip("\n").split("\n")[-1]
    g = re.search(r"Name=[\"']([^\"']*)", head)
    return g.group(1) if g else "the particles"


def rejected(rep, f, w, what, doc, fix):
    """the reader does not return, or returns nothing but the values of the intact document"""
    name = "%s: %s" % (w.name, what)
    C = content.Content(doc, Str((atom("sym", f.o["params"][0]["n"]),)), fix)
    M = Made(rep, f, C)
    statuses(rep, M, f)
    care = conj([w.care, doc.care, d_not(bvar(atom("isnan", as_poly(w.time.leaf)))), M.live])
    if care is FALSE:
        rep.ok(name + ": rejected", f.file)
        return
    n = Subst(fix).d(w.n)
    loc = f.file

    def same(what, got, want, care):
        bad = mismatch(restrict(got, care), want, care)
        if bad is not None:
            rep.fail(name, loc, "the file is accepted, and %s is %s instead of %s%s" % (what, bad[1], bad[2], " when " + bad[0] if bad[0] else ""))
        return bad is None
    if M.time is None or M.n is None:
        rep.fail(name, loc, "the reader returns nothing")
        return
    if not same("the start time", M.time, w.time, care) or not same("the number of particles", M.n, n, care):
        return
    it = fresh_it()
    size = as_poly(n.leaf).const()
    if size is None:
        core.set_upper(it, as_poly(n.leaf))
        care = conj([care, cmp(">=", dat(it), ZERO, False), cmp("<", dat(it), n, False)])
    cols = [("type",)] + [(q, c) for q in ("position", "velocity") for c in "012"] + [("fluidType",), ("density",)]

    def density(i):
        v = Subst({it: i}).d(w.fld("density")(it))
        return ite(lt(v, ZERO), M.density, v)
    for p in cols:
        for i in [dat(it)] if size is None else [num(i) for i in range(int(size))]:
            got = restrict(sub_arg(M.fields[p], i), care)
            want = (density(i) if w.density else M.density) if p == ("density",) else ZERO if p == ("fluidType",) and not w.fluid else Subst({it: i}).d(w.fld(*p)(it))
            if p == ("type",):
                got, want = exporters.as_int(got), exporters.as_int(want)
            if not same("the %s of a particle" % exporters_name(p), got, want, care):
                return
    rep.ok(name + ": harmless", f.file)


def statuses(rep, M, f):
    """a reader that gives up ends the program with a nonzero status"""
    for e, ls, g in flat(M.W.I.ev):
        if e.kind == "exit":
            for c, v in leaf_conds(e.data[0]):
                k = as_poly(v).const() if isinstance(v, Poly) else None
                if k is None or int(k) % 256 == 0:
                    rep.fail("a rejected file ends the program with a nonzero status", e.loc, "exit status %s" % short(leaf(v)))


def s26(rep):
    """the reader on documents of J + 1 + K particles (any J, K) with a defect in record J or in the header: it must not return, or
    must return what the intact document says. Where the generic document cannot be followed, J, K in {0, 1} are analysed instead"""
    readers = loader_of(rep)
    docs = written(rep)
    few = 0
    for ext, f in readers.items():
        more = [Written(what, d, TRUE, leaf(n), time, fld, f.file, dens) for what, d, n, time, fld, dens, fluid in samples(ext) if dens and fluid][:1]
        for w in docs[ext] + more:
            w.fluid = ext != ".prof"
            for d, (what, doc) in enumerate(defects(w)):
                sub = Report(rep.pid, rep.db)
                try:
                    rejected(sub, f, w, what, doc, doc.fix)
                except Unmodelled:
                    few += 1
                    for j, k in ((0, 0), (1, 1), (0, 1), (1, 0)):
                        what, doc = next(itertools.islice(defects(w, j, k), d, None))
                        rejected(sub, f, w, "%s (%d + 1 + %d particles)" % (what, j, k), doc, doc.fix)
                rep.obls += sub.obls
    rep.stats["defects_analysed"] = sum(1 for o in rep.obls)
    rep.stats["defects_analysed_for_few_particles_only"] = few
    cut_short(rep, readers)
    swallowed(rep)


def ends(rep, M, f, name, B=TRUE):
    """under B the reader does not return, and the exits it takes report failure"""
    hit = d_and(M.live, B)
    rep.check(hit is FALSE, name, f.file, "%s returns particles although %s" % (f.q, name.split(": ")[-1]) if B is TRUE or hit is B else "%s returns when %s" % (f.q, short(hit, 200)))
    for e, ls, g in flat(M.W.I.ev):
        if e.kind == "exit" and d_and(g, B) is not FALSE:
            for c, v in leaf_conds(e.data[0]):
                k = as_poly(v).const() if isinstance(v, Poly) else None
                if d_and(c, d_and(g, B)) is not FALSE and (k is None or int(k) % 256 == 0):
                    rep.fail(name, e.loc, "exit status %s" % short(leaf(v)))


def unreadable(rep):
    """a particle file that cannot be opened (and so has no contents) ends the program"""
    for ext, f in loader_of(rep).items():
        path = Str((atom("sym", f.o["params"][0]["n"]),))
        C = content.Content(Synthetic(P0), path)
        C.opens = FALSE
        ends(rep, Made(rep, f, C), f, "a *%s file is rejected: it cannot be opened" % ext)


def cut_short(rep, readers):
    """csv files without a required column, vtu files without a required array or with appended binary data"""
    n = patom(size_atom())
    for what, d, *rest in samples(".csv"):
        cols = d.text.split("\n")[2].split(",")
        for c in ("type", "x", "y", "z", "vx", "vy", "vz"):
            b = Synthetic(n)
            keep = [x for x in cols if x != c]
            b.text = "".join([b.val(dat(atom("sym", "time")), "double"), "\n", b.val(leaf(n), "int"), "\n", ",".join(keep), "\n",
                              b.records(",".join(b.field(x, "int" if "ype" in x else "double") for x in keep) + "\n")])
            reject_all(rep, readers[".csv"], "%s: column %s is missing" % (what, c), b)
    import re
    for what, d, *rest in samples(".vtu"):
        for a in ("Time", "Position", "Velocity", "Particle Type"):
            b = Synthetic(n)
            b.marks = list(d.marks)
            b.text, k = re.subn(r"<DataArray [^>]*Name=.%s[^>]*>\n[^<]*</DataArray>\n" % a, "", d.text)
            if k != 1:
                raise Unmodelled("sample document without " + a)
            # arrays of no particles are no data
            reject_all(rep, readers[".vtu"], "%s: the array %s is missing" % (what, a), b, TRUE if a == "Time" else cmp(">", leaf(n), ZERO, False))
    quiet = Report(rep.pid, rep.db)
    W, f, n, fld, opens = exporters.file_docs(quiet, "toVtu", {3: TRUE})
    r = exporters.sole_file(quiet, W, f, opens, ".vtu")
    if r is not None:
        for care in exporters.cases(W, W.I.ev, *r):
            doc = Doc(quiet, W, r[0], care, "binary vtu").build(W.I.ev)
            text = "".join(ch for ch in doc.text if not (doc.mk(ch) and doc.mk(ch)[0] in ("bin", "loop")))
            cut = Synthetic(as_poly(n.leaf))
            cut.marks, cut.text = doc.marks, text
            reject_all(rep, readers[".vtu"], "vtu: the data are appended in binary form", cut)


def reject_all(rep, f, name, doc, care=TRUE):
    C = content.Content(doc, Str((atom("sym", f.o["params"][0]["n"]),)))
    ends(rep, Made(rep, f, C), f, name, care)


def swallowed(rep):
    """an exception of the reader ends the program"""
    import program
    P = program.program(rep)
    B = bvar(atom("fails", "load"))
    if P.W.load_tried:
        rep.check(d_and(P.reached, B) is FALSE, "the program ends when the reader gives up", P.main.file, "the run starts although the reader has thrown")
        for loc, what in program.ends_badly(P, B):
            rep.fail("the program ends with a nonzero status when the reader gives up", loc, "it ends with " + what)
    else:
        rep.ok("the program ends when the reader gives up: nothing catches its exceptions")
