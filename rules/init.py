"""Initialisation before use (S28): no observable value, effect or decision is a function of memory that has no value yet."""
from base import *
import content
import exporters
import ids
import loaders
import program
import search
import quant
import dialogue


def bad_atoms(d):
    """uninitialised memory a value depends on; the state of the standard streams is the library's own"""
    return sorted({".".join(str(x) for x in a.args[:1]) for a in d.deps if a.kind == "uninit" and not str(a.args[0]).startswith("g:")})


def parts(x, care=TRUE, name=""):
    """(name, value, condition under which it is a value) of everything in the data of an event"""
    if isinstance(x, D):
        yield name, x, care
    elif isinstance(x, Poly):
        yield name, leaf(x), care
    elif isinstance(x, Agg):
        yield from members(x.m, care, name)
    elif isinstance(x, dict):
        if x and all(isinstance(k, tuple) for k in x):
            yield from members(x, care, name)
        else:
            for k, v in x.items():
                yield from parts(v, care, "%s %s" % (name, k))
    elif isinstance(x, (tuple, list)):
        for k, v in enumerate(x):
            yield from parts(v, care, name)


def members(m, care, name=""):
    """elements of collections count for indices below the size only"""
    for p, d in m.items():
        g, k = care, 0
        for i, s in enumerate(p):
            if s == "[]":
                n = m.get(p[:i] + ("#",))
                if n is not None:
                    g = conj([g, cmp(">=", A(k), ZERO, False), cmp("<", A(k), n, False)])
                k += 1
        yield name + " " + ".".join(str(s) for s in p), d, g


class Uses:
    def __init__(self, rep):
        self.rep = rep
        self.seen = set()
        self.n = 0
        self.reported = set()
        self.roots = set()      # objects whose members are looked at inside loops, too

    def value(self, what, where, d, care):
        self.n += 1
        if not bad_atoms(d):
            return
        d = restrict(d, care)
        if care is FALSE or not bad_atoms(d):
            return
        hit = self.feasible(d, care)
        if hit is None or (what, where) in self.reported:
            return
        self.reported.add((what, where))
        self.rep.fail("initialised before use: " + what, where, "depends on the uninitialised %s" % ", ".join(bad_atoms(d))
                      + (" when " + short(hit, 300) if hit is not TRUE else ""))

    def feasible(self, d, care):
        """the condition under which the value depends on uninitialised memory"""
        r = FALSE
        for c, v in leaf_conds(d):
            g = d_and(c, care)
            if bad_atoms(leaf(v)) and feasible(g) is not FALSE:
                r = d_or(r, g)
            elif bad_atoms(c) and feasible(g) is not FALSE:
                r = d_or(r, g)
        return None if r is FALSE else r

    def events(self, name, evs, live=TRUE):
        for e in evs:
            self.event(name, e, live)

    def event(self, name, e, g0):
        if isinstance(e, Loop):
            g = d_and(g0, e.guard)
            if g is FALSE:
                return
            self.value("%s: whether a loop is run" % name, e.loc, e.guard, g0)
            if e.tripD is not None and isinstance(e.tripD, D):
                self.value("%s: rounds of a loop" % name, e.loc, e.tripD, g)
            for k, c in (e.E or {}).items():
                self.value("%s: the end of a loop" % name, e.loc, c, g)
            for (root, path), ki in e.keys.items():
                if root in self.roots and isinstance(ki.N, D):
                    self.value("%s: %s after a round of a loop" % (name, ".".join(path[-2:])), e.loc, ki.N, g)
            for x in e.events:
                self.event(name, x, g)
            return
        g = d_and(g0, e.g)
        if g is FALSE:
            return
        self.value("%s: whether '%s' happens" % (name, e.kind), e.loc, e.g, g0)
        for what, d, care in parts(e.data):
            self.value("%s: %s%s" % (name, e.kind, what), e.loc, d, d_and(g, care))

    def world(self, name, W):
        self.events(name, W.I.ev, W.I.live)

    def state(self, name, where, m, care):
        for what, d, g in parts(m):
            self.value("%s:%s" % (name, what), where, d, d_and(care, g))


def s28(rep):
    U = Uses(rep)
    quiet = Report(rep.pid, rep.db)
    # start-up and one time step
    S = Step(rep)
    W = S.W
    U.roots = {W.ploc[0]}
    U.events("start-up", W.init_events)
    U.events("time step", W.I.ev, S.care)
    U.roots = set()
    root, base = W.ploc
    size = {base + ("#",): W.I.st[root][base + ("#",)]}
    el = base + ("[]",)
    U.state("particles after a time step", "MPS::stepForward", {p: d for p, d in W.I.st[root].items() if p[:len(base)] == base}, S.care)
    for ep, end, where in S.trans:
        U.state("particles in phase %d" % ep, where, {el + p: d for p, d in list(end.items())} | size, S.care)
    for rec in W.calcs:
        for k in ("numberDensity", "value", "size"):
            U.value("pressure calculation: " + k, rec["where"], rec[k], conj([rec.get("live0", TRUE), rec.get("live1", TRUE), S.care]))
    # members of the simulation's objects that the run uses are uses in these events; the objects' own state is not observable
    # reference values, neighbour search
    for f in rep.db.fn("RefValues::RefValues"):
        if f.kind == "ctor" and f.o["params"]:
            for dim in (2, 3):
                core.NANMODE[0] = False
                V = World(rep.db)
                this = V.this_of(f)
                V.call(f, this, {0: num(dim), 1: cfg("particleDistance"), 2: cfg("radiusRatioForGradient")})
                U.world("reference values", V)
                for p, d in V.I.st[this.d.leaf.root].items():
                    U.value("reference values: " + ".".join(p), "%s:%d" % (f.file, f.line), d, V.I.live)
    V, L = search.searches(quiet, False)
    for s in L:
        U.events("neighbour search", s.ev)
        st = s.st.get(s.root, {})
        U.state("neighbour lists after a search", "NeighborSearcher::setNeighbors",
                {p: d for p, d in st.items() if p[:len(s.base)] == s.base and "neighbors" in p and p[-1] == "#"} | {s.base + ("#",): st[s.base + ("#",)]}, TRUE)
    # the program around it
    P = program.program(rep)
    U.events("program", P.init_events or [])
    U.events("run", P.events, P.end)
    for fn in ("toProf", "toCsv", "toVtu"):
        V, f, n, fld, opens = exporters.file_docs(quiet, fn)
        U.world(fn, V)
    # readers: on the program's own documents, on others and on any file
    docs = loaders.written(quiet)
    for ext, f in loaders.loader_of(quiet).items():
        path = lambda: Str((atom("sym", f.o["params"][0]["n"]),))
        cases = [("reading " + w.name, w.doc, w.care) for w in docs[ext]] + [("reading " + x[0], x[1], TRUE) for x in loaders.samples(ext)]
        for name, doc, care in cases:
            M = loaders.Made(quiet, f, content.Content(doc, path()))
            U.events(name, M.W.I.ev, d_and(care, M.live))
            U.state(name, f.file, M.value, d_and(care, M.live))
        M = loaders.Made(quiet, f)
        U.events("reading any *%s file" % ext, M.W.I.ev, TRUE)
        if M.time is not None:
            U.value("reading any *%s file: start time" % ext, f.file, M.time, M.live)
    # generators
    gens = [(n, d) for n, d in sorted(rep.db.programs().items()) if "generator" in n]
    for name, db in gens:
        got = []
        ids.one_generator(quiet, name, db, got)
        U.world(name, got[0])
    if gens:
        for words in ((), ("y",), ("n",), ("maybe", "y")):
            A_ = dialogue.Asked(quiet, gens[0][1], (".prof", ".vtu", ".csv"), [Str((w,)) for w in words])
            U.world("dialogue", A_.W)
            for q, args, g, where, cont in A_.writes:
                for a in args:
                    U.value("dialogue: arguments of " + q, where, a, g)
    rep.functions |= quiet.functions
    for k, v in quiet.stats.items():
        rep.stats[k] = rep.stats.get(k, 0) + v
    rep.stats["values_and_conditions_looked_at"] = U.n
    rep.ok("%d values, decisions and effects use initialised memory only" % U.n, "src, generator")
