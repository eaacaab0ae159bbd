"""The program from main to the last snapshot (S21, S22): effects, their order and the exact conditions under which they happen."""
from base import *
import lib
from lib import satom, batom, strl


class Program:
    """main(argc, argv) with the particle loader, the time step and the file writers cut out"""

    def __init__(self, db):
        core.NANMODE[0] = False
        self.db = db
        self.W = W = World(db)
        I = self.I = W.I
        W.hook_neighbors()
        W.hook_refvalues()
        W.hook_load()
        self.inrun = False
        self.after = None
        self.mpsref = None
        I.hooks["MPS::stepForward"] = self.h_step
        for n in ("toProf", "toVtu", "toVtuAscii", "toVtuBinary", "toCsv"):
            I.hooks["ParticlesExporter::" + n] = self.h_export(n)
        I.hooks["Simulation::run"] = self.h_run
        self.init_events, self.init_loops, self.reached = None, None, None
        f = [f for f in db.fn("main") if f.file.endswith("src/main.cpp")]
        if len(f) != 1:
            raise Unmodelled("main of the simulation")
        self.main = f[0]
        self.value = W.call(self.main)
        self.end = I.live
        self.events = I.ev
        if self.init_events is None:
            # the run is unreachable from main
            self.init_events, self.events, self.reached = I.ev, [], FALSE

    def h_run(self, I, this, args, e):
        if self.inrun:
            return NotImplemented
        self.inrun = True
        self.init_events, I.ev = I.ev, []
        self.init_loops, I.loops = I.loops, []
        keep = {r: dict(I.st[r]) for r in (f.rvroot for f in I.frames) if r is not None and r in I.st}
        self.W.settle()
        I.st.update(keep)
        self.reached = self.W.reached
        self.mpsref = I.field(this, "mps")
        self.first = self.particles(self.mpsref)
        r = I.call_func(self.db.funcs[e["fn"]["usr"]], this, args, e)
        I.live = d_and(I.live, self.reached)
        return r

    def particles(self, ref):
        I = self.I
        root, b = self.W.particle_vector(ref)
        st = I.st[root]
        out = {p[len(b) + 1:]: d for p, d in st.items() if p[:len(b) + 1] == b + ("[]",)}
        out[("#",)] = st[b + ("#",)]
        return out

    def h_step(self, I, this, args, e):
        I.emit("step", (this,), e)
        root, b = self.W.particle_vector(this)
        st = I.st[root]
        for p in list(st):
            if p[:len(b) + 1] == b + ("[]",) and p[len(b) + 1] in ("position", "velocity", "pressure", "numberDensity"):
                st[p] = apply("stepped", lambda x: dat(atom("stepped", x)), st[p])
        self.after = self.particles(this)
        return leaf(VOID)

    def h_export(self, name):
        def h(I, this, args, e):
            if not self.inrun:
                raise Unmodelled("snapshot before the run")
            vals = [I.scalar(I.load(a) if isinstance(a, LV) else a) for a in args]
            rec = {"exp": self.particles(this), "mps": self.particles(self.mpsref), "after": self.after}
            I.emit("export", (name, tuple(vals), rec), e)
            return leaf(VOID)
        return h


def program(rep):
    P = getattr(rep.db, "_program", None)
    if P is None:
        P = rep.db._program = Program(rep.db)
    rep.note(P.W)
    return P


OUT = ("--output", "-o")


def argpath(n):
    return satom("argv", n)


def optional(name, tn, default):
    h = bvar(atom("hascfg", name))
    v = bvar(atom("cfg", name, tn)) if tn == "bool" else cfg(name, tn)
    return ite(h, v, default)


PARTS = {("type",): "type", ("fluidType",): "fluid type", ("position", "0"): "position x", ("position", "1"): "position y", ("position", "2"): "position z",
         ("velocity", "0"): "velocity x", ("velocity", "1"): "velocity y", ("velocity", "2"): "velocity z", ("pressure",): "pressure",
         ("numberDensity",): "number density", ("boundaryCondition",): "boundary condition", ("#",): "number of particles"}


class Snapshots:
    """exports of one place (before the loop / in the loop) by format"""

    def __init__(self):
        self.ex = {"prof": [], "vtu": [], "csv": []}

    def add(self, e, g, k):
        name, vals, rec = e.data
        kind = {"toProf": "prof", "toCsv": "csv"}.get(name, "vtu")
        binary = None
        if name == "toVtu":
            binary = vals[3] if len(vals) > 3 else FALSE
        elif name in ("toVtuAscii", "toVtuBinary"):
            binary = TRUE if name == "toVtuBinary" else FALSE
        self.ex[kind].append((k, g, vals, rec, binary, e.loc))


def s22(rep):
    """effects of Simulation::run: three exports of the initial state, then per iteration one step, time + dt, and the three exports
    exactly when time - start >= period * (number of snapshots so far), with consecutive numbers and one state"""
    P = program(rep)
    I = P.I
    if not rep.check(P.reached is not FALSE, "the simulation is run", P.main.file, "Simulation::run cannot be reached from main"):
        return
    start = dat(atom("cfg", "startTime", "particles"))
    dt, period, endt = cfg("dt"), cfg("outputPeriod"), cfg("endTime")
    n0 = Const().n0("NumberDensity")
    binflag = optional("outputVtkInBinary", "bool", FALSE)
    loop = None
    pre = Snapshots()
    early = False
    for k, e in enumerate(P.events):
        if isinstance(e, Loop):
            inner = [x for x in interp.walk_events(e.events) if isinstance(x, Ev) and x.kind in ("step", "export")]
            if not inner:
                continue
            if loop is not None:
                rep.fail("one time loop", e.loc, "steps or snapshots in a second loop")
                return
            loop = e
            rep.check(not early, "no step before the time loop", e.loc, "a step is computed outside the loop that checks the end time")
        elif e.kind == "step":
            early = True
            rep.fail("steps happen only while the end time is not reached", e.loc, "a step is computed outside the time loop")
        elif e.kind == "export":
            if loop is not None:
                rep.fail("snapshots follow the output period", e.loc, "a snapshot is written after the time loop")
                continue
            pre.add(e, e.g, k)
    if not rep.check(loop is not None, "the run has a time loop", "Simulation::run", "no loop computes time steps"):
        return
    # ---------------------------------------------------------------- initial state
    created = {}
    for e in P.init_events + [x for x in P.events if isinstance(x, Ev)]:
        if isinstance(e, Ev) and e.kind == "fs" and e.data[0] in ("create_directories", "create_directory"):
            d = e.data[1]
            created[d] = d_or(created.get(d, FALSE), e.g)
    for e in interp.walk_events(P.init_events):
        if isinstance(e, Ev) and e.kind == "step":
            rep.fail("the initial state is that of the particle file", e.loc, "a step is computed before the run starts")
    idx = d_and(ge(A(0), ZERO), lt(A(0), dat(P.W.N)))
    rep.same("the initial state is that of the particle file: number of particles", P.first[("#",)], dat(P.W.N), where="Simulation::Simulation")
    for p in PARTS:
        if p[0] in ("position", "velocity", "fluidType"):
            rep.same("the initial state is that of the particle file: " + PARTS[p], P.first[p], dat(atom("fld", ".".join(p), 0, patom(interp.ARGS[0]))), idx, "Simulation::Simulation")
        elif p[0] == "type":
            rep.same("the initial state is that of the particle file: type", P.first[p], evar(atom("fld", "type", 0, patom(interp.ARGS[0])), "ParticleType"), idx, "Simulation::Simulation")
    base = argpath("--output")

    def path(kind, mid):
        return leaf(Str(base.leaf.parts + ("/%s/output_" % kind,) + mid + (".%s" % kind,)))
    for kind, l in pre.ex.items():
        if not rep.check(len(l) == 1, "the initial state is saved as %s" % kind, "Simulation::run", "%d %s files of the initial state are written" % (len(l), kind)):
            continue
        k, g, vals, rec, binary, loc = l[0]
        rep.same("the initial %s is always written" % kind, g, TRUE, where=loc)
        rep.same("snapshot 0 has number 0000 (%s)" % kind, vals[0], path(kind, ("0000",)), where=loc)
        rep.same("snapshot 0 carries the start time (%s)" % kind, vals[1], start, where=loc)
        state_check(rep, rec, rec["mps"], kind, "of the initial state", loc)
        vtu_args(rep, kind, vals, binary, n0, binflag, loc)
        d = leaf(Str(base.leaf.parts + ("/" + kind,)))
        cg = created.get(d, FALSE)
        rep.check(mismatch(restrict(cg, P.reached), TRUE, P.reached) is None, "directory %s exists before the first snapshot" % kind, loc,
                  "the directory %s of the output directory is not always created" % kind)
    # ---------------------------------------------------------------- loop
    rs = loop.resolver
    f = rs.d if rs is not None else (lambda d: d)
    it = dat(loop.it)
    T0 = d_add(start, d_mul(dt, it))
    T1 = d_add(T0, dt)
    rep.same("the run goes on exactly while time < end time", f(loop.cond) if loop.cond is not None else TRUE, lt(T0, endt), where=loop.loc)
    rep.same("the time loop is always entered", loop.guard, TRUE, where=loop.loc)
    for x, d in loop.E.items():
        rep.check(d is FALSE or x == "exit", "the time loop ends only at the end time (%s)" % x, loop.loc, "the loop is left when " + short(d, 300))
    x = loop.E.get("exit", FALSE)
    rep.check(x is FALSE, "the run is not ended by an exit", loop.loc, "the program exits inside the time loop when " + short(x, 300))
    steps = []
    snaps = Snapshots()
    flatl = list(flat(loop.events))
    for k, (e, ls, g) in enumerate(flatl):
        if e.kind == "step":
            steps.append((k, g, ls, e))
        elif e.kind == "export":
            if ls:
                rep.fail("three files per snapshot", e.loc, "a snapshot is written in an inner loop")
                return
            snaps.add(e, g, k)
        elif e.kind == "fs" and e.data[0] not in ("create_directories", "create_directory"):
            rep.fail("snapshots are not removed or replaced", e.loc, "%s during the run" % e.data[0])
    if rep.check(len(steps) == 1 and not steps[0][2], "one step per iteration", loop.loc, "%d calls of the time step in one iteration" % len(steps)):
        rep.same("every iteration computes a step", steps[0][1], TRUE, where=steps[0][3].loc)
    kstep = steps[0][0] if steps else -1
    if not all(snaps.ex.values()):
        for kind, l in snaps.ex.items():
            rep.check(l, "snapshots are written as %s" % kind, loop.loc, "no %s file is written in the time loop" % kind)
        return
    # ---------------------------------------------------------------- cadence
    G = FALSE
    for k, g, vals, rec, binary, loc in snaps.ex["prof"]:
        G = d_or(G, g)
    nsnap = fresh_it()
    mp = {}
    cnt = 0
    Gf = f(G)
    for K, ki in loop.keys.items():
        if any(p == "[]" for p in K[1]) or ki.I is None or ki.N is None:
            continue
        mu = atom("mu", loop.L, K)
        try:
            c = restrict(d_sub(f(ki.N), dat(mu)), Gf)
        except Unmodelled:
            continue
        if mu in c.deps or mu in ki.I.deps or c is ZERO or any(x.kind in ("mu", "it") for x in c.deps):
            continue
        if mismatch(f(ki.N), ite(Gf, d_add(dat(mu), c), dat(mu)), TRUE) is None:
            # advanced by c exactly when a snapshot is written; nsnap counts the initial snapshot too
            mp[mu] = d_add(ki.I, d_mul(c, d_sub(dat(nsnap), ONE)))
            cnt += 1
    core.set_upper(nsnap, None)
    if not rep.check(cnt, "snapshots are counted", loop.loc, "no variable counts the snapshots written so far (it must grow by one exactly when one is written)"):
        return
    sub = Subst(mp)
    g_ = lambda d: sub.d(f(d))
    rep.same("a snapshot is written exactly when due", g_(Gf), ge(d_sub(T1, start), d_mul(period, dat(nsnap))), where=snaps.ex["prof"][0][5])
    for kind, l in snaps.ex.items():
        tot = FALSE
        for k, g, vals, rec, binary, loc in l:
            tot = d_or(tot, f(g))
        rep.same("all formats are written together (%s)" % kind, tot, Gf, where=l[0][5])
        for k, g, vals, rec, binary, loc in l:
            care = f(g)
            rep.check(k > kstep, "snapshots follow the step (%s)" % kind, loc, "the %s file of an iteration is written before its step" % kind)
            rep.same("snapshots are numbered consecutively (%s)" % kind, g_(vals[0]), path(kind, (atom("fmt", "int", patom(nsnap), pconst(4), pconst(48)),)), where=loc)
            rep.same("snapshots carry the current time (%s)" % kind, f(vals[1]), T1, where=loc)
            state_check(rep, rec, rec["after"] or rec["mps"], kind, "after the step", loc, f(g), f)
            vtu_args(rep, kind, vals, binary, n0, binflag, loc, f, care)
    rep.stats["snapshot_writers"] = sum(len(l) for l in snaps.ex.values()) + sum(len(l) for l in pre.ex.values())


def state_check(rep, rec, want, kind, when, loc, care=TRUE, f=lambda d: d):
    for p, n in PARTS.items():
        if p not in want:
            raise Unmodelled("particle member " + ".".join(p))
        x = rec["exp"].get(p)
        if x is None:
            raise Unmodelled("exported particle member " + ".".join(p))
        rep.same("%s written: %s %s" % (kind, n, when), restrict(f(x), care), restrict(f(want[p]), care), care, loc)


def vtu_args(rep, kind, vals, binary, n0, binflag, loc, f=lambda d: d, care=TRUE):
    if kind != "vtu":
        return
    rep.same("vtu: reference number density", f(vals[2]) if len(vals) > 2 else ZERO, n0, where=loc)
    rep.same("vtu: binary or ASCII as configured", f(binary), binflag, care, where=loc)


# ------------------------------------------------------------------ S21
def ends_badly(P, B):
    """the exits under condition B all report failure, and the program does not return normally under B"""
    bad = []
    for e, ls, g in flat(P.init_events):
        if e.kind == "exit" and d_and(g, B) is not FALSE:
            c = e.data[0]
            for cond, v in leaf_conds(c):
                k = as_poly(v).const() if isinstance(v, Poly) else None
                if d_and(d_and(g, B), cond) is FALSE:
                    continue
                if k is None or int(k) % 256 == 0:
                    bad.append((e.loc, "exit status %s" % short(c)))
    return bad


def s21(rep):
    """for each start-up error B: no step or snapshot is reachable under B and every exit taken under B has a nonzero status; input
    copies are made only under 'target does not exist'"""
    P = program(rep)
    setting, out = argpath("--setting"), argpath("--output")
    ex = lambda p: batom("exists", p)
    part = None
    loads = []
    for e, ls, g in flat(P.init_events):
        if e.kind == "load":
            loads.append((e, g))
    rep.check(loads, "particles are loaded at start-up", "Loader::load", "no particle file is loaded before the run")
    if not loads:
        return
    part = loads[0][0].data[0]
    for e, g in loads[1:]:
        rep.same("one particle file", e.data[0], part, where=e.loc)
    want = satom("weakly_canonical", leaf(Str(satom("parent_path", setting).leaf.parts + ("/",) + (lib.cfgatom("particlesPath", "string"),))))
    rep.same("the particle file named in the settings is loaded", part, want, where=loads[0][0].loc)
    extn = satom("extension", part)
    known = FALSE
    for x in (".csv", ".prof", ".vtu"):
        known = d_or(known, streq(extn, strl(x)))
    meth = cfgstr("pressureCalculationMethod")
    copies = {}

    def target(src):
        return leaf(Str(out.leaf.parts + ("/",) + satom("filename", src).leaf.parts))
    errors = {
        "the setting file does not exist": d_not(ex(setting)),
        "the output directory does not exist": d_not(ex(out)),
        "the particle file has an unknown extension": d_not(known),
        "the pressure calculation method is unknown": d_not(d_or(streq(meth, strl("Implicit")), streq(meth, strl("Explicit")))),
        "the command line is wrong": batom("argerr"),
    }
    dests = {}
    for what, src in (("settings", setting), ("particle", part)):
        dests[what] = target(src)
        errors["a %s file of that name is already in the output directory" % what] = ex(dests[what])
    # ---------------------------------------------------------------- copies
    throwing = TRUE
    for e, ls, g in flat(P.init_events):
        if e.kind != "fs" or e.data[0] in ("create_directories", "create_directory"):
            continue
        if e.data[0] not in ("copy_file", "copy"):
            rep.fail("start-up only copies the input files", e.loc, "%s at start-up" % e.data[0])
            continue
        src, dst = e.data[1], e.data[2]
        what = [w for w in dests if mismatch(lib.as_strd(dst) if hasattr(lib, "as_strd") else dst, dests[w], g) is None]
        if not rep.check(what, "copies go to the output directory under the same name", e.loc, "copy of %s to %s" % (short(src), short(dst))):
            continue
        w = what[0]
        copies[w] = d_or(copies.get(w, FALSE), g)
        rep.same("the copied file is the %s file" % w, src, setting if w == "settings" else part, g, e.loc)
        guarded = d_and(g, ex(dests[w])) is FALSE
        if len(e.data) > 3:
            opts = [x for x in e.data[3:]]
            rep.check(guarded, "existing files are left untouched (%s)" % w, e.loc, "the copy is not conditional on the absence of the target and its mode is %s" % ", ".join(short(x) for x in opts))
        elif not guarded:
            # the plain form refuses to overwrite and throws
            throwing = d_and(throwing, d_not(d_and(g, ex(dests[w]))))
            rep.ok("existing files are left untouched (%s): the copy refuses to overwrite" % w, e.loc)
        else:
            rep.ok("existing files are left untouched (%s)" % w, e.loc)
    reached = d_and(P.reached, throwing)
    for w in dests:
        rep.check(w in copies and mismatch(restrict(copies[w], reached), TRUE, reached) is None, "the %s file is copied to the output directory" % w, "Loader::load",
                  "the run can start without a copy of the %s file in the output directory" % w)
    # ---------------------------------------------------------------- errors
    for name, B in errors.items():
        hit = d_and(reached, B)
        rep.check(hit is FALSE, "no step or snapshot when " + name, P.main.file, "the run starts although %s: %s" % (name, short(hit, 300)))
        for loc, what in ends_badly(P, B):
            rep.fail("nonzero status when " + name, loc, "the program ends with " + what)
        rep.ok("nonzero status when " + name)
    # a normal return from main only after the run
    early = [e for e, ls, g in flat(P.init_events) if e.kind in ("step", "export", "open")]
    for e in early:
        rep.fail("no output before start-up is complete", e.loc, e.kind)
    norm = d_and(P.end, d_not(P.reached))
    for cond, v in leaf_conds(restrict(P.value, norm)):
        if d_and(cond, norm) is FALSE:
            continue
        k = as_poly(v).const() if isinstance(v, Poly) else None
        rep.check(k is not None and int(k) % 256, "main reports failure when it does not run", P.main.file, "main returns %s without a run when %s" % (short(leaf(v)), short(d_and(cond, norm), 300)))
    # ---------------------------------------------------------------- unreadable particle files: see the loaders
    import loaders
    loaders.unreadable(rep)
