"""The program as a whole: symbolic inputs and the cut points of the analysis."""
import time
import core
from core import *
import interp
from interp import Interp, LV, Agg, ARGS, A, Ev
from db import T_INT, T_DOUBLE, strip_templates as core_strip

GHOST = None


def exclude(a, name, vals):
    """the type of a listed neighbour is never Ghost (established for setNeighbors by property S04)"""
    if a.kind == "fld" and a.args[0] == "type" and GHOST is not None:
        x = a.args[2].as_atom() if isinstance(a.args[2], Poly) else None
        if x is not None and x.kind == "nbid" and x.args[0] == a.args[1]:
            return tuple(v for v in vals if v != GHOST)
    return vals


core.EXCLUDE = exclude


def enum_value(db, name, enumerator):
    for n, v in db.enums[name]["values"]:
        if n == enumerator:
            return v
    raise Unmodelled("enumerator %s::%s" % (name, enumerator))


STEPWISE = ("fld", "nbid", "nbsize", "state", "solution", "solverinfo", "it", "clk")


class World:
    def __init__(self, db):
        global GHOST
        self.db = db
        self.I = Interp(db)
        self.I.world = self
        GHOST = enum_value(db, "ParticleType", "Ghost")
        self.nb = {}
        self.load_tried = False
        self.N = atom("size", "particles", nn=True)
        self.N.info = "int"
        self.cuts = []        # (epoch, {name: D before the cut})

    # ------------------------------------------------------------------ particles
    def particle_vector(self, lv):
        """(root, path of the element storage) of a Particles object"""
        d = self.I.simp(lv if isinstance(lv, D) else lv.d)
        if not d.is_leaf:
            raise Unmodelled("conditional particle container")
        r = d.leaf
        root, path, idx = self.I.split_ref(r)
        c = set()
        for p in self.I.st[root]:
            if p[:len(path)] == path and "[]" in p and p[-2] == "position":
                c.add(p[:p.index("[]")])
        if len(c) != 1:
            raise Unmodelled("particle storage not found")
        return root, c.pop()

    def cut_neighbors(self, I, this, args, e):
        """a neighbour search: positions, velocities and types become fresh atoms of a new epoch; the lists hold
        exactly the non-ghost particles within the search radius (S04)"""
        if I.live is not TRUE:
            raise Finding("S03", "a neighbour search happens in every step", I.where(e), "it is skipped unless " + short(I.live, 300))
        root, base = self.particle_vector(args[0])
        st = I.st[root]
        ep = len(I.epochs) + 1
        if I.depth:
            raise Unmodelled("neighbour search inside a loop")
        n = self.I.simp(st[base + ("#",)])
        defs = {}
        a0, a1 = ARGS[0], ARGS[1]
        el = base + ("[]",)
        for p in list(st):
            if p[:len(el)] != el:
                continue
            defs[p[len(el):]] = st[p]
        new = {}
        for f in ("position", "velocity"):
            for c in ("0", "1", "2"):
                new[(f, c)] = dat(atom("fld", f + "." + c, ep, patom(a0)))
        ty = evar(atom("fld", "type", ep, patom(a0)), "ParticleType")
        new[("type",)] = ty
        ghost = node_is(ty, GHOST)
        core.NBSIZE[ep] = as_poly(n.leaf)
        nb = atom("nbid", ep, patom(a0), patom(a1), nn=True)
        nb.info = "int"
        d2 = ZERO
        for c in ("0", "1", "2"):
            x = d_sub(Subst({a0: dat(nb)}).d(new[("position", c)]), new[("position", c)])
            d2 = d_add(d2, d_mul(x, x))
        sz = atom("nbsize", ep, patom(a0), nn=True)
        sz.info = "int"
        stale = atom("stale", "n", ep, patom(a0), nn=True)
        stale.info = "int"
        new[("neighbors", "#")] = ite(ghost, dat(stale), dat(sz))
        sid = atom("stale", "id", ep, patom(a0), patom(a1), nn=True)
        sid.info = "int"
        new[("neighbors", "[]", "id")] = ite(ghost, dat(sid), dat(nb))
        new[("neighbors", "[]", "distance")] = ite(ghost, dat(atom("stale", "d", ep, patom(a0), patom(a1))), d_sqrt(d2))
        I.epochs[ep] = {"defs": defs, "this": this, "where": I.where(e), "live": I.live, "state": {p: d for p, d in st.items()},
                        "re": self.search_radius(I, this)}
        for p, d in new.items():
            if el + p not in st:
                raise Unmodelled("particle member " + ".".join(p))
            st[el + p] = d
        I.emit("search", (ep, n), e)
        return leaf(VOID)

    def search_radius(self, I, this):
        try:
            return I.read(I.field(this, "re"), (), "num")
        except Unmodelled:
            return None

    def initial_particles(self, lv, tag=0):
        """generic particle collection: ids are indices (S18), accelerations are zero, no neighbour lists yet"""
        I = self.I
        r = lv.d.leaf
        root, path, idx = I.split_ref(r)
        lay = I.layout(lv.ty)
        st = I.st[root]
        for p, k in lay:
            q = path + p
            if "[]" not in p:
                if p[-1] == "#":
                    st[q] = dat(self.N)
                continue
            rel = p[p.index("[]") + 1:]
            if rel == ("id",):
                st[q] = A(0)
            elif rel[0] == "acceleration":
                st[q] = ZERO
            elif rel == ("neighbors", "#"):
                st[q] = ZERO
            elif rel[0] == "neighbors":
                continue
            else:
                a = atom("fld", ".".join(rel), tag, patom(ARGS[0]))
                if rel == ("density",):
                    a = atom("fld", ".".join(rel), tag, patom(ARGS[0]), pos=True, nn=True)
                if rel == ("fluidType",):
                    a.info = "int"
                st[q] = I.tv(k, a)
        core.NBSIZE[tag] = patom(self.N)

    # ------------------------------------------------------------------ cut points
    def hook_neighbors(self):
        self.I.hooks["NeighborSearcher::setNeighbors"] = self.cut_neighbors

    def hook_refvalues(self):
        def h(I, lv, e):
            if not e["args"] or e["fn"].get("cc") in ("copy", "move"):
                return False
            args = [I.scalar(I.rv(a)) for a in e["args"]]
            key = tuple(as_poly(I.simp(a).leaf) if I.simp(a).is_leaf else I.simp(a) for a in args)
            n0 = atom("n0", *key, pos=True, nn=True)
            la = atom("lambda0", *key, pos=True, nn=True)
            I.store(lv, Agg({("n0",): dat(n0), ("lambda",): dat(la)}))
            I.emit("refvalues", tuple(args), e)
            return True
        self.I.hooks["ctor:RefValues::RefValues"] = h

    def hook_load(self):
        """the particle loader returns a generic particle collection and a start time"""
        def h(I, this, args, e):
            fn = e["fn"]
            ty = I.ty(fn["ret"]) if isinstance(fn["ret"], int) else None
            r = I.newroot("obj")
            lv = LV(leaf(RefV("ptr", r)), ty)
            I.emit("load", tuple(I.scalar(a if isinstance(a, D) else I.load(a)) for a in args), e)
            if I.tries:
                self.load_tried = True
                I.do_throw(None, e, d_and(I.live, bvar(atom("fails", "load"))))
            I.st[r][("first",)] = dat(atom("cfg", "startTime", "particles"))
            self.initial_particles(LV(I.field(lv.d, "second"), ty.el[1]))
            return I.load(lv)
        for q in ("ParticlesLoader::Interface::load",):
            self.I.hooks[q] = h

    def hook_calc(self):
        """the pressure calculation is a stage boundary: the number densities it is given and the pressures it
        returns become fresh atoms, their definitions are recorded"""
        names = set()
        base = [r for r in self.db.recs.values() if r.n == "PressureCalculator::Interface"]
        if len(base) != 1:
            raise Unmodelled("class PressureCalculator::Interface")
        for r in self.db.recs.values():
            if self.db.derived(r.usr, base[0].usr):
                names.add(r.n + "::calc")
        self.calcs = []
        busy = [False]

        def h(I, this, args, e):
            if busy[0]:
                return NotImplemented
            if I.depth:
                raise Unmodelled("pressure calculation inside a loop")
            root, b = self.particle_vector(args[0])
            st = I.st[root]
            k = len(self.calcs) + 1
            rec = {"k": k, "where": I.where(e), "events0": len(I.ev)}
            p = b + ("[]", "numberDensity")
            d = st[p]
            a = d.leaf.as_atom() if d.is_leaf and isinstance(d.leaf, Poly) else None
            rec["numberDensity"] = d
            if not (a is not None and a.kind == "fld" and a.args[2].as_atom() is ARGS[0]):
                st[p] = dat(atom("fld", "numberDensity", "calc%d" % k, patom(ARGS[0])))
            rec["n"] = st[p]
            rec["before"] = {q: d for q, d in st.items()}
            self.calcs.append(rec)
            busy[0] = True
            l0 = I.live
            try:
                fn = e["fn"]
                if fn.get("virt") and not e.get("nonvirt"):
                    v = I.call_virtual(this, fn, core_strip(fn["q"]), args, e)
                else:
                    v = I.call_func(self.db.funcs[fn["usr"]], this, args, e)
            finally:
                busy[0] = False
            if isinstance(v, LV):
                v = I.load(v)
            rec["after"] = {q: d for q, d in I.st[root].items()}
            rec["live0"], rec["live1"] = l0, I.live
            rec["size"], rec["value"] = I.simp(v.m[("#",)]), I.simp(v.m[("[]",)])
            rec["events1"] = len(I.ev)
            if I.live is FALSE:
                return v
            I.live = l0
            return Agg({("#",): rec["size"], ("[]",): dat(atom("fld", "P", k, patom(ARGS[0])))})
        for q in names:
            self.I.hooks[q] = h

    def hook_exports(self):
        def mk(name):
            def h(I, this, args, e):
                vals = []
                for a in args:
                    v = I.load(a) if isinstance(a, LV) else a
                    vals.append(v)
                I.emit("export", (name, this, tuple(vals), dict(I.st[this.leaf.root]) if this.is_leaf else None), e)
                return leaf(VOID)
            return h
        for n in ("toProf", "toVtu", "toCsv"):
            self.I.hooks["ParticlesExporter::" + n] = mk(n)

    # ------------------------------------------------------------------ whole program
    def make_simulation(self, trace=False):
        """run the constructor of Simulation on a symbolic settings file and particle file"""
        I = self.I
        self.hook_neighbors()
        self.hook_refvalues()
        self.hook_load()
        self.hook_calc()
        self.hook_exports()
        f = [f for f in self.db.fn("Simulation::Simulation") if f.kind == "ctor"]
        if len(f) != 1:
            raise Unmodelled("Simulation constructor")
        f = f[0]
        I.trace = trace
        ty = I.rec_ty(self.db.recs[f.rec])
        r = I.newroot("objSimulation")
        self.sim = LV(leaf(RefV("ptr", r)), ty)
        args = []
        for i, p in enumerate(f.o["params"]):
            pt = f.tu.ty(p["t"])
            rr = I.newroot("argpath")
            lv = LV(leaf(RefV("ptr", rr)), pt)
            a = atom("sym", "arg:" + (p["n"] or str(i)))
            a.info = "str"
            I.store(lv, leaf(Str((a,))))
            args.append(lv)
        I.call_func(f, self.sim.d, args, {"l": f.line})
        return self.sim

    def settle(self):
        """forget the guards of the phase that just ended: everything that follows happens only if it was reached"""
        I = self.I
        g = I.live
        for r, dct in I.st.items():
            for p, d in dct.items():
                dct[p] = restrict(d, g)
        I.live = TRUE
        self.reached = g

    def step(self):
        """one time step from a generic state"""
        I = self.I
        self.settle()
        self.init_events, I.ev = I.ev, []
        self.init_loops, I.loops = I.loops, []
        f = self.method("MPS::stepForward")
        self.mps = I.field(self.sim.d, "mps")
        root, base = self.particle_vector(self.mps)
        self.init_acc = {p[-1]: I.st[root][p] for p in I.st[root] if p[:len(base) + 2] == base + ("[]", "acceleration")}
        for p in list(I.st[root]):
            if p[:len(base) + 1] == base + ("[]",) and p[len(base) + 1] in ("pressure", "numberDensity", "boundaryCondition", "minimumPressure", "sourceTerm"):
                rel = p[len(base) + 1:]
                I.st[root][p] = I.tv(I.kind_of(I.st[root][p]), atom("fld", ".".join(rel), 0, patom(ARGS[0])))
        self.ploc = (root, base)
        self.run_generic(f)

    def run_generic(self, f):
        """run the step from a state in which everything an earlier step may have changed is arbitrary"""
        I = self.I
        start = I.snapshot()
        live0 = I.live
        self.generic, self.later = {}, {}
        wide = False
        for rnd in range(8):
            I.st = {r: dict(d) for r, d in start.items()}
            for (r, p), d in self.generic.items():
                I.st.setdefault(r, {})[p] = d
                I.serials.setdefault(r, 0)
            before = I.snapshot()
            I.live = live0
            I.ev, I.loops = [], []
            I.epochs.clear()
            self.calcs.clear()
            if not self.bounded(lambda: I.call_func(f, self.mps, [], {"l": f.line}), not wide):
                # the concrete first step is too large: start again from a generic state of everything a step may assign
                self.generic.update(self.assigned(f, before))
                wide = True
                continue
            more = {}
            for r, dct in I.st.items():
                static = r.startswith("static:") or r.startswith("g:")
                if r not in before and not static:
                    continue
                for p, d in dct.items():
                    b = before.get(r, {}).get(p)
                    if (r, p) in self.later:
                        w, fs = self.later[(r, p)], bvar(atom("firststep"))
                        if d is not w and any(restrict(restrict(d, I.live), c) is not restrict(restrict(w, I.live), c) for c in (fs, d_not(fs))):
                            del self.later[(r, p)]
                            more[(r, p)] = self.state_atom(r, p, d)
                        continue
                    if (r, p) in self.generic:
                        if self.generic[(r, p)] is not d and not any(x.kind == "state" for x in self.generic[(r, p)].deps):
                            more[(r, p)] = self.state_atom(r, p, d)
                        continue
                    if r not in before:
                        # initialised during this step: a later step sees the value of the first one
                        more[(r, p)] = d if not any(x.kind in STEPWISE for x in d.deps) \
                            else self.state_atom(r, p, d)
                    elif b is not d and not (b is not None and b.is_leaf and isinstance(b.leaf, Poly) and self.is_start(b)) and not self.is_start_enum(b):
                        if I.kind_of(d) == "ref":
                            continue
                        if rnd == 0 and b is not None and "[]" not in p and not any(x.kind in STEPWISE for x in d.deps | b.deps):
                            # one value before the first step, another one ever after
                            self.later[(r, p)] = d
                            more[(r, p)] = ite(bvar(atom("firststep")), b, d)
                        else:
                            more[(r, p)] = self.state_atom(r, p, d)
            if not more:
                return
            self.generic.update(more)
        raise Unmodelled("the state carried from step to step does not stabilise")

    def bounded(self, go, first):
        if not first:
            go()
            return True
        I = self.I
        keep = {k: (list(v) if isinstance(v, list) else v) for k, v in vars(I).items()
                if k in ("depth", "frames", "brk", "tries", "loc_stack", "omp_next", "noresolve", "pyidx", "ctx", "live", "access_hook", "max_unroll")}
        core.DEADLINE[0] = time.time() + 45
        try:
            go()
        except core.TooLarge:
            vars(I).update(keep)
            return False
        finally:
            core.DEADLINE[0] = None
        return True

    def assigned(self, f, before):
        """scalar members of the object (and static variables) that the functions of its class assign"""
        I = self.I
        names = set()

        def walk(e):
            if isinstance(e, list):
                for x in e:
                    walk(x)
            elif isinstance(e, dict):
                k = e.get("k")
                t = e.get("e") if k == "un" and e.get("op") in ("++", "--") else e.get("a") if k in ("asg", "casg") else None
                while isinstance(t, dict) and t.get("k") == "cast":
                    t = t.get("e")
                if isinstance(t, dict) and t.get("k") == "mem":
                    names.add(t.get("f"))
                for x in e.values():
                    if isinstance(x, (dict, list)):
                        walk(x)
        for g in self.db.funcs.values():
            if g.rec == f.rec and g.kind != "ctor":
                walk(g.o)
        out = {}
        root, path, _ = I.split_ref(self.mps.leaf)
        for p, d in before[root].items():
            if p[:len(path)] == path and len(p) == len(path) + 1 and p[-1] in names and I.kind_of(d) != "ref":
                out[(root, p)] = self.state_atom(root, p, d)
        for r, dct in I.st.items():
            if r.startswith("static:") or r.startswith("g:"):
                for p, d in dct.items():
                    if p[-1:] != ("#",) and "[]" not in p and I.kind_of(d) == "num":
                        out[(r, p)] = self.state_atom(r, p, d)
        return out

    def state_atom(self, r, p, d):
        n = sum(1 for x in p if x == "[]")
        a = atom("state", r.split("#")[0] + "." + ".".join(p), *[patom(ARGS[i]) for i in range(n)], nn=True if p[-1:] == ("#",) else None)
        if p[-1:] == ("#",):
            a.info = "int"
        return self.I.tv(self.I.kind_of(d), a)

    def is_start(self, b):
        a = b.leaf.as_atom()
        return a is not None and a.kind == "fld" and a.args[1] == 0

    def is_start_enum(self, b):
        return b is not None and not b.is_leaf and len(b.vars) == 1 and getattr(b.var.arg, "kind", "") == "fld" and b.var.arg.args[1] == 0

    def pfield(self, *rel):
        root, base = self.ploc
        return self.I.st[root][base + ("[]",) + rel]

    # ------------------------------------------------------------------ single functions
    def sym_object(self, ty, name):
        """object of static type ty whose members are symbolic; collections of particles are generic ones"""
        I = self.I
        r = I.newroot("obj" + name)
        lv = LV(leaf(RefV("ptr", r)), ty)
        self.sym_fill(lv, name)
        return lv

    def sym_fill(self, lv, name):
        I = self.I
        ref = lv.d.leaf
        root, path, _ = I.split_ref(ref)
        lay = I.layout(lv.ty)
        if lay is None:
            return
        st = I.st[root]
        part = [p for p, k in lay if "[]" in p and p[p.index("[]") + 1:] == ("position", "0")]
        pv = {p[:p.index("[]")] for p in part}
        for p, k in lay:
            if any(p[:len(x)] == x for x in pv):
                continue
            n = sum(1 for x in p if x == "[]")
            a = atom("sym", ".".join((name,) + p), *[patom(ARGS[i]) for i in range(n)], nn=True if p[-1:] == ("#",) else None)
            if k == "ref":
                continue
            st[path + p] = I.tv(k, a)
        for x in pv:
            sub = LV(I.field(lv.d, *x), self.vec_ty(lv.ty, x))
            self.initial_particles(sub)

    def vec_ty(self, ty, path):
        from db import Ty
        for f in path:
            r = self.db.recs.get(ty.usr)
            nxt = None
            for g in r.fields:
                if g["n"] == f:
                    nxt = r.tu.ty(g["t"])
            if nxt is None:
                raise Unmodelled("member " + f)
            ty = nxt
        return ty

    def this_of(self, q, name="this"):
        f = self.method(q) if isinstance(q, str) else q
        return self.sym_object(self.I.rec_ty(self.db.recs[f.rec]), name)

    def call(self, f, this=None, args=None):
        """analyse one function on symbolic arguments (args: parameter name or index -> value)"""
        I = self.I
        args = args or {}
        vals = []
        for i, p in enumerate(f.o["params"]):
            pt = f.tu.ty(p["t"])
            v = args.get(i, args.get(p["n"]))
            if v is None:
                v = self.sym_object(pt, p["n"] or "arg%d" % i)
            elif isinstance(v, D) and pt.ref:
                v = I.materialise(v, pt, "arg")
            vals.append(v)
        return I.call_func(f, this.d if this is not None else None, vals, {"l": f.line})

    def method(self, q):
        l = self.db.fn(q)
        if len(l) != 1:
            raise Unmodelled("%d functions named %s" % (len(l), q))
        return l[0]


def node_is(d, v):
    """boolean: enumeration value d equals enumerator value v"""
    return apply(("node_is", v), lambda x: TRUE if isinstance(x, En) and x.v == v else FALSE, d)
