"""Settings (S19): every entry of the settings file reaches the quantity it names, and only that.

Two parts: the members of the loaded settings, and the role the entries play in every value the rules of the other properties look at.
For the second part the comparisons of those rules are repeated with everything but the settings abstracted away: a value is reduced to
the set of its products of settings (with their coefficients, per kind of the remaining factors) and of the settings that decide its
cases. A formula that is wrong in another way than in its settings is the business of the other property."""
from base import *
import lib
import physics
import pressure
import quant
import collide
import program
import search
import loaders

SETTING = ("cfg", "hascfg", "n0", "lambda0")


def is_setting(a):
    return a.kind in SETTING


class View:
    """the settings in a value"""

    def __init__(self):
        self.memo = {}

    def of(self, x):
        k = id(x) if not isinstance(x, (D, Poly)) else (type(x).__name__, x)
        r = self.memo.get(k)
        if r is None:
            out = set()
            self.walk(x, out, set())
            r = self.memo[k] = frozenset(out)
        return r

    def walk(self, x, out, seen):
        if isinstance(x, D):
            if x.id in seen:
                return
            seen.add(x.id)
            if not any(is_setting(a) for a in x.deps):
                return
            if x.is_leaf:
                self.walk(x.leaf, out, seen)
                return
            a = x.var.arg
            if x.var.kind == "sgn" and isinstance(a, Poly):
                # a comparison: products relative to one of them
                self.poly(a, out, seen, True)
            else:
                self.walk(a, out, seen)
            for v, k in x.kids:
                self.walk(k, out, seen)
            if x.dflt is not None:
                self.walk(x.dflt, out, seen)
        elif isinstance(x, Poly):
            self.poly(x, out, seen, False)
        elif isinstance(x, core.Atom):
            if is_setting(x):
                out.add(("uses", str(x)))
            elif any(is_setting(a) for a in x.deps):
                for y in x.args:
                    self.walk(y, out, seen)
        elif isinstance(x, (tuple, frozenset, list)):
            for y in x:
                self.walk(y, out, seen)
        elif isinstance(x, Str):
            for y in x.parts:
                self.walk(y, out, seen)

    def poly(self, p, out, seen, rel):
        for m, c in p.t:
            mine = tuple(sorted((str(a), e) for a, e in m if is_setting(a)))
            for a, e in m:
                if not is_setting(a):
                    self.walk(a, out, seen)
            if mine:
                out.add(("in", mine) if rel else ("in", mine, abs(c)))


class SettingsView(Report):
    """a report in which only differences in the settings count"""

    def __init__(self, rep, what):
        Report.__init__(self, rep.pid, rep.db)
        self.rep, self.what, self.view = rep, what, View()
        self.compared = self.differ = 0

    def same(self, name, code, spec, care=TRUE, where=""):
        bad = mismatch(code, spec, care)
        self.compared += 1
        if bad is None:
            return True
        self.differ += 1
        code, spec = restrict(code, care), restrict(spec, care)
        a, b = self.view.of(code), self.view.of(spec)
        if a != b:
            extra = sorted(str(x[1:]) for x in a - b)
            lost = sorted(str(x[1:]) for x in b - a)
            self.rep.fail("%s: %s" % (self.what, name), where, "the settings it depends on: %s%s; computed %s, required %s" % (
                "not as required: " + ", ".join(extra)[:300] if extra else "", " missing: " + ", ".join(lost)[:300] if lost else "", bad[1][:300], bad[2][:300]))
        return False

    def check(self, cond, name, where="", detail=""):
        return bool(cond)

    def fail(self, name, where, detail):
        pass

    def undecided(self, name, detail, where="", trace=""):
        raise Unmodelled("%s: %s" % (name, detail))


def optional(name, tn, default):
    return program.optional(name, tn, default)


def members():
    """(name in the loaded settings, required value); the ones derived from several entries are left to the second part"""
    out = [("dim", cfg("dim", "int"))]
    for n in ("particleDistance", "dt", "endTime", "outputPeriod", "cflCondition", "kinematicViscosity", "defaultDensity", "compressibility",
              "relaxationCoefficientForPressure", "soundSpeed", "coefficientOfRestitution"):
        out.append((n, cfg(n)))
    out.append(("numPhysicalCores", cfg("numPhysicalCores", "int")))
    out.append(("surfaceDetection_numberDensity_threshold", cfg("surfaceDetection-numberDensity-threshold")))
    out.append(("surfaceDetection_particleDistribution_threshold", cfg("surfaceDetection-particleDistribution-threshold")))
    out.append(("surfaceDetection_particleDistribution", bvar(lib.cfgatom("surfaceDetection-particleDistribution", "bool"))))
    for k, c in enumerate("xyz"):
        lo, hi = cfg("domainMin/%d" % k), cfg("domainMax/%d" % k)
        out += [("domain.%sMin" % c, lo), ("domain.%sMax" % c, hi), ("gravity.%d" % k, cfg("gravity/%d" % k))]
    out.append(("xyzInput", optional("xyz-input", "bool", TRUE)))
    out.append(("gNorm", optional("gravity-norm", "double", ZERO)))
    out.append(("gAngle", optional("gravity-angle", "double", ZERO)))
    out.append(("outputVtkInBinary", optional("outputVtkInBinary", "bool", FALSE)))
    out.append(("pressureCalculationMethod", cfgstr("pressureCalculationMethod")))
    return out


def loaded(rep):
    """the settings as they are handed on by the loader"""
    core.NANMODE[0] = False
    W = World(rep.db)
    W.hook_load()
    f = W.method("Loader::load")
    inp = W.call(f, W.this_of(f))
    rep.note(W)
    m = inp.m if isinstance(inp, Agg) else {}
    got = 0
    for name, want in members():
        p = ("settings",) + tuple(name.split("."))
        if p in m:
            got += 1
            rep.same("the loaded settings: " + name, m[p], want, W.I.live, f.file)
    rep.stats["settings_compared"] = got


def simulation(rep):
    """the constructed simulation"""
    S = Step(rep)
    W = S.W
    root = W.sim.d.leaf.root
    st = W.I.st[root]
    n = 0
    for p, d in sorted(st.items(), key=str):
        # copies of settings kept by the simulation are unchanged by a time step
        if "settings" in p and "[]" not in p:
            name = ".".join(p[p.index("settings") + 1:])
            want = dict(members()).get(name)
            if want is not None:
                n += 1
                rep.same("the settings used by the time step: " + name, d, want, S.care, "MPS")
    rep.stats["settings_in_use"] = n


def s19(rep):
    loaded(rep)
    simulation(rep)
    compared = differ = 0
    for what, f in (("collisions", collide.s02), ("neighbour search", search.s04), ("domain", search.s05), ("prediction", physics.s07), ("pressure gradient", physics.s08),
                    ("pressure equation", pressure.s09), ("implicit pressure", pressure.s10), ("explicit pressure", pressure.s11), ("surface detection", pressure.s12),
                    ("reference values", quant.s13), ("Courant number", quant.s14), ("gravity", quant.s20), ("run", program.s22)):
        V = SettingsView(rep, what)
        try:
            f(V)
        except core.Finding as ex:
            raise Unmodelled(str(ex))
        compared += V.compared
        differ += V.differ
        rep.functions |= V.functions
        rep.stats["values_compared"] = compared
        for k, v in V.stats.items():
            if isinstance(v, int):
                rep.stats[k] = max(rep.stats.get(k, 0), v)
        rep.ok("%s: %d values depend on the settings they should" % (what, V.compared))
    loaders.loader_of(SettingsView(rep, "particle file"))
