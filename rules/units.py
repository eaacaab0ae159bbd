"""S15: physical dimensions.  Every value a step or the start-up computes is a Laurent polynomial over named quantities; it is
well formed iff all its terms, and all the terms it is compared with, have one dimension."""
from base import *
from physics import pressure_def
from pressure import inner
from laws import observables, pair_effects
from fractions import Fraction as Fr


def dim(l=0, t=0, m=0):
    return (Fr(l), Fr(t), Fr(m))


NONE = dim()
LEN, TIME, MASS = dim(1), dim(0, 1), dim(0, 0, 1)
VEL, ACC = dim(1, -1), dim(1, -2)
DENS, PRES = dim(-3, 0, 1), dim(-1, -2, 1)
FIELD = {"position": LEN, "velocity": VEL, "acceleration": ACC, "density": DENS, "pressure": PRES, "P": PRES, "X": PRES,
         "minimumPressure": PRES, "numberDensity": NONE, "sourceTerm": dim(0, -2), "fluidType": NONE, "type": NONE, "boundaryCondition": NONE,
         "id": NONE, "distance": LEN}
CFG = {"dim": NONE, "particleDistance": LEN, "dt": TIME, "startTime": TIME, "endTime": TIME, "finishTime": TIME, "outputPeriod": TIME, "cflCondition": NONE,
       "domainMin": LEN, "domainMax": LEN, "gravity": ACC, "gravity-norm": ACC, "gravity-angle": NONE, "kinematicViscosity": dim(2, -1),
       "fluidDensity": DENS, "density": DENS, "wallDensity": DENS, "radiusRatioForNumberDensity": NONE, "radiusRatioForGradient": NONE,
       "radiusRatioForLaplacian": NONE, "collisionDistanceRatio": NONE, "coefficientOfRestitution": NONE, "soundSpeed": VEL,
       "compressibility": dim(1, 2, -1), "relaxationCoefficientForPressure": NONE, "surfaceDetection-numberDensity-threshold": NONE,
       "surfaceDetection-particleDistribution-threshold": NONE, "numPhysicalCores": NONE, "saveInterval": TIME}


class Bad(Exception):
    pass


def mul(a, b, e=1):
    return tuple(x + y * e for x, y in zip(a, b))


def show(d):
    n = [("%s^%s" % (u, x) if x != 1 else u) for u, x in zip("LTM", d) if x]
    return "*".join(n) or "1"


class Units:
    def __init__(self):
        self.memo = {}
        self.atoms = set()
        self.polys = 0
        self.conds = 0
        self.bad = []         # (kind, text)
        self.done = set()

    # ANY: a value that is zero or fits every dimension
    def same(self, ds, what):
        r = None
        for d, t in ds:
            if d is None:
                continue
            if r is None:
                r = (d, t)
            elif r[0] != d:
                self.bad.append("%s: %s [%s] and %s [%s]" % (what, short(r[1], 160), show(r[0]), short(t, 160), show(d)))
                return d
        return r[0] if r else None

    def poly(self, p, what="sum of terms"):
        k = ("p", p.id)
        if k in self.memo:
            return self.memo[k]
        self.polys += 1
        ds = []
        for m, c in p.t:
            d = NONE
            for a, e in m:
                x = self.atom(a)
                if x is None:
                    d = None
                    break
                d = mul(d, x, e)
            ds.append((d, leaf(Poly({m: c}))))
        r = self.memo[k] = self.same(ds, what)
        return r

    def scalar(self, x, what):
        if isinstance(x, D):
            return self.value(x, what)
        if isinstance(x, Poly):
            return self.poly(x, what)
        return NONE

    def require(self, x, d, what):
        r = self.scalar(x, what)
        if r is not None and r != d:
            self.bad.append("%s must have dimension %s, but %s has %s" % (what, show(d), short(x if isinstance(x, D) else leaf(x), 160), show(r)))

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        self.memo[a] = None
        r = self.memo[a] = self.atom1(a)
        self.atoms.add(a)
        return r

    def atom1(self, a):
        k = a.kind
        if k == "fld":
            f = a.args[0].split(".")[0]
            if f not in FIELD:
                raise Unmodelled("dimension of member " + f)
            return FIELD[f]
        if k == "mu":
            path = [p for p in a.args[1][1] if p not in ("0", "1", "2", "[]", "#")]
            if path and path[-1] in FIELD:
                return FIELD[path[-1]]
            raise Unmodelled("dimension of %s" % show_atom(a))
        if k == "cfg":
            n = a.args[0].split("/")[0]
            if n not in CFG:
                raise Unmodelled("dimension of setting " + n)
            return CFG[n]
        if k in ("it", "arg", "bv", "nbid", "nbsize", "size", "pi", "n0", "cnt", "stale", "solverinfo", "cur", "divzero"):
            if k == "n0":
                self.require(a.args[1], LEN, "particle distance of a reference value")
                self.require(a.args[2], LEN, "radius of a reference value")
            return NONE
        if k == "lambda0":
            self.require(a.args[1], LEN, "particle distance of a reference value")
            self.require(a.args[2], LEN, "radius of a reference value")
            return dim(2)
        if k == "solution":
            return PRES
        if k == "sqrt":
            d = self.poly(a.args[0])
            return None if d is None else tuple(x / 2 for x in d)
        if k in ("abs", "poly"):
            return self.poly(a.args[0])
        if k in ("floor", "ceil", "trunc"):
            self.require(a.args[0], NONE, "argument of a rounding")
            return NONE
        if k == "fn":
            for x in a.args[1:]:
                self.require(x, NONE, "argument of %s" % a.args[0])
            return NONE
        if k == "sum":
            lo, hi, mono, q, h = a.args
            self.require(lo, NONE, "bound of a sum")
            self.require(hi, NONE, "bound of a sum")
            d = self.scalar(q, "summand")
            m = self.poly(Poly({mono: F1}))
            return None if d is None or m is None else mul(d, m)
        if k == "exq":
            self.value(a.args[2], "condition")
            return NONE
        if k == "ext":
            ds = [(self.scalar(a.args[1], "initial value"), a.args[1] if isinstance(a.args[1], D) else leaf(a.args[1]))]
            for lo, hi, g, v, h in a.args[2]:
                self.scalar(g, "condition")
                ds.append((self.scalar(v, "candidate"), v if isinstance(v, D) else leaf(v)))
            return self.same(ds, "minimum or maximum of")
        if k == "tmp" or k == "state":
            n = str(a.args[0]).split(".")
            for x in reversed(n):
                if x in FIELD:
                    return FIELD[x]
                if x in CFG:
                    return CFG[x]
            if n[-1] in ("courant", "#"):
                return NONE
            if n[-1] == "time":
                return TIME
            raise Unmodelled("dimension of carried value " + ".".join(n))
        if k == "hascfg":
            return NONE
        raise Unmodelled("dimension of %s" % show_atom(a)[:120])

    def value(self, v, what="value"):
        """dimension of a value; its decisions are examined as well"""
        ds = []
        for x in self.leaves(v):
            if isinstance(x, Poly):
                ds.append((self.poly(x, what), leaf(x)))
        return self.same(ds, "alternatives of " + what)

    def leaves(self, v):
        seen = set()
        out = []

        def go(n):
            if n.id in seen:
                return
            seen.add(n.id)
            if n.is_leaf:
                out.append(n.leaf)
                return
            self.cond(n.var)
            for x, k in n.kids:
                go(k)
            if n.dflt is not None:
                go(n.dflt)
        go(v)
        return out

    def cond(self, v):
        k = ("v", id(v))
        if k in self.memo:
            return
        self.memo[k] = True
        self.conds += 1
        if v.kind == "sgn":
            p = v.arg
            if len(p.t) > 1:
                self.poly(p, "comparison of")
            elif p.t:
                self.poly(p, "sign of")
        elif v.kind == "b" and isinstance(v.arg, Atom) and v.arg.kind not in ("cfg", "hascfg", "opq", "undec"):
            self.atom(v.arg)
        elif v.kind == "e":
            pass


def as_value(v):
    """enumeration values as numbers"""
    return apply("unEn", lambda x: num(x.v) if isinstance(x, En) else leaf(x), v)


def s15(rep):
    """every polynomial, comparison, root, rounding and trigonometric argument that occurs in the values a time step derives
    (positions, velocities, pair impulses, number density, pressure system, pressures, Courant number, thresholds) is
    dimensionally homogeneous, with the dimensions of the settings and particle members as documented"""
    S = Step(rep)
    W = S.W
    vals = []
    for name, c, v, care, where in observables(S, rep):
        nm = name if c is None else "%s[%d]" % (name, c)
        if name.startswith("matrix row"):
            # each row may be scaled on its own: inner particles and particles with a prescribed pressure apart
            rec = pressure_def(S)
            inn = inner(S, rec, S.i)
            vals.append((nm + " of inner particles", ite(d_and(care, inn), v, ZERO), where, dim(0, -2)))
            vals.append((nm + " of particles with prescribed pressure", ite(d_and(care, d_not(inn)), v, ZERO), where, PRES))
            continue
        v = as_value(v)
        vals.append((nm, ite(care, v, ZERO), where, None))
    peps = {p[0] for p in pair_effects(S)}
    for ep, end, where in S.moves():
        if ep in peps:
            continue
        for f, d in (("position", LEN), ("velocity", VEL)):
            for c in "012":
                vals.append(("%s[%s] after phase %d" % (f, c, ep), restrict(end[(f, c)], S.care), S.writers(ep, (f, c)), d))
    want = {"velocity change": VEL, "position change": LEN, "number density": NONE, "explicit pressure": PRES, "minimum pressure": PRES,
            "right-hand": dim(0, -2)}
    root = W.sim.d.leaf.root
    if ("mps", "courant") in W.I.st[root]:
        vals.append(("Courant number", W.I.st[root][("mps", "courant")], "MPS::calCourant", NONE))
    from base import flat
    for e, loops, g in flat(W.I.ev):
        vals.append(("condition of the %s at %s" % (e.kind, e.loc), g, e.loc, None))
    polys = conds = 0
    names = set()
    for nm, v, where, d in vals:
        if d is None:
            for k in want:
                if nm.startswith(k):
                    d = want[k]
        U = Units()
        r = U.value(v, nm)
        if U.bad:
            # alternatives that never occur
            dead = [l for l in leaves_of(v) if feasible(apply(None, lambda x, l=l: TRUE if x is l else FALSE, v)) is FALSE]
            if dead:
                U = Units()
                r = U.value(apply(None, lambda x: ZERO if x in dead else leaf(x), v), nm)
        polys += U.polys
        conds += U.conds
        names |= {a for a in U.atoms}
        rep.check(not U.bad, nm + " is dimensionally homogeneous", where, "; ".join(U.bad[:2]))
        if d is not None and r is not None and not U.bad:
            rep.check(r == d, nm + " has the right dimension", where, "dimension %s instead of %s" % (show(r), show(d)))
    rep.stats["polynomials"] = polys
    rep.stats["comparisons"] = conds
    rep.stats["quantities"] = len(names)
