"""Obligations, comparison of canonical value flows, and vocabulary for the specifications."""
import core
from core import *
import interp
from interp import ARGS, A, Agg, LV, Loop, Ev
import world
from world import World, node_is, enum_value


class Obl:
    __slots__ = ("name", "status", "where", "detail", "trace", "rule")

    def __init__(self, name, status, where="", detail="", trace="", rule=""):
        self.name, self.status, self.where, self.detail, self.trace, self.rule = name, status, where, detail, trace, rule

    def key(self):
        return "%s @ %s" % (self.name, self.where)

    def record(self, full=False):
        r = {"obligation": self.name, "status": self.status}
        if self.where:
            r["where"] = self.where
        if self.detail:
            r["detail"] = self.detail[:6000 if full else 400]
        return r


class Report:
    def __init__(self, pid, db):
        self.pid, self.db = pid, db
        self.obls = []
        self.stats = {}
        self.functions = set()
        self.reported = set()

    # -------------------------------------------------------------- results
    def ok(self, name, where="", detail=""):
        self.obls.append(Obl(name, "ok", where, detail))

    def fail(self, name, where, detail):
        k = (name, where)
        if k in self.reported:
            return
        self.reported.add(k)
        self.obls.append(Obl(name, "violated", where, detail))

    def undecided(self, name, detail, where="", trace=""):
        self.obls.append(Obl(name, "undecided", where, detail, trace))

    def check(self, cond, name, where="", detail=""):
        if cond:
            self.ok(name, where)
        else:
            self.fail(name, where, detail)
        return bool(cond)

    def failed(self):
        return [o for o in self.obls if o.status == "violated"]

    def undecidable(self):
        return [o for o in self.obls if o.status == "undecided"]

    def analysed(self):
        d = dict(self.stats)
        if self.functions:
            d["functions"] = sorted(self.functions)
        d["translation_units"] = len(self.db.units)
        return d

    # -------------------------------------------------------------- comparison
    def same(self, name, code, spec, care=TRUE, where=""):
        """the code's value equals the specified value wherever care holds"""
        bad = mismatch(code, spec, care)
        if bad is None:
            self.ok(name, where)
            return True
        cond, c, s = bad
        self.fail(name, where, "code computes %s where the property requires %s%s" % (c, s, (" when " + cond) if cond else ""))
        return False

    # -------------------------------------------------------------- shared analyses
    def step(self):
        """the world after start-up and one generic time step"""
        W = getattr(self.db, "_step", None)
        if W is None:
            core.NANMODE[0] = False
            W = World(self.db)
            W.make_simulation()
            W.step()
            self.db._step = W
        self.note(W)
        return W

    def note(self, W):
        self.functions |= {q for q in W.I.called}
        self.stats["loops_summarised"] = self.stats.get("loops_summarised", 0) + W.I.nloops
        self.stats["call_sites_followed"] = self.stats.get("call_sites_followed", 0) + W.I.ncalls
        self.stats["events"] = self.stats.get("events", 0) + len(W.I.ev)


def _same_leaf(x, y):
    if x is y:
        return TRUE
    if isinstance(x, Poly) and isinstance(y, Poly):
        return TRUE if p_zero(p_sub(x, y)) else FALSE
    if isinstance(x, bool) and isinstance(y, bool):
        return FALSE
    return FALSE


def equal(code, spec):
    """boolean decision diagram: the two values are equal"""
    return apply("same", _same_leaf, code, spec)


def mismatch(code, spec, care=TRUE):
    """None, or (condition, code value, required value) of a case in which they differ"""
    if care is FALSE or code is spec:
        return None
    e = restrict(equal(code, spec), care)
    if e is TRUE:
        return None
    bad = d_and(d_not(e), care)
    bad = feasible(bad)
    if bad is FALSE:
        return None
    split = zero_atoms(code, spec, care)
    c2, s2 = zred(zsplit(code, split)), zred(zsplit(spec, split))
    if c2 is not code or s2 is not spec:
        e2 = restrict(equal(c2, s2), zred(care))
        if e2 is TRUE:
            return None
        bad2 = d_and(d_not(e2), zred(care))
        if bad2 is FALSE or feasible(bad2) is FALSE:
            return None
        bad, code, spec = bad2, c2, s2
    # walk to one concrete case
    path = []
    n = bad
    c, s = code, spec
    while not n.is_leaf:
        v = n.var
        pick = None
        out = {"nn": -1, "np": 1}.get(core.psign(v.arg)) if v.kind == "sgn" else None
        for x, k in n.kids:
            if k is not FALSE and (x != out or pick is None):
                pick = x
                if x != out:
                    break
        path.append(show_cond(v, pick))
        n, c, s = cof(n, v, pick), cof(c, v, pick), cof(s, v, pick)
        if len(path) > 60:
            break
    # remaining decisions of the values do not matter for the difference: follow any
    for d in range(60):
        if c.is_leaf and s.is_leaf:
            break
        n = c if not c.is_leaf else s
        v, x = n.var, n.kids[0][0]
        c, s = cof(c, v, x), cof(s, v, x)
    return " and ".join(path[:14]), short(c, 400), short(s, 400)


def zero_atoms(*ds):
    """decisions 'sign of p' with an atom that p = 0 determines and another of the values contains"""
    out = []
    for v in sorted({v for d in ds for v in d.vars}, key=lambda v: v.id):
        if v.kind == "sgn" and v.vals is not None and len(v.arg.t) <= 4:
            s = solve_for_atom(v.arg)
            if s is not None and any(s[0] in d.deps and v not in d.vars for d in ds[:2]):
                out.append((v, s[0]))
    return out[:6]


def zsplit(d, split):
    for v, a in split:
        if a in d.deps and v not in d.vars:
            d = d_or_split(v, d)
    return d


def d_or_split(v, d):
    s = solve_for_atom(v.arg)
    return case(v, [(x, Subst({s[0]: s[1]}).d(d) if x == 0 else d) for x in v.vals])


_zmemo = {}


def zred(n):
    """uses p = 0 inside the branch of a decision 'sign of p' where it is known to hold"""
    if n.is_leaf:
        return n
    r = _zmemo.get(n.id)
    if r is not None:
        return r
    v = n.var
    kids = []
    same = True
    for x, k in n.kids:
        k2 = zred(k)
        if v.kind == "sgn" and x == 0:
            s = solve_for_atom(v.arg)
            if s is not None and s[0] in k2.deps:
                k2 = Subst({s[0]: s[1]}).d(k2)
        same = same and k2 is k
        kids.append((x, k2))
    if v.kind == "sgn" and len(v.arg.t) <= 4:
        # a sign that is impossible: as if it were zero
        x = {"nn": -1, "np": 1}.get(core.psign(v.arg))
        z = dict(kids).get(0)
        if x is not None and z is not None and dict(kids).get(x) is not z:
            kids = [(y, z if y == x else k) for y, k in kids]
            same = False
    d = n.dflt
    if d is not None:
        d2 = zred(d)
        same = same and d2 is d
        d = d2
    r = n if same else case(v, kids, d)
    _zmemo[n.id] = r
    return r


def feasible(bad, budget=4000):
    """bad without the cases whose signs contradict each other: up to three known signs are added up"""
    left = [budget]

    def signs(v, x):
        """the facts p > 0 (strict) or p >= 0 of one decision"""
        if v.kind != "sgn" or x not in (-1, 0, 1):
            return ()
        p = v.arg
        return {1: ((p, True),), -1: ((p_neg(p), True),), 0: ((p, False), (p_neg(p), False))}[x]

    def neg(p, strict):
        """p > 0 (strict) / p >= 0 is impossible"""
        c = p.const()
        if c is not None:
            return c < 0 or strict and c == 0
        return strict and core.known_sign(p) in ("neg", "np") or not strict and core.known_sign(p) == "neg"

    def bad_sum(facts, new):
        for p, sp in new:
            if neg(p, sp):
                return True
            for i, (q, sq_) in enumerate(facts):
                if not (q.deps & p.deps):
                    continue
                s2 = p_add(p, q)
                if neg(s2, sp or sq_):
                    return True
                for r, sr in facts[:i]:
                    if r.deps & s2.deps and len(s2.t) <= 12 and neg(p_add(s2, r), sp or sq_ or sr):
                        return True
        return False

    def walk(n, facts):
        if n.is_leaf:
            return n
        left[0] -= 1
        if left[0] < 0:
            return n
        v = n.var
        kids = []
        for x, k in n.kids:
            if k is FALSE:
                kids.append((x, k))
                continue
            new = signs(v, x)
            kids.append((x, FALSE if bad_sum(facts, new) else walk(k, facts + list(new))))
        return case(v, kids, n.dflt if n.dflt is None else walk(n.dflt, facts))
    return walk(bad, [])


def show_cond(v, x):
    if v.kind == "s":
        return "%s %s 0" % (short(leaf(v.arg), 120) if isinstance(v.arg, Poly) else v.arg, {-1: "<", 0: "=", 1: ">"}.get(x, "?"))
    a = v.arg
    try:
        t = show_atom(a)
    except Exception:
        t = str(a)
    return "%s = %s" % (t[:120], x if x is not None else "other")


# ------------------------------------------------------------------ vocabulary of specifications
_cnt = [0]


def fresh_it():
    _cnt[0] += 1
    a = atom("it", 900000 + _cnt[0], nn=True)
    a.info = "int"
    return a


def cfg(name, tn="double"):
    import lib
    return dat(lib.cfgatom(name, tn))


def sq(x):
    return d_mul(x, x)


def lt(a, b):
    return cmp("<", a, b)


def le(a, b):
    return cmp("<=", a, b)


def gt(a, b):
    return cmp(">", a, b)


def ge(a, b):
    return cmp(">=", a, b)


def sub_arg(d, x, k=0):
    """value d of element #k taken at index x"""
    return Subst({ARGS[k]: x}).d(d)


ONE = num(1)
TWO = num(2)


class Phys:
    """names of the quantities of one epoch (between two neighbour searches)"""

    def __init__(self, W, ep, over=None):
        self.W, self.ep = W, ep
        self.over = over or {}
        self.db = W.db
        self.P = {n: enum_value(W.db, "ParticleType", n) for n in ("Ghost", "Fluid", "Wall", "DummyWall")}

    def raw(self, f, x, ep=None):
        if f in self.over:
            return sub_arg(self.over[f], x)
        e = self.ep if ep is None else ep
        if f == "type":
            return sub_arg(evar(atom("fld", "type", e, patom(ARGS[0])), "ParticleType"), x)
        if f == "density":
            a = atom("fld", f, 0, patom(ARGS[0]), pos=True, nn=True)
        else:
            a = atom("fld", f, e, patom(ARGS[0]))
        return sub_arg(dat(a), x)

    def typ(self, x, *names):
        r = FALSE
        for n in names:
            r = d_or(r, node_is(self.raw("type", x), self.P[n]))
        return r

    def pos(self, x):
        return [self.raw("position." + c, x) for c in "012"]

    def vel(self, x):
        return [self.raw("velocity." + c, x) for c in "012"]

    def nb(self, i, j):
        a = atom("nbid", self.ep, as_poly(i.leaf), patom(j), nn=True)
        a.info = "int"
        return dat(a)

    def nbsize(self, i):
        a = atom("nbsize", self.ep, as_poly(i.leaf), nn=True)
        a.info = "int"
        return patom(a)

    def dist2(self, i, j):
        r = ZERO
        for a, b in zip(self.pos(j), self.pos(i)):
            r = d_add(r, sq(d_sub(a, b)))
        return r

    def dist(self, i, j):
        return d_sqrt(self.dist2(i, j))

    def weight(self, i, j, re):
        d = self.dist(i, j)
        return ite(lt(d, re), d_sub(d_div(re, d), ONE), ZERO)

    def sum(self, i, body):
        it = fresh_it()
        core.NBSIZE.setdefault(self.ep, None)
        x = self.nb(i, it)
        return mk_sum(it, P0, self.nbsize(i), body(x))

    def exists(self, i, body):
        it = fresh_it()
        return mk_exists(it, P0, self.nbsize(i), body(self.nb(i, it)))

    def ext(self, kind, init, i, guard, value):
        it = fresh_it()
        x = self.nb(i, it)
        return mk_ext(kind, init, [(it, P0, self.nbsize(i), guard(x), value(x))])


class Const:
    """configured quantities"""

    def __init__(self):
        self.dim = cfg("dim", "int")
        self.l0 = cfg("particleDistance")
        self.dt = cfg("dt")
        self.nu = cfg("kinematicViscosity")
        self.gammaC = cfg("compressibility")
        self.relax = cfg("relaxationCoefficientForPressure")
        self.re = {k: d_mul(cfg("radiusRatioFor" + k), self.l0) for k in ("NumberDensity", "Gradient", "Laplacian")}
        self.colDist = d_mul(cfg("collisionDistanceRatio"), self.l0)
        self.rest = cfg("coefficientOfRestitution")
        self.cfl = cfg("cflCondition")
        self.c = cfg("soundSpeed")

    def n0(self, k):
        return dat(atom("n0", as_poly(self.dim.leaf), as_poly(self.l0.leaf), as_poly(self.re[k].leaf), pos=True, nn=True))

    def lambda0(self, k):
        return dat(atom("lambda0", as_poly(self.dim.leaf), as_poly(self.l0.leaf), as_poly(self.re[k].leaf), pos=True, nn=True))

    def gravity(self):
        xyz = ite(bvar(atom("hascfg", "xyz-input")), bvar(atom("cfg", "xyz-input", "bool")), TRUE)
        norm = ite(bvar(atom("hascfg", "gravity-norm")), cfg("gravity-norm"), ZERO)
        ang = ite(bvar(atom("hascfg", "gravity-angle")), cfg("gravity-angle"), ZERO)
        rad = d_mul(d_div(ang, num(180)), PI())
        return [ite(xyz, cfg("gravity/0"), d_mul(norm, fn("sin", rad))),
                ite(xyz, cfg("gravity/1"), d_neg(d_mul(norm, fn("cos", rad)))),
                ite(xyz, cfg("gravity/2"), ZERO)]


def fn(name, *xs):
    return apply(("fn", name), lambda *ys: dat(atom("fn", name, *[as_poly(y) for y in ys])) if not all(as_poly(y) is P0 for y in ys)
                 else num(1 if name in ("cos", "exp") else 0), *xs)


def PI():
    return dat(atom("pi", pos=True, nn=True))


class Step:
    """one generic time step seen as a sequence of transitions between neighbour searches"""

    def __init__(self, rep):
        self.rep = rep
        self.W = W = rep.step()
        self.C = Const()
        eps = sorted(W.I.epochs)
        if not eps:
            raise Unmodelled("no neighbour search in a time step")
        self.eps = eps
        self.i = A(0)
        root, base = W.ploc
        el = base + ("[]",)
        self.final = {p[len(el):]: d for p, d in W.I.st[root].items() if p[:len(el)] == el}
        # transitions: (epoch at whose start the particles are fresh, state at its end, place)
        self.trans = []
        for a, b in zip(eps, eps[1:] + [None]):
            end = W.I.epochs[b]["defs"] if b is not None else self.final
            self.trans.append((a, end, W.I.epochs[b]["where"] if b is not None else "end of the step"))
        self.before = W.I.epochs[eps[0]]["defs"]
        self.care = W.I.live

    def changed(self, ep, end):
        P = Phys(self.W, ep)
        for f in ("position", "velocity"):
            for c in "012":
                if mismatch(end[(f, c)], P.raw(f + "." + c, self.i), self.care) is not None:
                    return True
        return False

    def moves(self):
        return [t for t in self.trans if self.changed(t[0], t[1])]

    def writers(self, ep, *rels):
        """places that write one of the particle members in the phase that starts at the search of epoch ep"""
        W = self.W
        root, base = W.ploc
        evs = W.I.ev
        on = False
        out = []
        def scan(lp):
            for (r, p) in lp.keys:
                if r == root and p[:len(base) + 1] == base + ("[]",) and p[len(base) + 1:] in rels:
                    return True
            return False
        for e in evs:
            if isinstance(e, Ev) and e.kind == "search":
                on = e.data[0] == ep
            elif on and isinstance(e, Loop) and scan(e):
                out.append("%s (%s)" % (e.loc, e.fn.q if e.fn else "?"))
        return ", ".join(out) or self.W.I.epochs[ep]["where"]


class NotListed(Subst):
    """simplifies a value for a particle arg0 that is in no neighbour list of an epoch (a ghost)"""

    def __init__(self, ep):
        Subst.__init__(self, {ARGS[0]: A(0)})
        self.ep = ep

    def var(self, v, kids, df):
        if v.kind == "sgn" and len(v.arg.t) == 2:
            at = [m[0][0] for m, c in v.arg.t if len(m) == 1 and m[0][1] == 1]
            cs = [c for m, c in v.arg.t]
            if len(at) == 2 and cs[0] + cs[1] == 0 and ARGS[0] in at:
                o = at[0] if at[1] is ARGS[0] else at[1]
                if o.kind == "nbid" and o.args[0] == self.ep:
                    k = dict(kids)
                    if k[-1] is k[1]:
                        return k[1]
                    k[0] = k[-1]
                    kids = list(k.items())
        return Subst.var(self, v, kids, df)


def flat(evs, loops=(), g=TRUE):
    """(event, enclosing loops, total guard) of every event"""
    for e in evs:
        if isinstance(e, Loop):
            yield from flat(e.events, loops + (e,), d_and(g, e.guard))
        else:
            yield e, loops, d_and(g, e.g)


def cfgstr(name):
    import lib
    return leaf(Str((lib.cfgatom(name, "string"),)))


def lit(s):
    return leaf(Str((s,)))


def root_of(d):
    """(root, path) of an unconditional reference"""
    if not d.is_leaf or not isinstance(d.leaf, RefV):
        raise Unmodelled("conditional reference")
    return d.leaf.root, tuple(p for p in d.leaf.path)


def stdstream(d, name):
    return d.is_leaf and isinstance(d.leaf, RefV) and d.leaf.root == "g:std::" + name
