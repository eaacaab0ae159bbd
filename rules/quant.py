"""Rules about derived quantities and constants (S13, S14, S20)."""
from base import *
from physics import pressure_def
from pressure import blank
from fractions import Fraction
import world as worldmod


# ------------------------------------------------------------------ S13
def weight_spec(r, re):
    return ite(lt(r, re), d_sub(d_div(re, r), ONE), ZERO)


def open_sums(d, depth=0, g=TRUE):
    """value -> {(ranges): summand over tmp atoms 'lat0', 'lat1', ...} ; the key () holds what is not a sum"""
    out = {}

    def put(k, v):
        out[k] = d_add(out[k], v) if k in out else v
    for c, l in leaf_conds(d) if not d.is_leaf else [(TRUE, d.leaf)]:
        for m, co in as_poly(l).t:
            s = [(a, e) for a, e in m if a.kind == "sum"]
            rest = Poly({tuple((a, e) for a, e in m if a.kind != "sum"): F1})
            coef = d_scale(leaf(rest), co)
            if not s:
                put((), ite(c, coef, ZERO))
                continue
            if len(s) > 1 or s[0][1] != 1:
                raise Unmodelled("product of sums in a reference value")
            lo, hi, mono, q, h = s[0][0].args
            t = atom("tmp", "lat%d" % depth)
            t.info = "int"
            sub = Subst({atom("bv", h): dat(t)})
            body = d_mul(sub.d(q), sub.p(Poly({mono: F1})))
            for k, v in open_sums(body, depth + 1).items():
                put(((lo, hi),) + k, ite(c, d_mul(coef, v), ZERO))
    return out


def lattice(rep, name, val, dim, term, l0, re, where):
    """val is the sum of term(X) over the integer lattice within re"""
    groups = open_sums(val)
    groups = {k: v for k, v in groups.items() if v is not ZERO}
    if not rep.check(groups and all(len(k) == dim for k in groups), "%s: sums over a %d-dimensional lattice" % (name, dim), where,
                     "the value has parts that are not %d-fold sums: %s" % (dim, short(val, 300))):
        return
    tot = {}
    for k, v in groups.items():
        tot.setdefault(k, []).append(v)
    if len(tot) != 1:
        raise Unmodelled("%s: sums over different ranges" % name)
    for k, vs in tot.items():
        T = ZERO
        for v in vs:
            T = d_add(T, v)
        X = []
        for n, (lo, hi) in enumerate(k):
            t = dat(atom("tmp", "lat%d" % n))
            R = d_scale(d_sub(d_sub(leaf(hi), leaf(lo)), ONE), Fraction(1, 2))
            X.append(d_sub(d_sub(t, leaf(lo)), R))
            # everything beyond the range is outside the effective radius
            slack = d_sub(d_mul(d_add(R, ONE), l0), re)
            rep.check(covers(slack), "%s: the lattice covers the effective radius (axis %d)" % (name, n), where,
                      "the summation stops at %s, lattice points between it and the effective radius %s are left out" % (short(R, 200), short(re, 100)))
        rep.same("%s: contribution of each lattice point" % name, T, term(X), TRUE, where)


def covers(slack):
    mp = {}
    def f(a):
        p = a.args[0] if a.kind in ("ceil", "floor", "trunc") and isinstance(a.args[0], Poly) else None
        if p is None:
            return None
        dlt = atom("tmp", "frac%d" % a.id, nn=True, pos=(a.kind != "ceil") or None)
        # ceil(p) = p + delta; floor(p) = trunc(p) = p - 1 + delta (p >= 0), delta > 0
        return d_add(leaf(p), dat(dlt)) if a.kind == "ceil" else d_sub(d_add(leaf(p), dat(dlt)), ONE)
    r = Subst({}, f, lambda a: a.kind in ("ceil", "floor", "trunc")).d(slack)
    return ge(r, ZERO) is TRUE


def s13(rep):
    """weight function, number density of a step and the reference values computed by RefValues equal their definitions"""
    # reference values
    fs = [f for f in rep.db.fn("RefValues::RefValues") if f.kind == "ctor" and f.o["params"]]
    if not rep.check(len(fs) == 1, "RefValues can be constructed", "RefValues::RefValues", "%d constructors" % len(fs)):
        return
    l0, re = cfg("particleDistance"), d_mul(cfg("radiusRatioForGradient"), cfg("particleDistance"))
    for dim in (2, 3):
        W = World(rep.db)
        this = W.this_of(fs[0])
        W.call(fs[0], this, {0: num(dim), 1: l0, 2: re})
        rep.note(W)
        st = W.I.st[this.d.leaf.root]
        n0, lam = st[("n0",)], st[("lambda",)]
        where = "%s:%d" % (fs[0].file, fs[0].line)

        def w(X):
            r2 = ZERO
            for x in X:
                r2 = d_add(r2, sq(d_mul(l0, x)))
            origin = conj([cmp("==", x, ZERO, False) for x in X])
            return r2, origin, weight_spec(d_sqrt(r2), re)

        def term_n(X):
            r2, o, v = w(X)
            return ite(o, ZERO, v)

        def term_l(X):
            r2, o, v = w(X)
            return ite(o, ZERO, d_mul(r2, v))
        lattice(rep, "n0 in %d-D" % dim, n0, dim, term_n, l0, re, where)
        numr = numerator(lam, n0)
        if rep.check(numr is not None, "lambda0 in %d-D is divided by n0" % dim, where, "lambda0 is not a weighted average: %s" % short(lam, 300)):
            lattice(rep, "lambda0*n0 in %d-D" % dim, numr, dim, term_l, l0, re, where)
    # number density
    S = Step(rep)
    rec = pressure_def(S)
    P = Phys(S.W, S.eps[-1])
    i = S.i
    rn = S.C.re["NumberDensity"]
    care = rec["live0"]
    spec = P.sum(i, lambda j: P.weight(i, j, rn))
    for t in ("Fluid", "Wall", "DummyWall"):
        rep.same("number density of %s particles" % t, rec["numberDensity"], spec, d_and(care, P.typ(i, t)), S.writers(S.eps[-1], ("numberDensity",)))
    rep.same("number density kept until the end of the step", S.final[("numberDensity",)], rec["n"], S.care, rec["where"])


def numerator(lam, n0):
    """x with lam == x / n0"""
    if not (lam.is_leaf and n0.is_leaf):
        return None
    n = as_poly(n0.leaf)
    out = P0
    for m, c in as_poly(lam.leaf).t:
        f = [(a, e) for a, e in m if a.kind == "poly" and e == -1]
        if len(f) != 1:
            return None
        q = f[0][0].args[0]
        k = None
        a0 = n.t[0]
        for m2, c2 in q.t:
            if m2 == a0[0]:
                k = a0[1] / c2
        if k is None or not p_zero(p_sub(n, p_scale(q, k))):
            return None
        rest = tuple((a, e) for a, e in m if a is not f[0][0])
        out = p_add(out, mkpoly({rest: c * k}))
    return leaf(out)


# ------------------------------------------------------------------ S14
def s14(rep):
    """the member courant after a step equals max over fluid particles of |u|*dt/l0 with the final velocities, and the
    condition of the message on the error stream equals courant > cfl limit"""
    S = Step(rep)
    W, C, i = S.W, S.C, S.i
    root = W.sim.d.leaf.root
    key = ("mps", "courant")
    if key not in W.I.st[root]:
        raise Unmodelled("MPS::courant")
    code = W.I.st[root][key]
    it = fresh_it()
    x = dat(it)
    typ = sub_arg(S.final[("type",)], x)
    fl = node_is(typ, enum_value(W.db, "ParticleType", "Fluid"))
    v2 = ZERO
    for k in range(3):
        v2 = d_add(v2, sq(sub_arg(S.final[("velocity", str(k))], x)))
    val = d_div(d_mul(d_sqrt(v2), C.dt), C.l0)
    spec = mk_ext("max", ZERO, [(it, P0, patom(W.N), fl, val)])
    where = wr(W, root, key)
    rep.same("Courant number", code, spec, S.care, where)
    # message
    ranges = [(r["events0"], r["events1"]) for r in W.calcs]
    msg = FALSE
    locs = []
    for k, e in enumerate(W.I.ev):
        if any(a <= k < b for a, b in ranges):
            continue
        for ev, loops, g in flat([e]):
            if ev.kind == "out" and stdstream(ev.data[0], "cerr") and not blank(ev.data[1]) or ev.kind == "print" and is_stderr(ev):
                if loops:
                    gg = g
                    for l in reversed(loops):
                        gg = mk_exists(l.it, P0, as_poly(l.tripD.leaf), gg)
                    g = gg
                msg = d_or(msg, g)
                locs.append(ev.loc)
    rep.same("message exactly when the limit is exceeded", msg, gt(spec, C.cfl), S.care, ", ".join(sorted(set(locs))) or where)


def is_stderr(ev):
    return any(isinstance(x, D) and x.is_leaf and isinstance(x.leaf, RefV) and "stderr" in str(x.leaf.root) for x in ev.data if isinstance(x, D))


def wr(W, root, key):
    out = []
    for e in walk(W.I.ev):
        if isinstance(e, Loop) and (root, key) in e.keys:
            out.append("%s (%s)" % (e.loc, e.fn.q if e.fn else "?"))
    return ", ".join(out) or "MPS"


def walk(evs):
    for e in evs:
        yield e
        if isinstance(e, Loop):
            yield from walk(e.events)


# ------------------------------------------------------------------ S20
def s20(rep):
    """the gravity member of the solver after start-up is the configured vector in the configured representation, the
    step leaves it unchanged, and the acceleration a fluid particle gets before any pair interaction is exactly it"""
    S = Step(rep)
    W, C, i = S.W, S.C, S.i
    g = C.gravity()
    mv = S.moves()
    if rep.check(mv, "a prediction phase exists", "MPS::stepForward", "no phase of the step moves particles"):
        ep, end, where = mv[0]
        P = Phys(W, ep)
        # a fluid particle without neighbours
        alone = d_and(S.care, P.typ(i, "Fluid"))
        zero = Subst({}, lambda a: ZERO if a.kind == "nbsize" else None, lambda a: a.kind == "nbsize")
        for k in range(3):
            code = zero.d(end[("velocity", str(k))])
            rep.same("acceleration by gravity, component %d" % k, d_sub(code, P.vel(i)[k]), d_mul(g[k], C.dt), alone,
                     S.writers(ep, *(("velocity", str(k)), ("acceleration", str(k)))))
    # members that hold gravity are not written in a step
    for (r, p), d in W.generic.items():
        rep.check("gravity" not in p, "nothing changes gravity during a step", "MPS::stepForward", "%s is modified by a time step" % ".".join(p))
