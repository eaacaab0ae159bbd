"""Rules that quantify over everything a time step computes (S03, S06, S15, S16, S17)."""
from base import *
from physics import pressure_def
from pressure import implicit, classes, events_of, functional, list_range
from quant import walk
import collide


# ------------------------------------------------------------------ S03
def moves_particles(S, lp):
    root, base = S.W.ploc
    el = base + ("[]",)
    out = []
    for K, ki in lp.keys.items():
        if K[0] == root and K[1][:len(el)] == el and K[1][len(el)] == "position" and ki.N is not ki.m:
            out.append(K)
    return out


def uses_lists(lp):
    """loops over neighbour lists inside lp: the atoms of the list sizes"""
    out = []
    for e in walk([lp]):
        if isinstance(e, Loop):
            for a in e.trip.deps:
                if a.kind in ("nbsize", "stale"):
                    out.append((a, e))
    return out


def s03(rep):
    """between two searches no loop over neighbour lists follows a loop that moves particles; every search is unconditional;
    the number density handed to the pressure calculation is computed from the lists of the last search, the correction uses
    the pressure of this step's calculation and nothing carried over from an earlier step"""
    S = Step(rep)
    W = S.W
    ep, moved = None, None
    ranges = [(r["events0"], r["events1"]) for r in W.calcs]
    n = 0
    for k, e in enumerate(W.I.ev):
        if isinstance(e, Ev):
            if e.kind == "search":
                ep, moved = e.data[0], None
                rep.check(e.g is TRUE, "search %d happens in every step" % ep, e.loc, "the neighbour search is skipped unless " + short(e.g, 200))
            continue
        us = uses_lists(e)
        for a, l in us:
            n += 1
            if not rep.check(ep is not None, "interactions follow a neighbour search", l.loc, "neighbour lists are used before the first search of the step"):
                continue
            rep.check(moved is None, "interactions use lists built after the last movement (%s)" % l.loc, l.loc,
                      "the loop over neighbour lists at %s runs after particles moved at %s without a new search" % (l.loc, moved))
            if a.kind == "nbsize":
                rep.check(a.args[0] == ep, "interactions use the current lists", l.loc, "list of search %s used after search %s" % (a.args[0], ep))
        if moves_particles(S, e):
            moved = e.loc
    rep.check(n > 0, "interactions were found", "MPS::stepForward", "no loop over neighbour lists in a time step")
    # the wall-clock order of the stages: number density -> pressure -> correction
    rec = pressure_def(S)
    mv = S.moves()
    if not rep.check(mv, "the step moves particles", "MPS::stepForward", "no phase moves particles"):
        return
    last, end, where = mv[-1]
    nd = rec["numberDensity"]
    P = Phys(W, last)
    for t in ("Fluid", "Wall", "DummyWall", "Ghost"):
        v = restrict(nd, P.typ(S.i, t))
        old = stale_atoms(v, last)
        rep.check(not old, "number density of %s particles is recomputed before the pressure calculation" % t, rec["where"],
                  "it depends on " + ", ".join(show_atom(a) for a in old[:4]))
    searches = [k for k, e in enumerate(W.I.ev) if isinstance(e, Ev) and e.kind == "search"]
    rep.check(W.I.ev[searches[-1]].data[0] == last and searches[-1] < rec["events0"], "the pressure is calculated on the lists of the correction step",
              rec["where"], "the pressure calculation does not follow the last neighbour search")
    fluid = P.typ(S.i, "Fluid")
    for f in ("velocity", "position"):
        for c in "012":
            v = restrict(restrict(end[(f, c)], fluid), S.care)
            old = [a for a in stale_atoms(v, last) if not (a.kind == "fld" and a.args[1] == "P%d" % rec["k"])]
            rep.check(not old, "correction of %s[%s] uses only values of this step" % (f, c), S.writers(last, (f, c)),
                      "it depends on " + ", ".join(show_atom(a) for a in old[:4]))
    ps = {a.args[1] for c in "012" for a in end[("velocity", c)].deps if a.kind == "fld" and a.args[0] == "P"}
    rep.check(ps == {rec["k"]}, "the correction uses the pressure calculated in this step", where, "it uses the pressures of calculations %s" % sorted(map(str, ps)))


def stale_atoms(v, ep):
    """atoms of v that stem from before the search of epoch ep or from an earlier step"""
    out = []
    for a in v.deps:
        if a.kind == "state" or a.kind in ("stale", "post"):
            out.append(a)
        elif a.kind == "fld" and a.args[0] not in ("density", "fluidType", "P") and a.args[1] != ep and not str(a.args[1]).startswith("calc"):
            out.append(a)
        elif a.kind in ("nbid", "nbsize") and a.args[0] != ep:
            out.append(a)
    return sorted(out, key=lambda a: a.id)


# ------------------------------------------------------------------ observables
def pair_effects(S):
    """(ep, loop, i, j, {(member, component): (old, new) as functions of a particle}) of the pair loops that write particles"""
    W = S.W
    root, base = W.ploc
    el = base + ("[]",)
    out = []
    for ep, end, where in S.moves():
        for o, inner in collide.nests(S, ep):
            for l in inner:
                I_ = dat(o.it)
                J = Phys(W, ep).nb(I_, l.it)
                eff = {}
                for K, ki in l.keys.items():
                    if K[0] == root and K[1][:len(el)] == el and K[1][len(el)] in ("position", "velocity"):
                        eff[K[1][len(el):]] = (ki.m, ki.N)
                out.append((ep, o, l, I_, J, eff))
    return out


def observables(S, rep):
    """(name, component or None, value, care, where) of everything a time step derives from positions and velocities:
    velocity changes, displacements of the pair loops, number density, classification, pressure equation, pressures"""
    W = S.W
    i = S.i
    out = []
    pairs = pair_effects(S)
    peps = {p[0] for p in pairs}
    for ep, end, where in S.moves():
        if ep in peps:
            continue
        P = Phys(W, ep)
        care = d_and(S.care, d_not(P.typ(i, "Ghost")))
        for c in range(3):
            out.append(("velocity change in phase %d" % ep, c, d_sub(end[("velocity", str(c))], P.vel(i)[c]), care, S.writers(ep, ("velocity", str(c)))))
    for ep, o, l, I_, J, eff in pairs:
        apart = ZERO
        for c in "012":
            if ("position", c) in eff:
                m = eff[("position", c)][0]
                apart = d_add(apart, sq(d_sub(sub_arg(m, J), sub_arg(m, I_))))
        apart = gt(apart, ZERO) if apart is not ZERO else TRUE
        for (f, c), (m, N) in sorted(eff.items()):
            for y, nm in ((I_, "first"), (J, "second")):
                d = d_sub(sub_arg(N, y), sub_arg(m, y))
                out.append(("%s change of the %s particle of a pair" % (f, nm), int(c), d, conj([o.guard, l.guard, apart]), l.loc))
    rec = pressure_def(S)
    P = Phys(W, S.eps[-1])
    ng = d_not(P.typ(i, "Ghost"))
    out.append(("number density", None, rec["numberDensity"], d_and(rec["live0"], ng), rec["where"]))
    ci = conj([rec["live0"], rec["live1"], implicit()])
    out.append(("surface classification", None, classes(S, rec), d_and(ci, ng), rec["where"]))
    evs = events_of(S, rec)
    solves = [e for e, l, g in evs if e.kind == "solver" and e.data[0] in ("solve", "solveWithGuess")]
    trips = [e for e, l, g in evs if e.kind == "triplets"]
    if solves and trips:
        out.append(("right-hand side of the pressure equation", None, solves[-1].data[3].m[("[]",)], d_and(d_and(rec["live0"], implicit()), ng), solves[-1].loc))
        lref, _, _ = list_range(trips[-1].data[1], trips[-1].data[2])
        F, n = functional(S, rep, rec, lref, evs)
        out.append(("matrix row of the pressure equation", None, F, d_and(d_and(rec["live0"], implicit()), ng), trips[-1].loc))
    out.append(("explicit pressure", None, rec["value"], conj([rec["live0"], rec["live1"], d_not(implicit()), ng]), rec["where"]))
    last, end, where = S.moves()[-1]
    PL = Phys(W, last)
    out.append(("minimum pressure", None, end[("minimumPressure",)], d_and(S.care, d_not(PL.typ(i, "Ghost", "DummyWall"))), S.writers(last, ("minimumPressure",))))
    return out


# ------------------------------------------------------------------ S16
def field_subst(fn_of):
    """substitution on the position and velocity atoms (and their loop-carried versions)"""
    def comp(a):
        if a.kind == "fld" and isinstance(a.args[0], str) and "." in a.args[0]:
            f, c = a.args[0].split(".")[:2]
            if f in ("position", "velocity"):
                return f, c
        if a.kind == "mu" and len(a.args[1][1]) >= 2 and a.args[1][1][-2] in ("position", "velocity"):
            return a.args[1][1][-2], a.args[1][1][-1]
        return None

    def f(a):
        k = comp(a)
        return None if k is None else fn_of(a, *k)
    return Subst({}, f, lambda a: comp(a) is not None)


def s16(rep):
    """replacing every position x by x+s, every velocity u by u+V, and permuting the components of positions, velocities and
    gravity, leaves (or permutes) the canonical value of everything the step derives from them"""
    S = Step(rep)
    obs = observables(S, rep)
    sh = [dat(atom("tmp", "shift%d" % k)) for k in range(3)]
    bo = [dat(atom("tmp", "boost%d" % k)) for k in range(3)]
    shift = field_subst(lambda a, f, c: d_add(dat(a), sh[int(c)]) if f == "position" else None)
    boost = field_subst(lambda a, f, c: d_add(dat(a), bo[int(c)]) if f == "velocity" else None)
    for name, c, v, care, where in obs:
        nm = name if c is None else "%s[%d]" % (name, c)
        v = restrict(v, care)
        rep.same(nm + " does not depend on the origin", shift.d(v), v, care, where)
        rep.same(nm + " does not depend on the inertial frame", boost.d(v), v, care, where)
    # axes: the transpositions (0 1) and (1 2) generate all permutations
    by = {}
    for name, c, v, care, where in obs:
        by[(name, c)] = (v, care, where)
    xyz = ite(bvar(atom("hascfg", "xyz-input")), bvar(atom("cfg", "xyz-input", "bool")), TRUE)
    for x, y in ((0, 1), (1, 2)):
        perm = {x: y, y: x}
        mp = {}
        for k in (x, y):
            mp[as_poly(cfg("gravity/%d" % k).leaf).as_atom()] = cfg("gravity/%d" % perm[k])
        g = Subst(mp)
        p = axis_subst(perm)
        for (name, c), (v, care, where) in by.items():
            cc = None if c is None else perm.get(c, c)
            w = by[(name, cc)][0]
            v2 = p.d(g.d(restrict(v, care)))
            nm = name if c is None else "%s[%d]" % (name, c)
            rep.same("%s under exchange of axes %d and %d" % (nm, x, y), v2, w, d_and(care, xyz), where)


def axis_subst(perm):
    def ren(a):
        if a.kind == "fld" and isinstance(a.args[0], str) and "." in a.args[0]:
            f, c = a.args[0].split(".")[:2]
            if f in ("position", "velocity", "acceleration") and int(c) in perm:
                return atom("fld", "%s.%d" % (f, perm[int(c)]), *a.args[1:])
        if a.kind == "mu":
            (r, path) = a.args[1]
            if len(path) >= 2 and path[-2] in ("position", "velocity", "acceleration") and path[-1] in "012" and int(path[-1]) in perm:
                return atom("mu", a.args[0], (r, path[:-1] + (str(perm[int(path[-1])]),)), *a.args[2:])
        return None

    def f(a):
        b = ren(a)
        return None if b is None else dat(b)
    return Subst({}, f, lambda a: ren(a) is not None)


# ------------------------------------------------------------------ S06
def s06(rep):
    """types are constant between searches; nothing a non-ghost particle gets depends on a ghost: other particles are reached
    through neighbour lists only (which hold no ghosts, S04) or under a condition that excludes ghosts; a ghost's own number
    density and pressure are zero"""
    S = Step(rep)
    W, i = S.W, S.i
    P0_ = Phys(W, 0)
    rep.same("types are not touched before the first search", S.before[("type",)], P0_.raw("type", i), S.care, W.I.epochs[S.eps[0]]["where"])
    for ep, end, where in S.trans:
        rep.same("phase %d changes no type" % ep, end[("type",)], Phys(W, ep).raw("type", i), S.care, S.writers(ep, ("type",)))
    for name, c, v, care, where in observables(S, rep):
        v = restrict(v, care)
        nm = name if c is None else "%s[%d]" % (name, c)
        bad = ghost_reads(v, S)
        rep.check(not bad, nm + " is independent of ghosts", where, "it reads " + ", ".join(bad[:3]))
    for ep, o, l, I_, J, eff in pair_effects(S):
        P = Phys(W, ep)
        for (f, c), (m, N) in sorted(eff.items()):
            x = i
            rep.same("a ghost takes part in no pair: %s[%s]" % (f, c), sub_arg(N, x), sub_arg(m, x), conj([o.guard, l.guard, P.typ(I_, "Ghost")]), l.loc)
    for rec in W.calcs:
        P = Phys(W, S.eps[-1])
        gh = P.typ(i, "Ghost")
        rep.same("number density of a ghost is zero (calculation %d)" % rec["k"], rec["numberDensity"] if rec["k"] == W.calcs[0]["k"] else ZERO, ZERO, d_and(rec["live0"], gh), rec["where"])
        ex = conj([rec["live0"], rec["live1"], d_not(implicit()), gh])
        if ex is not FALSE:
            rep.same("explicit pressure of a ghost is zero (calculation %d)" % rec["k"], rec["value"], ZERO, ex, rec["where"])
        im = conj([rec["live0"], implicit(), gh])
        if im is not FALSE:
            evs = events_of(S, rec)
            solves = [e for e, l, g in evs if e.kind == "solver" and e.data[0] in ("solve", "solveWithGuess")]
            trips = [e for e, l, g in evs if e.kind == "triplets"]
            if rep.check(solves and trips, "the implicit method solves a system", rec["where"], "no solve"):
                rep.same("the pressure equation of a ghost has right-hand side zero", solves[-1].data[3].m[("[]",)], ZERO, im, solves[-1].loc)
                lref, _, _ = list_range(trips[-1].data[1], trips[-1].data[2])
                F, n = functional(S, rep, rec, lref, evs)
                X = dat(atom("fld", "X", 0, patom(ARGS[0])))
                rep.same("the pressure equation of a ghost is p = 0", F, X, im, trips[-1].loc)
                sol = dat(atom("solution", patom(ARGS[0])))
                rep.same("a ghost gets the solution of its own row", rec["value"], sol, conj([im, rec["live1"], ge(sol, ZERO)]), rec["where"])
    rep.same("number density kept until the end of the step", S.final[("numberDensity",)], W.calcs[0]["n"], S.care, W.calcs[0]["where"])
    from pressure import pressures_assigned
    pressures_assigned(rep, S)


def ghost_reads(v, S):
    """reads of members of particles that may be ghosts other than the particle itself"""
    out = []
    own = {patom(ARGS[0])}
    for a in all_atoms(v):
        if a.kind == "stale":
            out.append("the list of a ghost")
        if a.kind != "fld" or a.args[0] in ("X",):
            continue
        x = a.args[2]
        if x in own:
            continue
        at = x.as_atom() if isinstance(x, Poly) else None
        if at is not None and at.kind == "nbid":
            continue
        if at is not None and at.kind == "it":
            continue          # the first particle of a pair, treated by the pair rules
        if at is not None and at.kind == "bv":
            continue          # bound over all particles: the guard decides, see below
        out.append("%s of particle %s" % (a.args[0], x))
    # quantifiers and sums over all particles: with the bound particle a ghost nothing may remain
    N = patom(S.W.N)
    ghost = Phys(S.W, S.eps[-1]).P["Ghost"]
    for a in all_atoms(v):
        items = []
        if a.kind == "exq" and a.args[1] is N:
            items = [(a.args[2], ZERO, a.args[3])]
        elif a.kind == "sum" and a.args[1] is N:
            items = [(leaf(True), a.args[3], a.args[4])]
        elif a.kind == "ext":
            items = [(g, val, h) for lo, hi, g, val, h in a.args[2] if hi is N]
        for g, val, h in items:
            b = atom("bv", h)

            def f(x, b=b):
                if x.kind == "fld" and x.args[0] == "type" and isinstance(x.args[2], Poly) and x.args[2].as_atom() is b:
                    return num(ghost)
                return None
            s = Subst({}, f, lambda x: x.kind == "fld" and x.args[0] == "type")
            gg, vv = s.d(g) if isinstance(g, D) else g, s.d(val) if isinstance(val, D) else val
            if a.kind == "sum":
                if isinstance(vv, D) and vv is not ZERO or isinstance(vv, Poly) and vv is not P0:
                    out.append("all particles, ghosts included (sum)")
            elif gg is not FALSE:
                out.append("all particles, ghosts included (%s)" % a.kind)
    return sorted(set(out))


def all_atoms(v):
    """every atom that occurs in a value, at any depth"""
    seen, done = set(), set()

    def go(x):
        if isinstance(x, D):
            if ("d", x.id) in done:
                return
            done.add(("d", x.id))
            if x.is_leaf:
                go(x.leaf)
            else:
                go(x.var.arg)
                for _, k in x.kids:
                    go(k)
                if x.dflt is not None:
                    go(x.dflt)
        elif isinstance(x, Poly):
            if ("p", x.id) in done:
                return
            done.add(("p", x.id))
            for m, c in x.t:
                for a, e in m:
                    go(a)
        elif isinstance(x, Atom):
            if x in seen:
                return
            seen.add(x)
            for y in x.args:
                go(y)
        elif isinstance(x, Str):
            go(x.parts)
        elif isinstance(x, RefV):
            if isinstance(x.extra, D):
                go(x.extra)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    go(v)
    return seen
