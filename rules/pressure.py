"""Rules about the pressure calculation (S09-S13) and derived quantities (S13, S14, S20)."""
from base import *
from physics import pressure_def


def implicit():
    return streq(cfgstr("pressureCalculationMethod"), lit("Implicit"))


def classes(S, rec):
    """classification of particle arg0 after the calculation, as written by the code"""
    root, base = S.W.ploc
    return rec["after"][base + ("[]", "boundaryCondition")]


def spec_class(S, rec, i):
    """the documented classification: Ignored for ghosts and dummy walls, otherwise FreeSurface / Inner by the
    configured criterion"""
    W, C = S.W, S.C
    P = Phys(W, S.eps[-1])
    n = sub_arg(rec["n"], i)
    n0 = C.n0("NumberDensity")
    main = lt(n, d_mul(cfg("surfaceDetection-numberDensity-threshold"), n0))
    thr = d_mul(cfg("surfaceDetection-particleDistribution-threshold"), C.l0)
    some = FALSE
    for k in range(3):
        sm = P.sum(i, lambda j: d_sub(P.pos(j)[k], P.pos(i)[k]))
        some = d_or(some, gt(d_abs(sm), thr))
    empty = cmp("==", leaf(P.nbsize(i)), ZERO, False)
    dist = bvar(atom("cfg", "surfaceDetection-particleDistribution", "bool"))
    surf = d_and(main, ite(dist, d_or(empty, some), TRUE))
    V = lambda n: leaf(En("FluidState", enum_value(W.db, "FluidState", n)))
    return ite(P.typ(i, "Ghost", "DummyWall"), V("Ignored"), ite(surf, V("FreeSurface"), V("Inner")))


def inner(S, rec, i):
    return node_is(sub_arg(spec_class(S, rec, A(0)), i), enum_value(S.W.db, "FluidState", "Inner"))


def events_of(S, rec):
    return list(flat(S.W.I.ev[rec["events0"]:rec["events1"]]))


def s12(rep):
    """the boundaryCondition member after the implicit pressure calculation equals the documented classification"""
    S = Step_(rep)
    rec = pressure_def(S)
    care = conj([rec["live0"], rec["live1"], implicit()])
    i = S.i
    P = Phys(S.W, S.eps[-1])
    code = classes(S, rec)
    spec = spec_class(S, rec, i)
    for t in ("Fluid", "Wall", "DummyWall", "Ghost"):
        rep.same("classification of %s particles" % t, code, spec, d_and(care, P.typ(i, t)), rec["where"])
    # the classification used by the pressure equation is that of the particle it belongs to and survives the step
    root, base = S.W.ploc
    rep.same("classification kept until the end of the step", S.final[("boundaryCondition",)], code, d_and(S.care, implicit()), rec["where"])


def Step_(rep):
    return Step(rep)


def functional(S, rep, rec, listref, evs):
    """sum over the entries of the triplet list of value * X(col) for row arg0; X an arbitrary vector"""
    X = lambda c: sub_arg(dat(atom("fld", "X", 0, patom(ARGS[0]))), c)
    tot = ZERO
    n = 0
    for e, loops, g in evs:
        if e.kind != "append" or root_of(e.data[0]) != listref:
            continue
        n += 1
        m = e.data[1].m
        row, col, val = m[("row",)], m[("col",)], m[("value",)]
        tot = d_add(tot, row_contribution(S, row, d_mul(val, X(col)), g, loops, e))
    return tot, n


def row_contribution(S, row, body, g, loops, e):
    """entries (row, body) emitted under guard g inside loops: their total for row arg0"""
    if not row.is_leaf:
        tot = ZERO
        for c, r in leaf_conds(row):
            tot = d_add(tot, row_contribution(S, leaf(r), body, d_and(g, c), loops, e))
        return tot
    a = as_poly(row.leaf).as_atom()
    b = ite(g, body, ZERO)
    N = patom(S.W.N)
    own = [l for l in loops if l.it is a]
    if own:
        l = own[0]
        rest = [x for x in loops if x is not l]
        if not (l.tripD.is_leaf and l.tripD.leaf is N):
            b = ite(conj([cmp("<", A(0), l.tripD, False)]), b, ZERO)
        s = Subst({l.it: A(0)})
        b = s.d(b)
        for x in reversed(rest):
            b = sum_over(x, b, s)
        return b
    if a is not None and a.kind == "nbid":
        ep, i, t = a.args
        lo = [l for l in loops if l.it is i.as_atom()]
        li = [l for l in loops if l.it is t.as_atom()]
        if len(lo) == 1 and len(li) == 1 and len(loops) == 2:
            s1 = Subst({a: A(0)})
            new = dat(atom("nbid", ep, patom(ARGS[0]), patom(li[0].it), nn=True))
            s2 = Subst({lo[0].it: new})
            b = s2.d(s1.d(b))
            return mk_sum(li[0].it, P0, patom(atom("nbsize", ep, patom(ARGS[0]), nn=True)), b)
    raise Unmodelled("matrix row index %s at %s" % (short(row, 80), e.loc))


def sum_over(l, b, s=None):
    trip = l.tripD if s is None else s.d(l.tripD)
    if trip.is_leaf:
        return mk_sum(l.it, P0, as_poly(trip.leaf), b)
    out = ZERO
    for c, t in leaf_conds(trip):
        out = d_add(out, ite(c, mk_sum(l.it, P0, as_poly(t), b), ZERO))
    return out


def s09(rep):
    """row functional of the triplets handed to the solver, right-hand side handed to solve(), and order of the
    assembly (list emptied, filled, handed over, solved) equal the specified system"""
    S = Step(rep)
    W, C, i = S.W, S.C, S.i
    rec = pressure_def(S)
    P = Phys(W, S.eps[-1])
    care = d_and(rec["live0"], implicit())
    evs = events_of(S, rec)
    idx = {id(e): k for k, (e, l, g) in enumerate(evs)}
    solves = [(e, g) for e, l, g in evs if e.kind == "solver" and e.data[0] in ("solve", "solveWithGuess")]
    if not rep.check(len(solves) == 1 and d_and(care, d_not(solves[0][1])) is FALSE, "exactly one solve per implicit calculation", rec["where"],
                     "%d solve calls" % len(solves)):
        return
    solve = solves[0][0]
    comps = [(e, g) for e, l, g in evs if e.kind == "solver" and e.data[0] in ("compute", "factorize") and e.data[1] is solve.data[1] and idx[id(e)] < idx[id(solve)]]
    if not rep.check(comps and d_and(care, d_not(comps[-1][1])) is FALSE, "the solver is given the matrix before it solves", solve.loc, "no compute() before solve()"):
        return
    mref = root_of(comps[-1][0].data[2])
    trip = [(e, g) for e, l, g in evs if e.kind == "triplets" and root_of(e.data[0]) == mref and idx[id(e)] < idx[id(comps[-1][0])]]
    if not rep.check(trip and d_and(care, d_not(trip[-1][1])) is FALSE, "the matrix handed to the solver is built in this calculation", comps[-1][0].loc,
                     "no setFromTriplets() before compute()"):
        return
    tr = trip[-1][0]
    later = [e for e, l, g in evs if e.kind == "sparse" and root_of(e.data[1]) == mref and idx[id(e)] > idx[id(tr)]]
    rep.check(not later, "the matrix is not changed between assembly and solution", later[0].loc if later else tr.loc, "matrix changed after setFromTriplets()")
    for k, nm in ((3, "rows"), (4, "columns")):
        rep.same("matrix has one %s per particle" % nm[:-1], tr.data[k], dat(W.N), care, tr.loc)
    b, e_ = tr.data[1], tr.data[2]
    lref, first, last = list_range(b, e_)
    before = [x for x in evs if idx[id(x[0])] < idx[id(tr)]]
    after = [x for x in evs if idx[id(x[0])] > idx[id(tr)] and x[0].kind == "append" and root_of(x[0].data[0]) == lref]
    apps = [x for x in before if x[0].kind == "append" and root_of(x[0].data[0]) == lref]
    muts = [x for x in before if x[0].kind in ("mutate", "vresize", "vassign") and root_of(x[0].data[0]) == lref]
    rep.check(not muts, "the triplet list is only emptied and appended to", muts[0][0].loc if muts else tr.loc, "the list of triplets is modified in place")
    # the list starts empty
    if rep.check(apps, "the system has entries", tr.loc, "no entry is ever appended"):
        e0, loops, g = apps[0]
        sz = e0.data[2]
        s = Subst({l.it: ZERO for l in loops})
        rep.same("no entry of an earlier step survives", s.d(sz), ZERO, d_and(care, s.d(g)), e0.loc)
    rep.same("the whole list is handed over: begin", first, ZERO, care, tr.loc)
    # the number of entries handed over equals the number of entries appended
    cnt = ZERO
    for e0, loops, g in apps:
        bdy = ite(g, ONE, ZERO)
        for l in reversed(loops):
            bdy = sum_over(l, bdy)
        cnt = d_add(cnt, bdy)
    rep.same("the whole list is handed over: end", last, cnt, care, tr.loc)
    F, n = functional(S, rep, rec, lref, before)
    X = lambda c: sub_arg(dat(atom("fld", "X", 0, patom(ARGS[0]))), c)
    re = C.re["Laplacian"]
    a = d_div(d_scale(C.dim, 2), d_mul(C.n0("Laplacian"), C.lambda0("Laplacian")))
    near = lambda j: d_and(P.typ(j, "Fluid", "Wall"), lt(P.dist(i, j), re))
    coef = lambda j: d_div(d_mul(a, P.weight(i, j, re)), P.raw("density", i))
    off = P.sum(i, lambda j: ite(near(j), d_mul(coef(j), d_sub(X(i), X(j))), ZERO))
    diag = d_mul(d_div(C.gammaC, sq(C.dt)), X(i))
    inn = inner(S, rec, i)
    spec = ite(inn, d_add(off, diag), X(i))
    where = ", ".join(sorted({e.loc for e, l, g in apps}))
    for t in ("Fluid", "Wall", "DummyWall", "Ghost"):
        rep.same("matrix row of %s particles" % t, F, spec, d_and(care, P.typ(i, t)), where)
    rhs = solve.data[3].m
    rep.same("length of the right-hand side", rhs[("#",)], dat(W.N), care, solve.loc)
    n0 = C.n0("NumberDensity")
    src = d_div(d_mul(C.relax, d_sub(sub_arg(rec["n"], i), n0)), d_mul(n0, sq(C.dt)))
    for t in ("Fluid", "Wall", "DummyWall", "Ghost"):
        rep.same("right-hand side of %s particles" % t, rhs[("[]",)], ite(inn, src, ZERO), d_and(care, P.typ(i, t)), solve.loc)
    # the solved values go to the particles of the same rows
    sol = dat(atom("solution", patom(ARGS[0])))
    ok = conj([care, rec["live1"], ge(sol, ZERO)])
    rep.same("particle i gets entry i of the solution", rec["value"], sol, ok, rec["where"])
    pressures_assigned(rep, S)


def list_range(b, e):
    """(list, first index, last index) of an iterator pair"""
    def one(d):
        locs, idx = set(), None
        for c, l in leaf_conds(d):
            if not isinstance(l, RefV) or l.extra is None:
                raise Unmodelled("iterator range of the triplet list")
            locs.add((l.root, tuple(l.path)))
            idx = l.extra if idx is None else ite(c, l.extra, idx)
        if len(locs) != 1:
            raise Unmodelled("conditional iterator range %s" % short(d, 600))
        return locs.pop(), idx
    x, y = one(b), one(e)
    if x[0] != y[0]:
        raise Unmodelled("iterators of different lists")
    return x[0], x[1], y[1]


def pressures_assigned(rep, S):
    """the particle member pressure after the step is the last calculated value of the same particle"""
    W = S.W
    fin = S.final[("pressure",)]
    rec = W.calcs[-1]
    live = FALSE
    want = Phys(W, 0).raw("pressure", S.i)
    for r in W.calcs:
        want = ite(r["live0"], dat(atom("fld", "P", r["k"], patom(ARGS[0]))), want)
    rep.same("every particle receives the pressure calculated for itself", fin, want, S.care, rec["where"])
    for r in W.calcs:
        rep.same("one pressure per particle (calculation %d)" % r["k"], r["size"], dat(W.N), d_and(r["live0"], r["live1"]), r["where"])


def s10(rep):
    """implicit result: zero for every particle that is not inner (right-hand side and identity row, S09) and
    max(solution, 0) otherwise; every use is preceded by the test of the solver state, whose failure branch reports and exits nonzero"""
    S = Step(rep)
    W, i = S.W, S.i
    P = Phys(W, S.eps[-1])
    for rec in W.calcs:
        care0 = d_and(rec["live0"], implicit())
        if care0 is FALSE:
            continue
        care = d_and(care0, rec["live1"])
        evs = events_of(S, rec)
        idx = {id(e): k for k, (e, l, g) in enumerate(evs)}
        sol = dat(atom("solution", patom(ARGS[0])))
        rep.same("negative solved pressures become zero, others are kept", rec["value"], d_max(sol, ZERO), care, rec["where"])
        solves = [(e, g) for e, l, g in evs if e.kind == "solver" and e.data[0] in ("solve", "solveWithGuess")]
        if not rep.check(solves, "the implicit method solves a system", rec["where"], "no solve() call"):
            continue
        # prescribed values
        from_rhs = solves[-1][0].data[3].m[("[]",)]
        code_class = classes(S, rec)
        inn = inner(S, rec, i)
        rep.same("prescribed pressure of surface, dummy-wall and ghost particles is zero", from_rhs, ZERO, d_and(care0, d_not(inn)), solves[-1][0].loc)
        # failure handling
        infos = [(e, g) for e, l, g in evs if e.kind == "solver" and e.data[0] == "info" and idx[id(e)] > idx[id(solves[-1][0])]]
        if not rep.check(infos, "the solver state is queried after the solve", solves[-1][0].loc, "info() is not queried after solve()"):
            continue
        st = dat(atom("solverinfo", as_poly(num(len(solves)).leaf)))
        fail = d_and(care0, cmp("!=", st, ZERO, False))
        rep.same("no pressure leaves a failed solve", rec["live1"], FALSE, fail, infos[-1][0].loc)
        okc = d_and(care0, cmp("==", st, ZERO, False))
        rep.same("a successful solve goes on", rec["live1"], TRUE, okc, infos[-1][0].loc)
        ex = FALSE
        for e, l, g in evs:
            if e.kind == "exit":
                ex = d_or(ex, d_and(g, nonzero(e.data[0])))
            elif e.kind == "throw":
                ex = d_or(ex, g)
        rep.same("a failed solve ends the program with a nonzero status", ex, TRUE, fail, infos[-1][0].loc)
        msg = FALSE
        for e, l, g in evs:
            if e.kind == "out" and stdstream(e.data[0], "cerr") and not blank(e.data[1]):
                msg = d_or(msg, g)
            if e.kind == "print" and "stderr" in str(e.data[:1]):
                msg = d_or(msg, g)
        rep.same("a failed solve is reported", msg, TRUE, fail, infos[-1][0].loc)
    pressures_assigned(rep, S)


def blank(d):
    return isinstance(d, D) and d.is_leaf and isinstance(d.leaf, Str) and (d.leaf.const() or "x").strip() == ""


def nonzero(d):
    return cmp("!=", d, ZERO, False)


def s11(rep):
    """explicit result: c^2*rho*(n-n0)/n0 above the reference density, zero otherwise and for ghosts"""
    S = Step(rep)
    W, C, i = S.W, S.C, S.i
    P = Phys(W, S.eps[-1])
    n0 = C.n0("NumberDensity")
    done = False
    for rec in W.calcs:
        care = conj([rec["live0"], rec["live1"], d_not(implicit())])
        if care is FALSE:
            continue
        done = True
        n = sub_arg(rec["n"], i)
        eos = d_div(d_mul(d_mul(sq(C.c), P.raw("density", i)), d_sub(n, n0)), n0)
        spec = ite(P.typ(i, "Ghost"), ZERO, ite(gt(n, n0), eos, ZERO))
        for t in ("Fluid", "Wall", "DummyWall", "Ghost"):
            rep.same("calculation %d: explicit pressure of %s particles" % (rec["k"], t), rec["value"], spec, d_and(care, P.typ(i, t)), rec["where"])
        # and the number density it uses is the current one
    rep.check(done, "the explicit method is reachable", "PressureCalculator::Explicit::calc", "no explicit pressure calculation")
    pressures_assigned(rep, S)
