"""S02: collisions."""
from base import *
import itertools


def nests(S, ep):
    """loops of the phase that starts at the search of epoch ep and update position or velocity of particles
    inside a loop over a neighbour list: (outer, inner)"""
    W = S.W
    root, base = W.ploc
    el = base + ("[]",)

    def writes(lp):
        return [k for k in lp.keys if k[0] == root and k[1][:len(el)] == el and k[1][len(el)] in ("position", "velocity")]
    on = False
    top = []
    for e in W.I.ev:
        if isinstance(e, Ev) and e.kind == "search":
            on = e.data[0] == ep
        elif on and isinstance(e, Loop) and writes(e):
            top.append(e)
    out = []
    for o in top:
        inner = [l for l in o.events if isinstance(l, Loop) and writes(l)]
        # loops leave their record even when they emit nothing
        inner += [l for l in W.I.loops if l not in inner and l is not o and l.it is not o.it and o.it in l.trip.deps and writes(l)]
        out.append((o, inner))
    return out


def s02(rep):
    """the phase between prediction and correction is one loop over all particles and their lists; one pair iteration, read as
    a state transformer on positions and velocities, is compared with the collision rule; the selection is exactly one
    orientation of each close pair with at least one fluid particle"""
    S = Step(rep)
    C = S.C
    W = S.W
    mv = S.moves()
    root, base = W.ploc
    el = base + ("[]",)
    found = []
    for ep, end, where in mv:
        for o, inner in nests(S, ep):
            if inner:
                found.append((ep, end, o, inner))
    if not rep.check(len(found) >= 1, "a collision phase exists", "MPS::stepForward",
                     "no phase of the time step changes velocities and positions pair by pair"):
        return
    rep.check(len(found) == 1, "collisions are handled once per step", found[-1][2].loc,
              "%d loops over pairs change positions or velocities in one time step" % len(found))
    ep, end, o, inner = found[0]
    if not rep.check(len(inner) == 1, "one pair loop", o.loc, "pairs are handled by %d loops" % len(inner)):
        return
    l = inner[0]
    where = l.loc
    P = Phys(W, ep)
    i, k = o.it, l.it
    I_, J = dat(i), P.nb(dat(i), k)
    rep.check(o.counted and o.trip is patom(W.N), "every particle is visited once", o.loc, "the outer loop runs %s times" % o.trip)
    rep.check(l.counted and p_zero(p_sub(l.trip, P.nbsize(I_))), "every list entry is visited once", l.loc, "the inner loop runs %s times" % l.trip)
    for lp, nm in ((o, "outer"), (l, "inner")):
        for e in ("brk", "ret", "throw", "exit"):
            rep.check(lp.E[e] is FALSE, "the %s pair loop is never left early (%s)" % (nm, e), lp.loc, "it ends early when " + short(lp.E[e], 200))
    keys = [(f, c) for f in ("position", "velocity") for c in "012"]
    # the loops are the only writers
    for f, c in keys:
        K = (root, el + (f, c))
        if K not in l.keys:
            rep.fail("collision changes %s[%s]" % (f, c), where, "the pair loop does not change it")
            continue
        ko, ki = o.keys[K], l.keys[K]
        rep.same("%s[%s] is not touched before the pair loop" % (f, c), ko.I, P.raw(f + "." + c, S.i), S.care, o.loc)
        rep.same("%s[%s] is not touched in the outer loop before the inner one" % (f, c), ki.I, ko.m, TRUE, o.loc)
        rep.same("%s[%s] is changed by the inner loop only" % (f, c), ko.N, ite(l.guard, ki.F, ko.m), TRUE, o.loc)
        rep.same("%s[%s] is not touched after the pair loop" % (f, c), end[(f, c)], ite(o.guard, ko.F, ko.I), S.care, o.loc)
    if any((root, el + fc) not in l.keys for fc in keys):
        return
    # one iteration as a transformer
    cur = lambda f, c, x: sub_arg(l.keys[(root, el + (f, c))].m, x)
    new = lambda f, c, x: sub_arg(l.keys[(root, el + (f, c))].N, x)
    g = d_and(o.guard, l.guard)
    x = S.i
    isI, isJ = cmp("==", x, I_), cmp("==", x, J)
    pos = [[cur("position", c, y) for c in "012"] for y in (I_, J)]
    vel = [[cur("velocity", c, y) for c in "012"] for y in (I_, J)]
    distinct = d_not(cmp("==", I_, J))
    H = FALSE
    for f, c in keys:
        for y in (I_, J):
            H = d_or(H, d_not(equal(new(f, c, y), cur(f, c, y))))
    H = d_and(H, g)
    # selection, as a predicate of two particles a (outer) and b (entry)
    a0, b0 = ARGS[6], ARGS[7]
    nb = as_poly(J.leaf).as_atom()
    H = restrict(H, distinct)
    # decisions about where the two particles are now (coincident, approaching) belong to the impulse, not to the selection
    norm2 = ZERO
    for c in range(3):
        norm2 = d_add(norm2, sq(d_sub(pos[1][c], pos[0][c])))
    apart = gt(norm2, ZERO)
    H = restrict(H, apart)
    sel = Subst({nb: dat(b0)}).d(H)
    sel = Subst({i: dat(a0)}).d(sel)
    left = [a for a in sel.deps if a in (k, nb) or a.kind in ("mu", "nbid")]
    if not rep.check(not left, "the selection of pairs depends on the two particles and their distance alone", where,
                     "it depends on " + ", ".join(show_atom(a) for a in left[:4])):
        return
    swp = Subst({a0: dat(ARGS[5])}).d(sel)
    swp = Subst({b0: dat(a0)}).d(swp)
    swp = Subst({ARGS[5]: dat(b0)}).d(swp)
    A0, B0 = dat(a0), dat(b0)
    differ = d_not(cmp("==", A0, B0))
    solid = d_and(d_not(P.typ(A0, "Ghost")), d_not(P.typ(B0, "Ghost")))
    close = d_and(lt(P.dist(A0, B0), C.colDist), d_or(P.typ(A0, "Fluid"), P.typ(B0, "Fluid")))
    care = d_and(differ, solid)
    rep.same("exactly the close pairs with a fluid particle are handled", d_or(sel, swp), close, care, where)
    rep.same("no pair is handled from both sides", d_and(sel, swp), FALSE, care, where)
    # effect
    hc = d_and(d_and(H, distinct), apart)
    inv = lambda y: ite(P.typ(y, "Fluid"), d_div(ONE, P.raw("density", y)), ZERO)
    mass = d_div(ONE, d_add(inv(I_), inv(J)))
    n = [d_div(d_sub(pos[1][c], pos[0][c]), d_sqrt(norm2)) for c in range(3)]
    rel = ZERO
    for c in range(3):
        rel = d_add(rel, d_mul(d_sub(vel[1][c], vel[0][c]), n[c]))
    imp = ite(lt(rel, ZERO), d_neg(d_mul(d_mul(d_add(ONE, C.rest), rel), mass)), ZERO)
    depth = d_mul(d_sub(C.colDist, P.dist(I_, J)), mass)
    live = d_or(P.typ(I_, "Fluid"), P.typ(J, "Fluid"))
    for c in range(3):
        s = str(c)
        for y, sign, nm, q in ((I_, -1, "the outer", 0), (J, 1, "the listed", 1)):
            dv = d_scale(d_mul(d_mul(imp, inv(y)), n[c]), sign)
            dx = d_scale(d_mul(d_mul(depth, inv(y)), n[c]), sign)
            rep.same("velocity[%d] of %s particle after a collision" % (c, nm), new("velocity", s, y), d_add(vel[q][c], dv), d_and(hc, live), where)
            rep.same("position[%d] of %s particle after a collision" % (c, nm), new("position", s, y), d_add(pos[q][c], dx), d_and(hc, live), where)
        other = d_and(d_not(isI), d_not(isJ))
        for f in ("position", "velocity"):
            rep.same("%s[%d] of uninvolved particles" % (f, c), new(f, s, x), cur(f, s, x), d_and(other, g), where)
