"""Rules about one time step (S01-S03, S06-S16)."""
from base import *


def fields(name):
    return [(name, c) for c in "012"]


def s01(rep):
    """in every phase between two neighbour searches the value flowing into position and velocity of a particle that is
    not of type Fluid is the value the phase started with; before the first search nothing is moved at all"""
    S = Step(rep)
    P0_ = Phys(S.W, 0)
    for f in ("position", "velocity"):
        for c in "012":
            rep.same("%s[%s] untouched before the first search" % (f, c), S.before[(f, c)], P0_.raw(f + "." + c, S.i), S.care, S.W.I.epochs[S.eps[0]]["where"])
    for ep, end, where in S.trans:
        P = Phys(S.W, ep)
        for t in ("Wall", "DummyWall", "Ghost"):
            care = d_and(S.care, P.typ(S.i, t))
            for f in ("position", "velocity"):
                for c in "012":
                    val = NotListed(ep).d(end[(f, c)]) if t == "Ghost" else end[(f, c)]
                    rep.same("phase %d: %s[%s] of %s particles unchanged" % (ep, f, c, t), val, P.raw(f + "." + c, S.i),
                             care, S.writers(ep, (f, c)))


def s07(rep):
    """the first phase that moves particles gives a fluid particle the velocity v+a*dt and the position x+(v+a*dt)*dt with
    a = g + nu*(2d/(n0*lambda0))*sum w*(vj-vi); accelerations are zero whenever a phase ends"""
    S = Step(rep)
    C = S.C
    mv = S.moves()
    if not rep.check(mv, "a prediction phase exists", "MPS::stepForward", "no phase of the time step moves particles"):
        return
    ep, end, where = mv[0]
    P = Phys(S.W, ep)
    i = S.i
    fluid = d_and(S.care, P.typ(i, "Fluid"))
    g = C.gravity()
    a = d_div(d_mul(C.nu, d_scale(C.dim, 2)), d_mul(C.n0("Laplacian"), C.lambda0("Laplacian")))
    re = C.re["Laplacian"]
    for k in range(3):
        visc = P.sum(i, lambda j: ite(lt(P.dist(i, j), re), d_mul(d_sub(P.vel(j)[k], P.vel(i)[k]), P.weight(i, j, re)), ZERO))
        acc = d_add(g[k], d_mul(a, visc))
        v = d_add(P.vel(i)[k], d_mul(acc, C.dt))
        x = d_add(P.pos(i)[k], d_mul(v, C.dt))
        rep.same("predicted velocity[%d]" % k, end[("velocity", str(k))], v, fluid, S.writers(ep, *(fields("velocity") + fields("acceleration"))))
        rep.same("predicted position[%d]" % k, end[("position", str(k))], x, fluid, S.writers(ep, *fields("position")))
    acceleration_resets(rep, S)


def acceleration_resets(rep, S):
    for ep, end, where in S.trans:
        for k in range(3):
            rep.same("phase %d: acceleration[%d] is zero at its end" % (ep, k), end[("acceleration", str(k))], ZERO, S.care,
                     S.writers(ep, *fields("acceleration")))
    a0 = S.W.init_acc
    for k, d in sorted(a0.items()):
        rep.same("acceleration[%s] starts at zero" % k, d, ZERO, TRUE, "start-up")


def pressure_def(S):
    """the record of the pressure calculation whose result the correction step uses"""
    if not S.W.calcs:
        raise Unmodelled("no pressure calculation in a time step")
    return S.W.calcs[0]


def s08(rep):
    """the last phase that moves particles changes a fluid particle's velocity by a*dt and position by a*dt^2 with
    a = -(1/rho_i)*(d/n0)*sum (Pj-Pmin_i)*(rj-ri)/|rj-ri|^2*w over its fluid and wall neighbours within re_forGradient"""
    S = Step(rep)
    C = S.C
    mv = S.moves()
    if not rep.check(mv, "a correction phase exists", "MPS::stepForward", "no phase of the time step moves particles"):
        return
    ep, end, where = mv[-1]
    P = Phys(S.W, ep)
    i = S.i
    fluid = d_and(S.care, P.typ(i, "Fluid"))
    rec = pressure_def(S)
    pr = lambda x: sub_arg(dat(atom("fld", "P", rec["k"], patom(ARGS[0]))), x)
    re = C.re["Gradient"]
    n0 = C.n0("Gradient")
    near = lambda j: d_and(P.typ(j, "Fluid", "Wall"), lt(P.dist(i, j), re))
    pmin = P.ext("min", pr(i), i, near, pr)
    rho = P.raw("density", i)
    for k in range(3):
        body = lambda j: ite(near(j), d_mul(d_div(d_mul(d_sub(pr(j), pmin), d_sub(P.pos(j)[k], P.pos(i)[k])), P.dist2(i, j)), P.weight(i, j, re)), ZERO)
        grad = d_mul(d_div(C.dim, n0), P.sum(i, body))
        acc = d_neg(d_div(grad, rho))
        v = d_add(P.vel(i)[k], d_mul(acc, C.dt))
        x = d_add(P.pos(i)[k], d_mul(d_mul(acc, C.dt), C.dt))
        rep.same("corrected velocity[%d]" % k, end[("velocity", str(k))], v, fluid, S.writers(ep, *(fields("velocity") + fields("acceleration"))))
        rep.same("corrected position[%d]" % k, end[("position", str(k))], x, fluid, S.writers(ep, *fields("position")))
    fw = d_and(S.care, P.typ(i, "Fluid", "Wall"))
    rep.same("minimum pressure", end[("minimumPressure",)], pmin, fw, S.writers(ep, ("minimumPressure",)))
    acceleration_resets(rep, S)
