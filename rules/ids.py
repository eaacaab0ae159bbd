"""Ids of particles (S18): the id of the particle at index k of a collection is k."""
from base import *
import content
import loaders
from loaders import Made, loader_of, written, samples

ID = ("id",)
CHANGES = ("append", "clear", "vresize", "vassign", "mutate")


def is_particle(v):
    return isinstance(v, Agg) and ID in v.m and ("position", "0") in v.m


def numbered(rep, name, evs, care):
    """particles are appended with the id they find as size; returns the number of places that add particles"""
    k = 0
    for e, ls, g in flat(evs):
        if e.kind != "append" or not is_particle(e.data[1]):
            continue
        k += 1
        rep.same("%s: the id of an added particle" % name, e.data[1].m[ID], e.data[2], d_and(g, care), e.loc)
    return k


def watched(rep):
    """the step, given up at the first place outside loops that gives a particle another id"""
    if getattr(rep.db, "_step", None) is None:
        core.NANMODE[0] = False
        W = World(rep.db)
        W.make_simulation()

        def watch(root, path, idx, val, g):
            pl = getattr(W, "ploc", None)
            if pl is None or root != pl[0] or path != pl[1] + ("[]",) + ID or len(idx) != 1:
                return
            care = conj([g, W.I.live, W.I.ctx])
            bad = mismatch(val, idx[0], care)
            if bad is not None:
                raise core.Finding(rep.pid, "ids unchanged during a step", W.I.frames[-1].fn.q, "a particle with the index %s gets the id %s%s" % (
                    short(idx[0], 200), bad[1], " when " + bad[0] if bad[0] else ""))
        W.I.watch = watch
        W.step()
        W.I.watch = None
        rep.db._step = W
    return Step(rep)


def in_step(rep):
    S = watched(rep)
    W = S.W
    root, base = W.ploc
    el = base + ("[]",)
    first = S.before.get(ID)
    rep.same("start-up: ids are those of the loaded particles", first, S.i, S.care, S.W.I.epochs[S.eps[0]]["where"])
    for ep, end, where in S.trans:
        rep.same("phase %d: ids unchanged" % ep, end[ID], S.i, S.care, S.writers(ep, ID))
    rep.same("the number of particles is unchanged", W.I.st[root][base + ("#",)], dat(W.N), S.care, "MPS::stepForward")
    n = 0
    for evs in (W.init_events, W.I.ev):
        for e, ls, g in flat(evs):
            n += 1
            if e.kind not in CHANGES or d_and(g, S.care) is FALSE:
                continue
            ref = e.data[0] if isinstance(e.data, tuple) else e.data
            if isinstance(ref, D) and any(isinstance(v, RefV) and v.root == root and tuple(v.path)[:len(base)] == base and "[]" not in v.path[len(base):] for c, v in leaf_conds(ref)):
                rep.fail("particles are neither added, removed nor replaced", e.loc, "%s of the particles of the simulation when %s" % (e.kind, short(g)))
    rep.ok("particles are neither added, removed nor replaced: %d effects looked at" % n, "MPS::stepForward")


def in_loaders(rep):
    docs = written(rep)
    for ext, f in loader_of(rep).items():
        cases = [(w.name, w.doc, w.care, w.n) for w in docs[ext]]
        cases += [(what, d, TRUE, leaf(n)) for what, d, n, *rest in samples(ext)]
        for name, doc, care, n in cases:
            C = content.Content(doc, Str((atom("sym", f.o["params"][0]["n"]),)))
            M = Made(rep, f, C)
            care = d_and(care, M.live)
            if care is FALSE:
                continue        # refused: nothing to number
            k = numbered(rep, name, M.W.I.ev, care)
            others = [e for e, ls, g in flat(M.W.I.ev) if e.kind in CHANGES[1:] and "particles" in str(e.data) and d_and(g, care) is not FALSE]
            if not rep.check(M.n is not None and ID in M.fields, name + ": particles with ids are returned", f.file, "no ids"):
                continue
            it = fresh_it()
            core.set_upper(it, as_poly(M.n.leaf) if M.n.is_leaf and isinstance(M.n.leaf, Poly) else as_poly(n.leaf))
            care = conj([care, cmp(">=", dat(it), ZERO, False), cmp("<", dat(it), M.n, False)])
            got = M.fields[ID]
            if k and not others:
                # elements whose place depends on the data: all of them were appended with their index
                got = Subst({a: A(0) for a in got.deps if a.kind == "uninit" and a.args[0][-3:] == ".id" and a.args[1:] == (core.patom(ARGS[0]),)}).d(got)
            if k and not others and not rep.failed() and any(a.kind == "post" and a.args[1][1][-1:] == ID for a in got.deps):
                rep.undecided(name + ": the id of the particle at an index", "particles are added in some rounds of a loop and changed in it")
                continue
            rep.same(name + ": the id of the particle at an index", restrict(sub_arg(got, dat(it)), care), dat(it), care, f.file)


def simple(f):
    """a member or free function of a generator that computes a number or a truth value from arguments it does not change"""
    ps = [f.tu.ty(p["t"]) for p in f.o["params"]]
    return f.o["kind"] == "fn" and f.q != "main" and f.tu.ty(f.o["ret"]).c in ("float", "bool", "int") and \
        (not f.o.get("rec") or f.o.get("const")) and all(not t.ref or t.const for t in ps)


def uninterpreted(f):
    """the result is an unknown function of the arguments; ids must not depend on what it is"""
    ty = f.tu.ty(f.o["ret"])

    def leaves(v):
        if isinstance(v, Agg):
            return [d for k, d in sorted(v.m.items(), key=lambda x: str(x[0]))]
        return [v]

    def h(I, this, args, e):
        ds = []
        for v in ([this] if this is not None else []) + list(args):
            v = I.load(v) if isinstance(v, LV) else v
            ds += leaves(v)
        if not all(isinstance(d, D) for d in ds):
            return NotImplemented

        def op(*xs):
            a = atom("pure", f.q, *xs)
            if ty.c == "int":
                a.info = "int"
            return bvar(a) if ty.c == "bool" else dat(a)
        return apply(("pure", f.q), op, *ds)
    return h


def one_generator(rep, name, db, worlds=None):
    core.NANMODE[0] = False
    W = World(db)
    I = W.I
    if worlds is not None:
        worlds.append(W)
    m = [f for f in db.fn("main") if f.o.get("body")]
    given = []

    def dialogue(I_, this, args, e):
        given.append(([I_.load(a) if isinstance(a, LV) else a for a in args], d_and(I_.live, I_.ctx), I_.where(e)))
        return leaf(core.VOID)
    I.hooks["GeneratorDialogue::generatorDialogue"] = dialogue
    for fs in db.byname.values():
        for f in fs:
            if f.file.startswith("generator/") and simple(f):
                I.hooks[f.q] = uninterpreted(f)
    I.call_func(m[0], None, [ZERO, ZERO], {"l": m[0].line})
    rep.note(W)
    n = numbered(rep, name, I.ev, TRUE)
    rep.check(n > 0, name + ": particles are added", name, "no particle is added to a collection")
    for e, ls, g in flat(I.ev):
        if e.kind in CHANGES[1:] and d_and(g, I.live) is not FALSE:
            ref = e.data[0] if isinstance(e.data, tuple) else e.data
            if isinstance(ref, D) and any(isinstance(v, RefV) and "particles" in str(v.path) + str(v.root) for c, v in leaf_conds(ref)):
                rep.fail(name + ": particles are only added", e.loc, "%s of a collection of particles" % e.kind)
    for args, g, loc in given:
        rep.ok(name + ": the particles are handed to the dialogue", loc)
    rep.check(given, name + ": the particles are handed to the dialogue", name, "no dialogue")
    return given


def in_generators(rep):
    k = 0
    for name, db in sorted(rep.db.programs().items()):
        if "generator" not in name:
            continue
        k += 1
        one_generator(rep, name, db)
    rep.check(k > 0, "generators exist", "generator", "no generator programs")


def s18(rep):
    in_step(rep)
    in_loaders(rep)
    in_generators(rep)
