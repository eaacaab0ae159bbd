"""S17: parallel loops. For every loop under an OpenMP worksharing directive, the effect of one generic iteration is compared
with the rule of independence: an iteration writes only elements that it owns (an injective function of the iteration number),
reads written data only at elements it owns, and does nothing else whose outcome depends on the order of iterations."""
from base import *
from interp import p_linear
import search

STD = ("g:std::cout", "g:std::cerr", "g:std::clog")


def var_name(root):
    return root.rsplit("#", 1)[0]


def loop_variables(node):
    """names declared or assigned by the loop's initialisation"""
    out = set()

    def w(o):
        if isinstance(o, dict):
            if o.get("k") == "decl":
                for d in o["d"]:
                    out.add(d["n"])
            elif o.get("k") == "asg" and o["a"].get("k") == "var":
                out.add(o["a"]["n"])
            else:
                for x in o.values():
                    w(x)
        elif isinstance(o, list):
            for x in o:
                w(x)
    w(node.get("init"))
    return out


def clauses(omp, *names):
    out = []
    for c in omp.get("clauses", ()):
        if c["n"] in names:
            out += [(v if isinstance(v, str) else v.get("n"), c.get("op")) for v in c.get("vars") or ()]
    return out


def owned(p, it):
    """p is an injective (linear) function of the iteration number"""
    return it in p.deps and p_linear(p, it) is not None and not any(a.kind in ("mu", "bv") for a in p.deps)


def owner(N, m, nd, it):
    """(dimension, index) such that one iteration changes nothing but the elements with this index in this dimension"""
    if not owned(patom(it), it):
        return None
    for k in range(nd):
        for v in sorted(N.vars, key=lambda v: v.id):
            if v.kind != "sgn" or ARGS[k] not in v.arg.deps or it not in v.arg.deps:
                continue
            lin = p_linear(v.arg, ARGS[k])
            if lin is None:
                continue
            own = p_scale(lin[1], F1 / -lin[0])
            if not owned(own, it):
                continue
            other = d_not(cmp("==", A(k), leaf(own)))
            if mismatch(N, m, other) is None:
                return k, own
    return None


def parallel_loops(rep):
    """(world, loop, what) of every loop under an OpenMP directive in the analysed parts of the program"""
    out = []

    def go(W, loops, what):
        for lp in loops:
            if lp.omp is not None or lp.omp_region is not None:
                out.append((W, lp, what))
    S = rep.step()
    go(S.I, S.I.loops, "step")
    go(S.I, S.init_loops, "start-up")
    W, L = search.searches(rep, False)
    for k, s in enumerate(L):
        go(W.I, s.loops, "search %d" % (k + 1))
    return out


def atoms_of(lp, L, own_subst=None):
    """atoms on which the events of lp's body and its inner loops depend"""
    for e in lp.rawevents:
        if isinstance(e, Loop):
            for d in [e.guard, e.tripD, e.cond] + list(e.E.values()):
                if d is not None:
                    yield from d.deps
            yield from e.trip.deps
            yield from atoms_of(e, L)
        else:
            yield from e.g.deps
            for x in e.data:
                for d in (x.m.values() if isinstance(x, Agg) else [x]):
                    if isinstance(d, core.D):
                        yield from d.deps


def own_ref(I, ref, it, serial0):
    """the reference leads to something only this iteration has"""
    for r in core.leaves_of(ref):
        if not isinstance(r, RefV):
            return False
        if I.serials.get(r.root, 0) > serial0:
            continue
        ok = False
        for p in r.path:
            if isinstance(p, core.D) and p.is_leaf and isinstance(p.leaf, Poly) and owned(p.leaf, it):
                ok = True
            elif isinstance(p, Poly) and owned(p, it):
                ok = True
        if not ok and not (isinstance(r.extra, core.D) and False):
            return False
    return True


CONTAINER = {"append": 0, "clear": 0, "vresize": 0, "vassign": 0, "mutate": 1, "extract": 0, "seek": 0, "getline": 0}
FORBIDDEN = ("open", "binwrite", "fs", "solver", "sparse", "triplets", "search", "export", "load", "cfgread", "csvread", "print")


def check_loop(rep, I, lp, tag):
    where = lp.loc
    L, it = lp.L, lp.it
    omp = lp.omp
    if omp is None:
        raise Unmodelled("parallel region without worksharing loop at " + where)
    name = "%s (%s)" % (lp.fn.q if lp.fn else "?", tag)
    for x in lp.E:
        if x in ("brk", "ret", "throw") and lp.E[x] is not FALSE:
            if x == "throw":
                continue
            rep.fail("a parallel loop runs all its iterations: " + name, where, "a jump leaves the loop when " + short(lp.E[x], 200))
    priv = {n for n, _ in clauses(omp, "private", "firstprivate", "lastprivate", "linear")}
    red = dict(clauses(omp, "reduction"))
    lv = loop_variables(lp.node) if lp.kind == "for" else set()
    own = {}
    changed = {}
    for K, ki in lp.keys.items():
        root, path = K
        nd = sum(1 for p in path if p == "[]")
        if root in STD or ki.N is None or ki.N is ki.m:
            continue
        vn = var_name(root)
        what = "%s%s" % (vn, "".join("." + str(p) for p in path))
        if nd == 0:
            if vn in lv and ki.cls == "ind":
                continue
            if vn in priv:
                changed[K] = "private"
                continue
            if vn in red and not path:
                op = red[vn]
                isf = not is_int(ki)
                if op in ("max", "min", "&&", "||", "&", "|", "^") or not isf:
                    changed[K] = "reduction"
                    continue
                rep.fail("sums are formed in a fixed order: " + name, where,
                         "reduction(%s:%s) over floating-point values depends on the number of threads and the schedule" % (op, vn))
                continue
            rep.fail("no shared variable is written in parallel: " + name, where,
                     "every iteration of the parallel loop at %s writes the shared variable %s" % (where, what))
            continue
        if any(a == "[]" and b in ("has",) for a, b in zip(path, path[1:])):
            if mismatch(ki.N, ki.m, TRUE) is None:
                continue
            rep.fail("no map is modified in parallel: " + name, where, "the parallel loop at %s inserts into or erases from %s" % (where, what))
            continue
        o = owner(ki.N, ki.m, nd, it)
        if o is None:
            if mismatch(ki.N, ki.m, TRUE) is None:
                continue
            rep.fail("iterations write only elements of their own: " + name, where,
                     "an iteration of the parallel loop at %s writes elements of %s other than one that belongs to it alone; new value %s"
                     % (where, what, short(ki.N, 300)))
            changed[K] = None
            continue
        own[K] = o
        changed[K] = o
        rep.ok("iterations write only elements of their own: %s: %s" % (name, what), where)
    # ---------------------------------------------------------------- reads
    def check_atom(a, src):
        if a.kind != "mu" or a.args[0] != L:
            return
        K = a.args[1]
        c = changed.get(K)
        if K not in changed or c is None:
            return
        what = "%s%s" % (var_name(K[0]), "".join("." + str(p) for p in K[1]))
        if c == "private":
            rep.fail("private variables do not carry values between iterations: " + name, where,
                     "%s uses the value the private variable %s had before the iteration" % (src, what))
        elif c == "reduction":
            rep.fail("accumulated values are used only after the loop: " + name, where, "%s uses the partial value of the reduction variable %s" % (src, what))
        else:
            k, idx = c
            x = a.args[2 + k]
            if isinstance(x, Poly) and not p_zero(p_sub(x, idx)):
                rep.fail("iterations read written data only at elements of their own: " + name, where,
                         "%s reads %s at index %s while other iterations write it" % (src, what, short(leaf(x), 120)))
    for K, ki in lp.keys.items():
        if K[0] in STD or ki.N is None or ki.N is ki.m:
            continue
        N = ki.N
        if K in own:
            k, idx = own[K]
            N = Subst({ARGS[k]: leaf(idx)}).d(N)
        elif changed.get(K) in ("reduction", "private"):
            # what such a variable contributes shows in the values of the others
            continue
        elif K not in changed:
            continue
        for a in sorted(N.deps, key=lambda a: a.id):
            check_atom(a, "%s%s" % (var_name(K[0]), "".join("." + str(p) for p in K[1])))
    for a in atoms_of(lp, L):
        check_atom(a, "the loop body")
    for x, d in lp.E.items():
        for a in d.deps:
            check_atom(a, "the loop body")
    # ---------------------------------------------------------------- effects
    def events(evs):
        for e in evs:
            if isinstance(e, Loop):
                events(e.rawevents)
                continue
            if e.kind in CONTAINER:
                r = e.data[CONTAINER[e.kind]]
                if not own_ref(I, r, it, lp.serial0):
                    rep.fail("containers changed in parallel belong to one iteration: " + name, e.loc,
                             "the parallel loop at %s changes the size or contents of %s" % (where, short(r, 120)))
            elif e.kind in ("out", "str"):
                r = e.data[0]
                if isinstance(r, core.D) and not all(isinstance(x, RefV) and (x.root in STD or I.serials.get(x.root, 0) > lp.serial0) for x in core.leaves_of(r)):
                    rep.fail("nothing is written to a file in parallel: " + name, e.loc, "output order depends on the schedule")
            elif e.kind in FORBIDDEN:
                rep.fail("no external effect in parallel: " + name, e.loc, "%s inside the parallel loop at %s" % (e.kind, where))
            elif e.kind == "ompother" and e.data[0] not in ("simd",):
                raise Unmodelled("OpenMP %s inside a parallel loop" % (e.data,))
            elif e.kind == "ompregion":
                raise Unmodelled("nested parallel region")
    events(lp.rawevents)
    rep.ok("parallel loop analysed: " + name, where, "%d modified locations" % len(changed))


def is_int(ki):
    """the accumulated variable holds integers"""
    for d in (ki.I, ki.N):
        for a in d.deps:
            if a.kind in ("mu",):
                continue
        for x in core.leaves_of(d):
            if isinstance(x, bool):
                continue
            if not isinstance(x, Poly):
                return False
            for m, c in x.t:
                if c.denominator != 1:
                    return False
                for a, p in m:
                    if a.kind == "mu" or a.info == "int" or a.kind in ("nbsize", "size", "it"):
                        continue
                    if a.kind == "sum":
                        continue
                    return False
    return True


def omp_nodes(db):
    out = []

    def w(o, f):
        if isinstance(o, dict):
            if o.get("k") == "omp":
                out.append((f, o))
            for v in o.values():
                w(v, f)
        elif isinstance(o, list):
            for v in o:
                w(v, f)
    for f in db.funcs.values():
        w(f.o, f)
    return out


def only_loops(s):
    if s is None:
        return True
    if s.get("k") == "block":
        return all(only_loops(x) for x in s.get("s", ()))
    return s.get("k") == "omp" and "for" in s["n"].split()


def s17(rep):
    """every OpenMP loop: owned writes, owned reads, no order-dependent effect"""
    seen = set()
    done = set()
    for I, lp, what in parallel_loops(rep):
        if lp.omp is not None:
            seen.add((lp.fn.q if lp.fn else None, lp.omp["l"]))
        k = (lp.loc, what)
        if k in done:
            continue
        done.add(k)
        check_loop(rep, I, lp, what)
    reached = rep.functions
    n = 0
    for f, o in omp_nodes(rep.db):
        n += 1
        if (f.q, o["l"]) in seen:
            rep.ok("directive analysed", "%s:%d" % (f.q, o["l"]))
        elif o["n"] == "parallel" and only_loops(o.get("s")):
            rep.ok("region with nothing but work-sharing loops", "%s:%d" % (f.q, o["l"]))
        elif f.q in reached:
            rep.undecided("directive analysed", "the OpenMP directive '%s' is not on a loop this analysis summarises" % o["n"], "%s:%d" % (f.q, o["l"]))
        else:
            rep.ok("directive in code that no analysed entry point reaches", "%s:%d" % (f.q, o["l"]))
    rep.stats["omp_directives"] = n
    rep.stats["parallel_loops_checked"] = len(done)
