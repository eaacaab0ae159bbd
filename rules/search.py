"""The neighbour search itself (S04, S05): cell storage, binning, scanning."""
from base import *
import core
import interp
from world import World


class Stop(Exception):
    pass


def at_first_search(db, nan):
    """the state in which a time step starts its first neighbour search: (world, this, args)"""
    core.NANMODE[0] = False
    W = World(db)
    W.make_simulation()
    W.settle()
    I = W.I
    f = W.method("MPS::stepForward")
    W.mps = I.field(W.sim.d, "mps")
    got = []

    def h(I_, this, args, e):
        got.append((this, args, e))
        raise Stop()
    I.hooks["NeighborSearcher::setNeighbors"] = h
    try:
        I.call_func(f, W.mps, [], {"l": f.line})
    except Stop:
        pass
    if not got:
        raise Finding("S03", "a time step searches neighbours", "MPS::stepForward", "no call of NeighborSearcher::setNeighbors is reached")
    I.depth, I.frames, I.brk, I.tries, I.loc_stack = 0, [], [], [], []
    I.live = I.ctx = TRUE
    I.omp_next = None
    I.ev, I.loops = [], []
    return W, got[0][0], got[0][1]


def cases(W, this, args):
    """the search runs once per combination of values of the searcher's scalars (which radius is the largest)"""
    I = W.I
    root, path = root_of(this)
    start = I.snapshot()
    out = []

    def rec(cond):
        for p, d in start[root].items():
            if p[:len(path)] == path and "[]" not in p and I.kind_of(d) == "num":
                d = restrict(d, cond)
                if not d.is_leaf:
                    for c, l in leaf_conds(d):
                        rec(d_and(cond, c))
                    return
        out.append(cond)
    rec(TRUE)
    for cond in out:
        yield cond, {r: {p: restrict(d, cond) for p, d in dct.items()} for r, dct in start.items()}


def run_search(W, this, args, st, unroll=1):
    """one search from arbitrary lists; (loops, events, final state)"""
    I = W.I
    I.st = st
    root, base = W.particle_vector(args[0])
    a = atom("state", "list size", patom(ARGS[0]), nn=True)
    a.info = "int"
    I.st[root][base + ("[]", "neighbors", "#")] = dat(a)
    I.ev, I.loops = [], []
    old = I.max_unroll
    I.max_unroll = unroll
    f = W.method("NeighborSearcher::setNeighbors")
    I.hooks.pop("NeighborSearcher::setNeighbors", None)
    try:
        I.call_func(f, this, args, {"l": f.line})
    finally:
        I.max_unroll = old
    return (root, base)


# ------------------------------------------------------------------ polynomials
def coeff(p, a):
    """(q, r) with p = a*q + r, a not in r and at most linear in p; None if a occurs otherwise"""
    q, r = [], []
    for m, c in p.t:
        e = dict(m).get(a)
        if e is None:
            if any(a in x.deps or x is a for x, _ in m):
                return None
            r.append((m, c))
        elif e == 1:
            q.append((tuple((x, k) for x, k in m if x is not a), c))
        else:
            return None
    Q, R = P0, P0
    for m, c in q:
        Q = p_add(Q, mono_poly(m, c))
    for m, c in r:
        R = p_add(R, mono_poly(m, c))
    return Q, R


def mono_poly(m, c):
    p = pconst(c)
    for a, k in m:
        x = patom(a) if k > 0 else p_inv(patom(a))
        for _ in range(abs(k)):
            p = p_mul(p, x)
    return p


def pconst_of(p):
    if not p.t:
        return 0
    if len(p.t) == 1 and not p.t[0][0]:
        return p.t[0][1]
    return None


def poly_of(d):
    if d.is_leaf and isinstance(d.leaf, Poly):
        return d.leaf
    return None


class Search:
    """the loops of one search"""

    def __init__(self, rep, W, this, args, st, cond, nan):
        self.W, self.cond = W, cond
        I = self.I = W.I
        core.NANMODE[0] = nan
        try:
            self.root, self.base = run_search(W, this, args, st)
        finally:
            core.NANMODE[0] = False
        self.el = self.base + ("[]",)
        self.find()

    def lists(self, ref):
        """is the reference the list of a particle: the particle's index"""
        if not ref.is_leaf or not isinstance(ref.leaf, RefV):
            return None
        r, p, idx = self.I.split_ref(ref.leaf)
        if r == self.root and p == self.el + ("neighbors",):
            return idx[0]
        return None

    def find(self):
        """the scanning nest [outer loop, ..., loop along a chain] and its append; other events on lists"""
        self.appends, self.others = [], []

        def rec(evs, nest):
            for e in evs:
                if isinstance(e, Loop):
                    rec(e.events, nest + [e])
                elif e.kind in ("append", "clear", "vresize", "vassign", "mutate"):
                    i = self.lists(e.data[0])
                    if i is not None:
                        (self.appends if e.kind == "append" else self.others).append((nest, e, i))
        rec(self.I.ev, [])

    def typ(self, d, x):
        return sub_arg(d, x)


def near(W, name):
    return cfg(name)


def domain(d):
    return cfg("domainMin/%d" % d), cfg("domainMax/%d" % d)


def inbox(x, pos):
    g = TRUE
    for d in range(3):
        lo, hi = domain(d)
        g = d_and(g, d_and(le(lo, pos[d]), le(pos[d], hi)))
    return g


def pos0(x):
    return [sub_arg(dat(atom("fld", "position.%d" % d, 0, patom(ARGS[0]))), x) for d in range(3)]


def type0(x):
    return sub_arg(evar(atom("fld", "type", 0, patom(ARGS[0])), "ParticleType"), x)


def searches(rep, nan):
    key = "_search%d" % nan
    r = getattr(rep.db, key, None)
    if r is None:
        W, this, args = at_first_search(rep.db, nan)
        r = []
        for cond, st in cases(W, this, args):
            S = generic_search(rep, W, this, args, st, cond, nan)
            S.st, S.loops, S.ev = W.I.st, W.I.loops, W.I.ev
            r.append(S)
        setattr(rep.db, key, (W, r))
        r = (W, r)
    rep.note(r[0])
    return r


def generic_search(rep, W, this, args, st, cond, nan):
    """a search from a state in which everything an earlier search may have left behind is arbitrary"""
    generic = {}
    for rnd in range(5):
        s0 = {r: dict(d) for r, d in st.items()}
        for (r, p), d in generic.items():
            s0.setdefault(r, {})[p] = d
            W.I.serials.setdefault(r, 0)
        before = {r: dict(d) for r, d in s0.items()}
        S = Search(rep, W, this, args, s0, cond, nan)
        more = {}
        for r, dct in W.I.st.items():
            if r not in before and not r.startswith(("static:", "g:")) or r.startswith("g:std::"):
                continue
            for p, d in dct.items():
                if r == S.root and p[:len(S.base)] == S.base or (r, p) in generic:
                    continue
                if before.get(r, {}).get(p) is not d and W.I.kind_of(d) != "ref":
                    more[(r, p)] = W.state_atom(r, p, d)
        if not more:
            return S
        generic.update(more)
    raise Unmodelled("the state carried from search to search does not stabilise")


RADII = ("radiusRatioForNumberDensity", "radiusRatioForGradient", "radiusRatioForLaplacian")


def s04(rep):
    """binning and scanning as transformers: cells are reset, every non-ghost particle is linked into the chain of its cell, the
    27 cells around a particle's cell are walked with the same cell formula, cell side >= search radius >= every interaction
    radius, and the walk appends exactly the others closer than the radius with their distance"""
    W, L = searches(rep, False)
    rep.check(L, "a search is analysed", "NeighborSearcher::setNeighbors", "")
    for k, S in enumerate(L):
        one_search(rep, S, "" if len(L) == 1 else " (radius case %d)" % (k + 1))


def walk(rep, S, apps, O, i, tag):
    """one loop along a chain of particles: where it starts, how it goes on, the cells it is started for and under which condition"""
    W = S.W
    nest, ap, owner = apps[0]
    if len(nest) < 2:
        raise Unmodelled("neighbours are not appended by a walk along cells")
    if nest[0] is not O:
        raise Unmodelled("lists are filled by more than one scan")
    L = nest[-1]
    where = L.loc
    ghost = W_ghost(W)
    for n_, e, o in apps:
        rep.same("one particle per iteration of the scan" + tag, o, i, where=O.loc)
    rep.same("the scan visits every particle" + tag, leaf(O.trip), dat(W.N), where=O.loc)
    # type after binning
    T = S.st[S.root][S.el + ("type",)]
    p_i = pos0(i)
    care_i = d_and(d_not(node_is(type0(i), ghost)), inbox(i, p_i))
    rep.same("only ghosts are skipped: types at the scan" + tag, restrict(sub_arg(T, i), care_i), type0(i), care_i, O.loc)
    g = O.guard
    for l in nest[1:]:
        g = d_and(g, l.guard)
    # walk along one cell
    jk, j, j0, jn = chain_key(L)
    if jk is None:
        raise Unmodelled("the loop that appends neighbours does not follow a chain")
    full = d_and(care_i, ge(j, num(-1)))
    if mismatch(L.cond, d_not(equal_num(j, num(-1))), full) is not None and mismatch(L.cond, ge(j, ZERO), full) is not None:
        rep.same("the walk ends at the end of the chain" + tag, L.cond, d_not(equal_num(j, num(-1))), full, where)
    kf, c0 = array_read(S, j0)
    kn, cn = array_read(S, jn)
    if kf is None or kn is None:
        raise Unmodelled("cell storage of the neighbour search")
    rep.same("the walk starts at the head of the cell's chain" + tag, restrict(j0, care_i), restrict(sub_arg(S.st[kf[0]][kf[1]], leaf(c0)), care_i), care_i, where)
    its = {l.it: l.trip for l in nest[1:-1]}
    g = settle(restrict(g, care_i), i, its)
    if g is FALSE:
        return None
    visited = enum_cells(c0, nest[1:-1])
    if visited is None:
        raise Unmodelled("the cells visited by the scan are not a fixed set")
    if any(x in g.deps for x in its):
        raise Unmodelled("which cells the scan visits depends on the cell")
    for l in nest:
        for n_, v in l.E.items():
            rep.check(v is FALSE, "the scan is not left early" + tag, l.loc, "%s when %s" % (n_, short(v, 200)))
    return dict(nest=nest, apps=apps, care=care_i, kf=kf, kn=kn, j=j, jn=jn, guard=g, visited=visited, where=where)


def settle(g, i, its):
    """a condition for a particle inside the domain: its cell coordinate t lies between 0 and the number n of whole cells"""
    p_i = [poly_of(x).as_atom() for x in pos0(i)]

    def known(v):
        if v.kind != "sgn" or not isinstance(v.arg, Poly):
            return None
        t = [a for a in v.arg.deps if a.kind == "trunc" and any(x in a.deps for x in p_i)]
        if len(t) != 1:
            return None
        t = t[0]
        d = [k for k in range(3) if p_i[k] in t.deps]
        arg = t.args[0] if isinstance(t.args[0], Poly) else poly_of(t.args[0])
        if len(d) != 1 or arg is None:
            return None
        lo, hi = domain(d[0])
        k = coeff(arg, p_i[d[0]])
        if k is None or not p_zero(p_sub(arg, poly_of(d_mul(leaf(k[0]), d_sub(pos0(i)[d[0]], lo))))):
            return None
        n = poly_of(d_trunc(d_mul(d_sub(hi, lo), leaf(k[0])))).as_atom()
        r = coeff(v.arg, t)
        if r is None or n is None:
            return None
        c, rest = pconst_of(r[0]), r[1]
        r = coeff(rest, n)
        if c is None or r is None:
            return None
        e, rest = pconst_of(r[0]), r[1]
        low = high = 0
        for m, x in rest.t:
            if not m:
                low, high = low + x, high + x
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in its and pconst_of(its[m[0][0]]) is not None:
                top = x * (pconst_of(its[m[0][0]]) - 1)
                low, high = low + min(0, top), high + max(0, top)
            else:
                return None
        if e is None:
            return None
        # c*t + e*n over 0 <= t <= n is between the values at t = 0 and t = n
        lower = low if e >= 0 and c + e >= 0 else None
        upper = high if e <= 0 and c + e <= 0 else None
        if lower is not None and lower > 0:
            return {1}
        if upper is not None and upper < 0:
            return {-1}
        if lower is not None and lower == 0:
            return {0, 1}
        if upper is not None and upper == 0:
            return {-1, 0}
        return None
    memo = {}

    def rec(n):
        if n.is_leaf:
            return n
        if n not in memo:
            v = known(n.var)
            if v is None:
                memo[n] = node(n.var, [(x, rec(k)) for x, k in n.kids], None if n.dflt is None else rec(n.dflt))
            else:
                l = [rec(core.cof(n, n.var, x)) for x in sorted(v)]
                if len(l) == 1 or l[0] is l[1]:
                    memo[n] = l[0]
                else:
                    memo[n] = node(n.var, [(x, rec(core.cof(n, n.var, x))) if x in v else (x, l[0]) for x in n.var.vals])
        return memo[n]
    return rec(g)


def appended(rep, S, w, R2, i, tag):
    """the walk appends exactly the others closer than the radius, with their index and distance"""
    W = S.W
    apps, j, jn, kn, care_i, where, L = w["apps"], w["j"], w["jn"], w["kn"], w["care"], w["where"], w["nest"][-1]
    ap = apps[0][1]
    ghost = W_ghost(W)
    p_i = pos0(i)
    jj = fresh_it()
    x = dat(jj)
    on = Subst({poly_of(j).as_atom(): x})
    d2 = ZERO
    pj = pos0(x)
    for a, b in zip(pj, p_i):
        d2 = d_add(d2, sq(d_sub(a, b)))
    care = conj([care_i, d_not(node_is(type0(x), ghost)), inbox(x, pj)])
    gap = FALSE
    for n_, e, o in apps:
        gap = d_or(gap, e.g)
    gj = restrict(on.d(d_and(L.cond, gap)), care)
    R2g = radius2(gj, d2, x)
    if R2g is None:
        R2g = R2
    rep.same("exactly the other particles closer than the search radius are listed" + tag, gj, d_and(d_not(equal_num(x, i)), lt(d2, leaf(R2g))), care, ap.loc)
    ok = restrict(ge(leaf(R2), leaf(R2g)), S.cond) is TRUE
    rep.check(ok, "cell side is at least the search radius" + tag, where, "search radius^2 = %s, cell side^2 = %s" % (short(leaf(R2g), 200), short(leaf(R2), 200)))
    for r in RADII:
        rr = d_mul(cfg(r), cfg("particleDistance"))
        root = leaf_sqrt(R2g)
        q = restrict(ge(root, rr), S.cond)
        rep.check(q is TRUE or follows(d_sub(root, rr), S.cond), "search radius covers %s%s" % (r, tag), "MPS::MPS", "search radius %s is smaller when %s" % (short(root, 200), short(d_not(q), 300)))
    for n_, e, o in apps:
        v = e.data[1]
        ga = restrict(on.d(d_and(L.cond, e.g)), care)
        if not hasattr(v, "m"):
            raise Unmodelled("value appended to a neighbour list")
        rep.same("listed index" + tag, restrict(on.d(v.m[("id",)]), ga), x, d_and(care, ga), e.loc)
        rep.same("listed distance" + tag, restrict(on.d(v.m[("distance",)]), ga), d_sqrt(d2), d_and(care, ga), e.loc)
    if len(apps) > 1:
        for a in range(len(apps)):
            for b in range(a):
                rep.check(restrict(d_and(apps[a][1].g, apps[b][1].g), care) is FALSE, "a neighbour is listed once" + tag, apps[a][1].loc, "two appends for one pair")
    rep.same("the walk follows the links" + tag, restrict(on.d(jn), care), restrict(sub_arg(S.st[kn[0]][kn[1]], x), care), care, where)


def one_search(rep, S, tag):
    I, W = S.I, S.W
    if not rep.check(S.appends, "lists are filled" + tag, "NeighborSearcher::setNeighbors", "no neighbour is ever appended"):
        return
    groups = []
    for x in S.appends:
        for l in groups:
            if l[0][0][-1] is x[0][-1]:
                l.append(x)
                break
        else:
            groups.append([x])
    O = S.appends[0][0][0]
    i = dat(O.it)
    walks = [w for w in (walk(rep, S, l, O, i, tag) for l in groups) if w is not None]
    if not rep.check(walks, "surroundings are scanned" + tag, O.loc, "no particle inside the domain is reached"):
        return
    care_i = walks[0]["care"]
    first = walks[0]
    kf, kn, where = first["kf"], first["kn"], first["where"]
    for w in walks[1:]:
        if w["kf"] != kf or w["kn"] != kn:
            raise Unmodelled("the walks use different cell storages")
    B = loop_of(S, kf)
    # -------------------------------------------------- cells visited: one case per combination of walks
    split = [care_i]
    for w in walks:
        split = [c for x in split for c in (d_and(x, w["guard"]), d_and(x, d_not(w["guard"]))) if c is not FALSE and feasible(c) is not FALSE]
        if len(split) > 64:
            raise Unmodelled("too many ways to scan the cells")
    C = R2 = None
    for c in split:
        live = [w for w in walks if d_and(c, d_not(w["guard"])) is FALSE]
        rep.check(live, "every non-ghost particle's surroundings are scanned" + tag, O.loc, "no cell is visited when " + short(restrict(c, care_i), 300))
        if not live:
            return
        visited = [p for w in live for p in w["visited"]]
        g_ = geometry(rep, S, visited, i, kf, where, tag, d_and(c, S.cond))
        if g_ is None:
            return
        if C is not None and not (p_zero(p_sub(C, g_[0])) and p_zero(p_sub(R2, g_[1]))):
            raise Unmodelled("cell numbering depends on the case")
        C, R2 = g_
    for w in walks:
        appended(rep, S, w, R2, i, tag)
    mids, L = first["nest"][1:-1], first["nest"][-1]
    # -------------------------------------------------- lists start empty
    nk = (S.root, S.el + ("neighbors", "#"))
    first = mids[0] if mids else L
    ki = first.keys.get(nk)
    if ki is None:
        raise Unmodelled("list size is not carried by the scan")
    rep.same("lists are emptied before they are filled" + tag, restrict(sub_arg(ki.I, i), care_i), ZERO, care_i, O.loc)
    for n_, e, o in S.others:
        if len(n_) != 1 or n_[0] is not O or O.events.index(e) > min(O.events.index(x) for x in O.events if isinstance(x, Loop)):
            rep.fail("lists are not changed after they are filled" + tag, e.loc, "%s of a list" % e.kind)
        else:
            rep.same("own list only" + tag, o, i, where=e.loc)
    for l in S.loops:
        for (r, p), ki in l.keys.items():
            if r == S.root and p[:len(S.el)] == S.el and ki.N is not ki.m:
                f = p[len(S.el):]
                if f[0] not in ("neighbors", "type"):
                    rep.fail("the search changes only lists and types" + tag, l.loc, "particle member %s is written" % ".".join(f))
    # -------------------------------------------------- the scan happens for every particle in the domain
    rep.same("every particle is scanned" + tag, restrict(O.guard, care_i), TRUE, care_i, O.loc)
    # -------------------------------------------------- binning
    binning(rep, S, B, kf, kn, C, O, tag)


def follows(q, cond):
    """q >= 0 is a sum of differences that are non-negative on every branch of cond (transitivity)"""
    q = poly_of(q)
    pd = poly_of(cfg("particleDistance"))
    q = p_div(q, pd)
    bad = []

    def rec(n, facts):
        if n is FALSE:
            return
        if n.is_leaf:
            import itertools
            for k in range(0, len(facts) + 1):
                for c in itertools.combinations(facts, k):
                    t = P0
                    for f in c:
                        t = p_add(t, f)
                    if p_zero(p_sub(t, q)):
                        return
            bad.append(n)
            return
        for x, k in n.kids:
            f = []
            if n.var.kind == "sgn":
                if x in (1, 0):
                    f.append(n.var.arg)
                if x in (-1, 0):
                    f.append(p_neg(n.var.arg))
            rec(k, facts + f)
        if n.dflt is not None:
            rec(n.dflt, facts)
    rec(cond, [])
    return not bad


def W_ghost(W):
    return enum_value(W.db, "ParticleType", "Ghost")


def equal_num(a, b):
    return cmp("==", a, b)


def unit_guard(l, nest, i):
    return l.guard


def leaf_sqrt(p):
    return d_sqrt(leaf(p))


def chain_key(L):
    """the loop-carried index of the walk: (key, current value, first value, next value)"""
    for K, ki in L.keys.items():
        m = poly_of(ki.m)
        if m is None or "[]" in K[1] or ki.cls == "ind":
            continue
        a = m.as_atom()
        if a is not None and a.kind == "mu" and a in L.cond.deps:
            return K, ki.m, ki.I, ki.N
    return None, None, None, None


def array_read(S, d):
    """the array (key) that the value was read from, and the index"""
    got = {}
    for a in d.deps:
        if a.kind in ("post", "mu") and a.args[1][1][-1:] == ("[]",):
            if len(a.args) > 2:
                got.setdefault(a.args[1], set()).add(a.args[2])
    if len(got) != 1:
        return None, None
    (k, s), = got.items()
    if len(s) != 1:
        return None, None
    return k, s.pop()


def loop_of(S, key):
    """the loop that links particles into chains"""
    r = [l for l in S.loops if key in l.keys and l.keys[key].cls not in ("map", "same")]
    if len(r) != 1:
        raise Unmodelled("%d loops write the cell storage" % len(r))
    return r[0]


def enum_cells(c, mids):
    """index polynomials for all iterations of the loops around the walk (fixed iteration counts)"""
    out = [c]
    for l in mids:
        n = pconst_of(l.trip)
        if n is None or n > 125:
            return None
        nxt = []
        for p in out:
            for x in range(int(n)):
                d = Subst({l.it: num(x)}).d(leaf(p))
                if poly_of(d) is None:
                    return None
                nxt.append(poly_of(d))
        out = nxt
    return out


def geometry(rep, S, visited, i, kf, where, tag, case=TRUE):
    """cell formula: (centre cell as polynomial of i, squared cell side)"""
    n = len(visited)
    C = P0
    for p in visited:
        C = p_add(C, p)
    C = p_scale(C, core.F1 / n)
    p_i = [poly_of(x).as_atom() for x in pos0(i)]
    T = [None] * 3
    for m, c in C.t:
        for a, e in m:
            if a.kind == "trunc":
                for d in range(3):
                    if p_i[d] in a.deps:
                        if T[d] not in (None, a):
                            raise Unmodelled("two different cell coordinates per axis")
                        T[d] = a
    if any(t is None for t in T):
        rep.fail("the cell of a particle depends on all its coordinates" + tag, where, "cell index " + short(leaf(C), 300))
        return None
    Sd, q = [], []
    R = C
    for d in range(3):
        r = coeff(R, T[d])
        if r is None:
            raise Unmodelled("cell index is not linear in a cell coordinate")
        Sd.append(r[0])
        R = r[1]
        arg = T[d].args[0]
        arg = arg if isinstance(arg, Poly) else poly_of(arg)
        k = coeff(arg, p_i[d])
        if k is None:
            raise Unmodelled("cell coordinate is not linear in the position")
        q.append(k[0])
        lo, hi = domain(d)
        rep.same("cells of axis %d are measured from the domain's lower bound%s" % (d, tag), leaf(arg), d_mul(leaf(k[0]), d_sub(pos0(i)[d], lo)), where=where)
    for d in (1, 2):
        rep.same("cells are cubes" + tag, leaf(q[d]), leaf(q[0]), where=where)
    # offsets of the centre
    off = None
    rng = range(0, 7)
    import itertools
    for o in itertools.product(rng, repeat=3):
        t = P0
        for d in range(3):
            t = p_add(t, p_scale(Sd[d], core.F1 * o[d]))
        if p_zero(p_sub(t, R)):
            off = o
            break
    if off is None:
        rep.fail("cell coordinates have fixed offsets" + tag, where, "remainder %s of the cell index" % short(leaf(R), 300))
        return None
    # visited cells
    seen = {}
    lo_, hi_ = [0] * 3, [0] * 3
    for p in visited:
        df = p_sub(p, C)
        hit = None
        for o in itertools.product(range(-3, 4), repeat=3):
            t = P0
            for d in range(3):
                t = p_add(t, p_scale(Sd[d], core.F1 * o[d]))
            if p_zero(p_sub(t, df)):
                hit = o
                break
        if hit is None:
            rep.fail("visited cells are neighbours of the particle's cell" + tag, where, "cell offset " + short(leaf(df), 300))
            return None
        rep.check(hit not in seen, "no cell is visited twice" + tag, where, "offset %s" % (hit,))
        seen[hit] = True
        for d in range(3):
            lo_[d], hi_[d] = min(lo_[d], hit[d]), max(hi_[d], hit[d])
    # an axis along which the domain is shorter than a cell has one layer of cells with particles
    long_ = [d_sub(domain(d)[1], domain(d)[0]) for d in range(3)]
    flat_ = [restrict(lt(d_mul(long_[d], leaf(q[d])), ONE), case) is TRUE or restrict(le(long_[d], ZERO), case) is TRUE for d in range(3)]
    miss = [o for o in itertools.product((-1, 0, 1), repeat=3) if o not in seen and not any(flat_[d] and o[d] for d in range(3))]
    rep.check(not miss, "all 27 cells around a particle are visited" + tag, where, "missing offsets %s" % miss[:6])
    # numbers of cells
    first = S.st[kf[0]][kf[1][:-1] + ("#",)]
    num_ = []
    for d in range(3):
        a, b = domain(d)
        num_.append(as_poly(d_trunc(d_mul(d_sub(b, a), leaf(q[d]))).leaf))
    order = None
    for perm in itertools.permutations(range(3)):
        x, y, z = perm
        if not p_zero(p_sub(Sd[x], P1)):
            continue
        for mx in range(0, 9):
            nx = p_add(num_[x], pconst(mx))
            if not p_zero(p_sub(Sd[y], nx)):
                continue
            for my in range(0, 9):
                ny = p_add(num_[y], pconst(my))
                if not p_zero(p_sub(Sd[z], p_mul(nx, ny))):
                    continue
                order = (x, y, z, mx, my)
    if order is None:
        rep.fail("cell numbering is a mixed-radix number of the cell coordinates" + tag, where, "strides %s" % ", ".join(short(leaf(s), 150) for s in Sd))
        return None
    x, y, z, mx, my = order
    mz = None
    area = p_mul(p_add(num_[x], pconst(mx)), p_add(num_[y], pconst(my)))
    fp = poly_of(first)
    if fp is None:
        raise Unmodelled("size of the cell storage")
    for c in range(0, 9):
        if p_zero(p_sub(fp, p_mul(area, p_add(num_[z], pconst(c))))):
            mz = c
    if mz is None:
        rep.fail("the cell storage has one entry per cell" + tag, where, "its size is %s" % short(first, 300))
        return None
    m = {x: mx, y: my, z: mz}
    for d in range(3):
        rep.check(off[d] + lo_[d] >= 0, "scanning stays inside the cells (axis %d, low)%s" % (d, tag), where, "cell coordinate %d+%d can be negative" % (off[d], lo_[d]))
        rep.check(off[d] + hi_[d] <= m[d] - 1, "scanning stays inside the cells (axis %d, high)%s" % (d, tag), where,
                  "there are trunc(length/side)+%d cells, coordinates reach trunc(length/side)+%d" % (m[d], off[d] + hi_[d]))
    side = p_inv(q[0])
    return C, p_mul(side, side)


def radius2(g, d2, x):
    """R^2 of the comparison d^2 < R^2 in a guard"""
    px = poly_of(pos0(x)[0]).as_atom()
    dp = poly_of(d2)
    for v in g.vars:
        if v.kind != "sgn" or not isinstance(v.arg, Poly) or px not in v.arg.deps:
            continue
        c0 = None
        for m, c in v.arg.t:
            if m == ((px, 2),):
                c0 = c
        if c0 is None:
            continue
        rest = p_sub(v.arg, p_scale(dp, c0))
        if px in rest.deps:
            continue
        return p_scale(rest, core.F1 / -c0)
    return None


def binning(rep, S, B, kf, kn, C, O, tag):
    W = S.W
    it = dat(B.it)
    a = dat(ARGS[0])
    ghost = W_ghost(W)
    rep.same("binning visits every particle" + tag, leaf(B.trip), dat(W.N), where=B.loc)
    rep.same("binning is unconditional" + tag, B.guard, TRUE, where=B.loc)
    for n_, v in B.E.items():
        rep.check(v is FALSE, "binning is not left early" + tag, B.loc, "%s when %s" % (n_, short(v, 200)))
    kt = (S.root, S.el + ("type",))
    ty = sub_arg(B.keys[kt].m, it) if kt in B.keys else sub_arg(S.st[kt[0]][kt[1]], it)
    g = d_and(d_not(node_is(ty, ghost)), inbox(it, pos0(it)))
    c = Subst({O.it: it}).d(leaf(C))
    f, nx = B.keys[kf], B.keys.get(kn)
    if nx is None:
        raise Unmodelled("links are not written while binning")
    rest = [k for k in B.keys if k not in (kf, kn) and k[1][-1:] == ("[]",) and k[1][:-1] != () and B.keys[k].N is not B.keys[k].m and k[0] == kf[0] and k[1][:len(S.el)] != S.el]
    at = lambda d, y: sub_arg(d, y)
    hit = equal_num(a, c)
    mine = equal_num(a, it)
    care = TRUE
    results = []

    def template(name, spec, resets):
        bad = None
        for k, v in spec.items():
            mm = mismatch(at(B.keys[k].N, it), at(v, it)) or mismatch(B.keys[k].N, v, d_not(mine))
            if mm is not None:
                bad = (k, mm)
                break
        results.append((name, bad, resets))
        return bad is None
    M1 = num(-1)
    ok = False
    # newest first
    for own in (False,):
        sp = {kf: ite(d_and(g, hit), it, f.m), kn: ite(d_and(g, mine), at(f.m, c), nx.m)}
        ok = ok or template("newest first", sp, [kf])
    for kl in ([rest[0]] if len(rest) == 1 else []):
        l = B.keys[kl]
        for empty, nm in ((equal_num(at(l.m, c), M1), "last"), (equal_num(at(f.m, c), M1), "first")):
            for own in (False, True):
                if ok:
                    break
                prev = ite(d_and(g, mine), M1, nx.m) if own else nx.m
                sp = {kf: ite(conj([g, hit, empty]), it, f.m),
                      kn: ite(conj([g, d_not(empty), equal_num(a, at(l.m, c))]), it, prev),
                      kl: ite(d_and(g, hit), it, l.m)}
                ok = template("oldest first, " + nm, sp, [kf, kl] + ([] if own else [kn]))
    if not ok:
        name, (k, mm), _ = results[1] if len(results) > 1 else results[0]
        cond, code, spec = mm
        rep.fail("every non-ghost particle in the domain is linked once into the chain of its cell" + tag, B.loc,
                 "%s: code computes %s where linking requires %s%s" % (".".join(k[1]), code, spec, (" when " + cond) if cond else ""))
        return
    rep.ok("every non-ghost particle in the domain is linked once into the chain of its cell" + tag, B.loc)
    for k in results[-1][2]:
        size = S.st[k[0]][k[1][:-1] + ("#",)]
        rng = d_and(ge(a, ZERO), lt(a, size))
        rep.same("storage %s is reset before binning%s" % (k[1][-2], tag), restrict(B.keys[k].I, rng), M1, rng, B.loc)
    cells = S.st[kf[0]][kf[1][:-1] + ("#",)]
    for k in rest:
        rep.same("storage %s has one entry per cell%s" % (k[1][-2], tag), S.st[k[0]][k[1][:-1] + ("#",)], cells, where=B.loc)
    rep.same("one link per particle" + tag, S.st[kn[0]][kn[1][:-1] + ("#",)], dat(W.N), where=B.loc)


def s05(rep):
    """with comparisons that may involve not-a-number: a particle becomes a ghost exactly if it is not inside the closed box, and
    nothing is binned or scanned for a particle outside it"""
    W, L = searches(rep, True)
    core.NANMODE[0] = True
    try:
        for k, S in enumerate(L):
            tag = "" if len(L) == 1 else " (radius case %d)" % (k + 1)
            x = dat(ARGS[0])
            ghost = W_ghost(W)
            T = S.st[S.root][S.el + ("type",)]
            box = inbox(x, pos0(x))
            t0 = type0(x)
            g = leaf(En("ParticleType", ghost)) if False else None
            care = d_and(ge(x, ZERO), lt(x, dat(W.N)))
            isg = node_is(T, ghost)
            rep.same("a particle is a ghost afterwards exactly if it was one or is outside the box" + tag, isg,
                     d_or(node_is(t0, ghost), d_not(box)), care, writer(S, "type"))
            alive = d_not(isg)
            rep.same("other particles keep their type" + tag, restrict(T, alive), restrict(t0, alive), d_and(alive, care), writer(S, "type"))
            for nest, e, i in S.appends:
                g = nest[0].guard
                for l in nest[1:]:
                    g = d_and(g, l.guard)
                O = nest[0]
                xi = dat(O.it)
                bad = restrict(g, d_not(inbox(xi, pos0(xi))))
                rep.check(bad is FALSE, "only surroundings of particles inside the box are scanned" + tag, O.loc, "also when " + short(bad, 300))
            for l in S.loops:
                for (r, p), ki in l.keys.items():
                    if p[-1:] == ("[]",) and ki.cls == "post" and r != S.root or (p[-1:] == ("[]",) and ki.cls == "post" and p[:len(S.el)] != S.el):
                        xi = dat(l.it)
                        out = d_not(inbox(xi, pos0(xi)))
                        rep.same("no cell entry is written for a particle outside the box: %s%s" % (p[-2], tag), restrict(ki.N, out), restrict(ki.m, out), out, l.loc)
            for e in walk_events(S.ev):
                rep.check(e.kind not in ("exit", "maythrow"), "the search goes on" + tag, e.loc, "the program can end here")
    finally:
        core.NANMODE[0] = False
    # in bounds, from the geometry obligations of S04
    W, L = searches(rep, False)
    sub = Report(rep.pid, rep.db)
    for k, S in enumerate(L):
        one_search(sub, S, "" if len(L) == 1 else " (radius case %d)" % (k + 1))
    keep = ("cells of axis", "cells are cubes", "cell coordinates", "visited cells", "cell numbering", "the cell storage", "scanning stays", "every non-ghost particle in the domain is linked",
            "storage", "one link", "binning", "the walk", "one particle per", "the cell of a particle")
    rep.obls += [o for o in sub.obls if o.status == "undecided" or o.name.startswith(keep)]


def walk_events(evs):
    for e in evs:
        if isinstance(e, Loop):
            yield from walk_events(e.events)
        else:
            yield e


def writer(S, f):
    for l in S.loops:
        for (r, p), ki in l.keys.items():
            if r == S.root and p == S.el + (f,) and ki.N is not ki.m:
                return l.loc
    return "NeighborSearcher::setNeighbors"
