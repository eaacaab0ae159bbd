"""The question a generator asks before it replaces input files (S27)."""
from base import *
import ids
from lib import batom, satom

YES, NO = ("y", "Y"), ("n", "N")
END = None
# answers that are none of the four letters; the last one stands for all of them
WORDS = ("yes", "no", "Yes", "NO", "yy", "ny", "1", "0", "q", "maybe")
# used instead of "any other word" when the dialogue looks at the letters of an answer
LETTERS = WORDS + ("YES", "Nope", "nn", "NN", "YY", "yn", "Y1", "n.", "y!", "ye", "ok", "j", "o", "t", "true", "f", "false", "yesno", "an", "ay", "xY", "aN")


class Answers:
    """what the standard input contains: one word per line"""

    def __init__(self, words):
        self.words = words
        self.src = Str((atom("stdin", "g:std::cin"),))
        self.reads = []

    def records(self, I):
        return None

    def at(self, pos):
        k = as_poly(pos).const()
        if k is None:
            raise Unmodelled("an answer at an unknown position")
        return self.words[int(k)] if 0 <= k < len(self.words) else END

    def tok(self, s, pos, tn, fv):
        if s is not self.src:
            return fv(s, pos)
        w = self.at(pos)
        if tn != "word":
            raise Unmodelled("answers read as " + tn)
        return leaf(Str(())) if w is END else leaf(w)

    def tokok(self, s, pos, tn, fo):
        if s is not self.src:
            return fo(s, pos)
        return FALSE if self.at(pos) is END else TRUE

    def line(self, s, pos, fv):
        return self.tok(s, pos, "word", fv)

    def lineok(self, s, pos, fo):
        return self.tokok(s, pos, "word", fo)

    def contains(self, s, y):
        return None

    def num(self, base, s, fv):
        return fv(s)

    numok = num


def other(k):
    """any word but the four answers"""
    return Str((atom("otherword", k, YES + NO),))


class Asked:
    """the dialogue for one list of formats and one sequence of answers"""

    def __init__(self, rep, db, exts, words):
        core.NANMODE[0] = False
        self.W = W = World(db)
        I = W.I
        f = [x for x in db.fn("GeneratorDialogue::generatorDialogue") if x.o.get("body")]
        if len(f) != 1:
            raise Unmodelled("GeneratorDialogue::generatorDialogue")
        self.f = f = f[0]
        ps = [f.tu.ty(p["t"]) for p in f.o["params"]]
        self.dir = Str((atom("sym", "dir"),))
        self.writes = []
        for q in ("toProf", "toVtu", "toCsv", "toVtuAscii", "toVtuBinary"):
            I.hooks["ParticlesExporter::" + q] = self.h_write(q)
        lv = W.sym_object(ps[1], "particles")
        root, base = W.particle_vector(lv)
        self.given = {p[len(base):]: d for p, d in I.st[root].items() if p[:len(base)] == base and "neighbors" not in p}
        el = leaf(Str((exts[-1],)))
        for k in range(len(exts) - 2, -1, -1):
            el = ite(cmp("==", A(0), num(k), False), leaf(Str((exts[k],))), el)
        ev = I.materialise(Agg({("#",): num(len(exts)), ("[]",): el}), ps[2])
        I.max_unroll = 8
        self.C = I.content = Answers(words)
        self.heads = []
        emit = I.emit

        def watch(kind, data, node=None, g=None):
            if kind in ("extract", "getline") and data[0].is_leaf and data[0].leaf.root == "g:std::cin":
                self.heads.append((I.snapshot(), I.live, I.ctx, I.where(node), as_poly(data[1].leaf)))
            return emit(kind, data, node, g)
        I.emit = watch
        this = W.this_of(f)
        I.call_func(f, this, [leaf(self.dir), lv, ev], {"l": f.line})
        rep.note(W)

    def h_write(self, q):
        def h(I, this, args, e):
            root, b = self.W.particle_vector(I.field(this, "particles"))
            st = I.st[root]
            content = {p[len(b):]: d for p, d in st.items() if p[:len(b)] == b}
            self.writes.append((q, [I.scalar(a) for a in args], d_and(I.live, I.ctx), I.where(e), content))
            return leaf(core.VOID)
        return h


def path_of(A, ext):
    return leaf(Str(A.dir.parts + ("/input" + ext,)))


def asked(rep, db, name, exts, words):
    """the effects are those required; the first of the four letters decides"""
    try:
        A_ = Asked(rep, db, exts, words)
    except core.Endless:
        rep.fail(name + ": the generator ends", "GeneratorDialogue::generatorDialogue", "the question is repeated for ever")
        return None
    W, loc = A_.W, A_.f.file
    yes = next((w.const() in YES for w in words if w.const() in YES + NO), False)
    D_ = batom("exists", leaf(A_.dir))
    need = FALSE
    care = TRUE
    for x in exts:
        E = batom("exists", path_of(A_, x))
        care = d_and(care, d_or(D_, d_not(E)))
        need = d_or(need, E)
    want = TRUE if yes else d_not(need)
    done = {x: FALSE for x in exts}
    for q, args, g, where, content in A_.writes:
        to = None
        for x in exts:
            if mismatch(args[0], path_of(A_, x), g) is None:
                to = x
        if not rep.check(to is not None, name + ": only the requested files are written", where, "%s writes to %s" % (q, short(args[0], 200))):
            continue
        done[to] = d_or(done[to], g)
        rep.check(q in {".prof": ("toProf",), ".csv": ("toCsv",)}.get(to, ("toVtu", "toVtuAscii", "toVtuBinary")), name + ": the file input%s is written in the format of its extension" % to, where, "written by " + q)
        rep.same(name + ": the time in input%s" % to, args[1], ZERO, d_and(g, care), where)
        for p, d in A_.given.items():
            if p not in content:
                rep.fail(name + ": input%s holds the particles of the generator" % to, where, "%s lost" % (p,))
            else:
                rep.same(name + ": input%s holds the particles of the generator" % to, content[p], d, d_and(g, care), where)
    for x in exts:
        rep.same(name + ": input%s is written exactly when that is allowed" % x, done[x], want, care, loc)
    made = FALSE
    for e, ls, g in flat(W.I.ev):
        if e.kind == "fs":
            what = "%s(%s)" % (e.data[0], ", ".join(short(a, 100) for a in e.data[1:]))
            if rep.check(e.data[0] == "create_directories" and mismatch(e.data[1], leaf(A_.dir), g) is None, name + ": nothing but the directory is created or changed", e.loc, what):
                made = d_or(made, g)
        if e.kind == "open" and len(e.data) > 1 and d_and(g, care) is not FALSE and "in" not in str(e.data[2:3]):
            rep.fail(name + ": nothing else is written", e.loc, "opens " + short(e.data[1], 200))
    missing = restrict(d_and(want, d_and(d_not(D_), d_not(made))), care)
    rep.check(d_and(missing, care) is FALSE, name + ": the directory is created when it is missing", loc, "it is not when " + short(missing, 200))
    return A_


def stable(rep, name, A_):
    """the state after another of the other answers is the one before it, except for the answers read: by induction any number of
    them changes nothing"""
    def norm(d):
        ws = [a for a in d.deps if a.kind == "otherword"]
        return Subst({a: leaf(Str((atom("otherword", 0, YES + NO),))) for a in ws}).d(d) if ws else d
    h = A_.heads[-3:-1]     # after the last two of the other answers
    if len(h) < 2:
        return False
    (s1, l1, c1, w1, p1), (s2, l2, c2, w2, p2) = h
    s0 = A_.heads[-4][0] if len(A_.heads) > 3 else s1
    if l1 is not l2 or c1 is not c2 or w1 != w2:
        return False
    for root, m in s1.items():
        if root not in s0:
            continue        # declared anew for each answer
        for p, d in m.items():
            d2 = s2.get(root, {}).get(p)
            if d2 is None or root == "g:std::cin" and p in (("$pos",), ("$line",)):
                continue
            if d2 is not d and norm(d2) is not norm(d):
                return False
    return True


def lists(rep):
    """the lists of formats the generators ask for, and two more"""
    out = [(".csv",), (".csv", ".vtu", ".prof")]
    for name, db in sorted(rep.db.programs().items()):
        if "generator" not in name:
            continue
        for args, g, loc in ids.one_generator(Report(rep.pid, rep.db), name, db):
            v = args[2]
            n = as_poly(v.m[("#",)].leaf).const()
            if n is None:
                raise Unmodelled("formats of " + name)
            xs = tuple(sub_arg(v.m[("[]",)], num(k)).leaf.const() for k in range(int(n)))
            rep.check(xs and all(x in (".prof", ".vtu", ".csv") for x in xs), name + ": the formats asked for exist", loc, str(xs))
            if xs not in out:
                out.append(xs)
    return out


def s27(rep):
    db = [d for n, d in sorted(rep.db.programs().items()) if "generator" in n]
    if not db:
        rep.fail("generators exist", "generator", "no generator programs")
        return
    db = db[0]
    S = lambda *ws: tuple(w if isinstance(w, Str) else Str((w,)) for w in ws)
    ls = lists(rep)
    free = spelled(rep, db, ls[0], S)
    for exts in ls:
        for k in range(5):
            for last in YES + NO + (END,):
                if k > 1 and last in ("Y", "N") or k and len(exts) > 2:
                    continue
                if free or not k:
                    choices = [[other(i + 1) for i in range(k)]]
                elif k == 1:
                    choices = [S(w) for w in LETTERS]
                else:
                    choices = [S(*[w] * k) for w in LETTERS[::4]] + [S(*[LETTERS[(3 * j + 5 * i) % len(LETTERS)] for i in range(k)]) for j in range(3)]
                for c in choices:
                    ws = tuple(c) + (S(last) if last is not END else ())
                    said = "%d other answers" % k if free else ", ".join(w.const() for w in c)
                    if last is END:
                        name = "%s, %s, then the end of the input" % (",".join(exts), said)
                    else:
                        name = "%s, %s, then %s" % (",".join(exts), said, last)
                    if last in NO:
                        ws += S("y")        # never looked at
                    A_ = asked(rep, db, name, exts, ws)
                    if A_ is not None and k == 4 and last == "y" and (free or len({w.const() for w in c}) == 1) and not stable(rep, name, A_):
                        rep.undecided("any number of other answers", "the dialogue keeps a record of the answers")
        if len(exts) == 1:
            for w in WORDS:
                for last in ("y", "n", END):
                    asked(rep, db, "%s, %s, then %s" % (exts[0], w, last or "the end of the input"), exts, S(w) + (S(last) if last is not END else ()))


def spelled(rep, db, exts, S):
    """does the dialogue only compare whole answers: then one unknown word stands for all the others"""
    try:
        A_ = Asked(Report(rep.pid, rep.db), db, exts, (other(1), other(2)) + S("y"))
    except (Unmodelled, core.Endless):
        return False
    seen = [g for e, ls, g in flat(A_.W.I.ev)] + [x for h in A_.heads for x in (h[1], h[2])] + [w[2] for w in A_.writes]
    return not any(a.kind == "otherword" for g in seen for a in g.deps)
