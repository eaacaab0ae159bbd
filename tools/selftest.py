#!/usr/bin/env python3
"""Self-test of the value domain (engine/core.py): random expressions are built through the canonicalising constructors and,
in parallel, as plain closures; both are evaluated on random numbers.   usage: selftest.py [seed] [count]"""
import math
import os
import random
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.setrecursionlimit(100000)
import core
from core import *


class Skip(Exception):
    pass


def ev_poly(p, env):
    s = 0.0
    for m, c in p.t:
        t = float(c)
        for a, e in m:
            x = ev_atom(a, env)
            if x == 0 and e < 0:
                raise Skip
            t *= x ** e
        s += t
    return s


def ev_atom(a, env):
    if a in env:
        return env[a]
    k = a.kind
    if k == "poly":
        return ev_poly(a.args[0], env)
    if k == "sqrt":
        x = ev_poly(a.args[0], env)
        if x < -1e-9:
            raise Skip
        return math.sqrt(max(x, 0))
    if k == "divzero":
        raise Skip
    if k == "abs":
        return abs(ev_poly(a.args[0], env))
    if k == "fn":
        return {"sin": math.sin, "cos": math.cos, "floor": math.floor, "ceil": math.ceil}[a.args[0]](ev_poly(a.args[1], env))
    if k in ("floor", "ceil", "trunc"):
        return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[k](ev_poly(a.args[0], env))
    raise Exception("atom kind " + k + " " + str(a))


def ev(d, env):
    while not d.is_leaf:
        v = d.var
        if v.kind == "sgn":
            x = ev_poly(v.arg, env)
            if abs(x) < 1e-7:
                raise Skip
            s = -1 if x < 0 else 1
            d = dict(d.kids)[s]
        elif v.kind == "b" or v.kind == "bool":
            d = dict(d.kids)[env[v.arg]]
        else:
            raise Exception("var " + v.kind)
    x = d.leaf
    if isinstance(x, bool):
        return x
    return ev_poly(x, env)


def gen(r, atoms, depth, env):
    """(D, closure) of a number"""
    if depth == 0 or r.random() < .15:
        if r.random() < .3:
            k = r.choice([0, 1, 2, -1, 3, .5])
            return num(Fraction(k)), (lambda: float(k))
        a = r.choice(atoms)
        return dat(a), (lambda: env[a])
    o = r.choice(["+", "-", "*", "/", "sqrt", "ite", "min", "max", "abs", "+", "-", "*", "sq", "hyp"])
    if o == "sqrt":
        d, f = gen(r, atoms, depth - 1, env)
        d2 = d_mul(d, d)
        return d_sqrt(d2), (lambda: abs(f()))
    if o == "sq":
        d, f = gen(r, atoms, depth - 1, env)
        return d_mul(d, d), (lambda: f() ** 2)
    if o == "abs":
        d, f = gen(r, atoms, depth - 1, env)
        return d_abs(d), (lambda: abs(f()))
    d, f = gen(r, atoms, depth - 1, env)
    e, g = gen(r, atoms, depth - 1, env)
    if o == "hyp":
        return d_sqrt(d_add(d_mul(d, d), d_mul(e, e))), (lambda: math.sqrt(f() ** 2 + g() ** 2))
    if o == "+":
        return d_add(d, e), (lambda: f() + g())
    if o == "-":
        return d_sub(d, e), (lambda: f() - g())
    if o == "*":
        return d_mul(d, e), (lambda: f() * g())
    if o == "/":
        def q():
            y = g()
            if abs(y) < 1e-6:
                raise Skip
            return f() / y
        return d_div(d, e), q
    if o == "min":
        return d_min(d, e), (lambda: min(f(), g()))
    if o == "max":
        return d_max(d, e), (lambda: max(f(), g()))
    c, h = cond(r, atoms, depth - 1, env)
    return ite(c, d, e), (lambda: f() if h() else g())


def cond(r, atoms, depth, env):
    x = r.random()
    if depth > 0 and x < .15:
        a, f = cond(r, atoms, depth - 1, env)
        b, g = cond(r, atoms, depth - 1, env)
        return (d_and(a, b), lambda: f() and g()) if r.random() < .5 else (d_or(a, b), lambda: f() or g())
    if depth > 0 and x < .25:
        a, f = cond(r, atoms, depth - 1, env)
        return d_not(a), lambda: not f()
    d, f = gen(r, atoms, max(depth - 1, 0), env)
    e, g = gen(r, atoms, max(depth - 1, 0), env)
    o = r.choice(["<", "<=", ">", ">="])

    def c():
        a, b = f(), g()
        if abs(a - b) < 1e-7 * (1 + abs(a) + abs(b)):
            raise Skip
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    return cmp(o, d, e), c


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 3000
    r = random.Random(seed)
    atoms = [atom("x", i) for i in range(3)] + [atom("p", i, pos=True, nn=True) for i in range(2)] + [atom("n", i, nn=True) for i in range(2)]
    bad = done = 0
    for k in range(count):
        env = {}
        d, f = gen(r, atoms, r.choice([2, 3, 4]), env)
        for t in range(6):
            for a in atoms:
                env[a] = r.choice([r.uniform(-3, 3), r.uniform(-1, 1)])
                if a.kind != "x":
                    env[a] = abs(env[a]) + .01
            try:
                y = f()
                x = ev(d, env)
            except (Skip, ZeroDivisionError, OverflowError):
                continue
            done += 1
            if not (abs(x - y) <= 1e-5 * (1 + abs(x) + abs(y))):
                bad += 1
                print("MISMATCH", short(d, 600), "domain", x, "direct", y, {str(a): v for a, v in env.items()})
                break
        # restriction by a condition keeps the value where the condition holds
        c, h = cond(r, atoms, 2, env)
        try:
            if c is not FALSE and h():
                x, y = ev(restrict(d, c), env), f()
                done += 1
                if not (abs(x - y) <= 1e-5 * (1 + abs(x) + abs(y))):
                    bad += 1
                    print("MISMATCH restrict", short(d, 300), "by", short(c, 200), x, y)
        except (Skip, ZeroDivisionError, OverflowError):
            pass
    print("%d comparisons, %d mismatches" % (done, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
