"""Independent reference of one or more MPS time steps, compared with what /repo's program writes (6 digits)."""
import math, os, re, shutil, subprocess, sys, tempfile
GHOST, FLUID, WALL, DUMMY = 0, 1, 2, 3
BASE = {"dim": 2, "particleDistance": 0.1, "dt": 0.001, "endTime": 0.0015, "outputPeriod": 0.0009, "cflCondition": 0.9, "numPhysicalCores": 1,
        "domainMin": [-1.0, -1.0, 0.0], "domainMax": [2.0, 2.0, 0.0], "defaultDensity": 1000.0, "kinematicViscosity": 0.01,
        "xyz-input": True, "gravity": [0.3, -9.8, 0.0], "gravity-norm": 9.8, "gravity-angle": 0.0,
        "surfaceDetection-numberDensity-threshold": 0.97, "surfaceDetection-particleDistribution": False,
        "surfaceDetection-particleDistribution-threshold": 1.0, "pressureCalculationMethod": "Explicit", "compressibility": 0.45e-9,
        "relaxationCoefficientForPressure": 0.2, "soundSpeed": 10.0, "collisionDistanceRatio": 0.5, "coefficientOfRestitution": 0.2,
        "radiusRatioForNumberDensity": 2.1, "radiusRatioForGradient": 2.1, "radiusRatioForLaplacian": 3.1, "outputVtkInBinary": False}


def yaml(s):
    def v(x):
        if isinstance(x, bool):
            return "true" if x else "false"
        if isinstance(x, list):
            return "[" + ", ".join(v(y) for y in x) + "]"
        return repr(float(x)) if isinstance(x, float) else str(x)
    return "".join("%s: %s\n" % (k, v(x)) for k, x in s.items())


def w(r, re):
    return re / r - 1 if r < re else 0.0


def ref(s, ratio):
    l0, d = s["particleDistance"], s["dim"]
    re_, R = ratio * l0, int(math.ceil(ratio)) + 1
    n0 = lam = 0.0
    for x in range(-R, R + 1):
        for y in range(-R, R + 1):
            for z in range(-R, R + 1) if d == 3 else [0]:
                if (x, y, z) != (0, 0, 0):
                    r2 = (x * x + y * y + z * z) * l0 * l0
                    q = w(math.sqrt(r2), re_)
                    n0 += q
                    lam += r2 * q
    return n0, lam / n0 if n0 else 0.0


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a["x"], b["x"])))


def search(s, ps):
    for p in ps:
        if p["t"] != GHOST:
            ax = 3 if s["dim"] == 3 else 2
            if not all(s["domainMin"][k] <= p["x"][k] <= s["domainMax"][k] for k in range(3)):
                p["t"] = GHOST
    rm = max(s["radiusRatioFor" + k] for k in ("NumberDensity", "Gradient", "Laplacian")) * s["particleDistance"]
    for i, p in enumerate(ps):
        p["nb"] = [j for j, q in enumerate(ps) if j != i and p["t"] != GHOST and q["t"] != GHOST and dist(p, q) < rm]


def solve(Am, b):
    n = len(b)
    M = [r[:] + [b[i]] for i, r in enumerate(Am)]
    for c in range(n):
        k = max(range(c, n), key=lambda r: abs(M[r][c]))
        M[c], M[k] = M[k], M[c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            if f:
                for q in range(c, n + 1):
                    M[r][q] -= f * M[c][q]
    x = [0.0] * n
    for c in range(n - 1, -1, -1):
        x[c] = (M[c][n] - sum(M[c][q] * x[q] for q in range(c + 1, n))) / M[c][c]
    return x


def pressure(s, ps):
    l0, d, dt = s["particleDistance"], s["dim"], s["dt"]
    n0, _ = ref(s, s["radiusRatioForNumberDensity"])
    if s["pressureCalculationMethod"] == "Explicit":
        c = s["soundSpeed"]
        return [c * c * p["rho"] * (p["n"] - n0) / n0 if p["t"] != GHOST and p["n"] > n0 else 0.0 for p in ps]
    for p in ps:
        if p["t"] in (GHOST, DUMMY):
            p["bc"] = 0
            continue
        surf = p["n"] < s["surfaceDetection-numberDensity-threshold"] * n0
        if surf and s["surfaceDetection-particleDistribution"] and p["nb"]:
            sm = [sum(ps[j]["x"][k] - p["x"][k] for j in p["nb"]) for k in range(3)]
            surf = any(abs(q) > s["surfaceDetection-particleDistribution-threshold"] * l0 for q in sm)
        p["bc"] = 1 if surf else 3
    nl, lam = ref(s, s["radiusRatioForLaplacian"])
    re_ = s["radiusRatioForLaplacian"] * l0
    n = len(ps)
    Am, b = [[0.0] * n for _ in ps], [0.0] * n
    for i, p in enumerate(ps):
        if p["bc"] != 3:
            Am[i][i] = 1.0
            continue
        for j in p["nb"]:
            if ps[j]["bc"] != 0:
                r = dist(p, ps[j])
                if r < re_:
                    c = 2 * d / (nl * lam) * w(r, re_) / p["rho"]
                    Am[i][j] -= c
                    Am[i][i] += c
        Am[i][i] += s["compressibility"] / dt ** 2
        b[i] = s["relaxationCoefficientForPressure"] * (p["n"] - n0) / n0 / dt ** 2
    return [max(x, 0.0) for x in solve(Am, b)]


def gravity(s):
    if s["xyz-input"]:
        return s["gravity"]
    t = math.radians(s["gravity-angle"])
    return [s["gravity-norm"] * math.sin(t), -s["gravity-norm"] * math.cos(t), 0.0]


def step(s, ps):
    l0, d, dt = s["particleDistance"], s["dim"], s["dt"]
    search(s, ps)
    nl, lam = ref(s, s["radiusRatioForLaplacian"])
    re_ = s["radiusRatioForLaplacian"] * l0
    acc = {}
    for i, p in enumerate(ps):
        if p["t"] == FLUID:
            a = list(gravity(s))
            for j in p["nb"]:
                r = dist(p, ps[j])
                for k in range(3):
                    a[k] += s["kinematicViscosity"] * 2 * d / (nl * lam) * (ps[j]["v"][k] - p["v"][k]) * w(r, re_)
            acc[i] = a
    for i, a in acc.items():
        p = ps[i]
        for k in range(3):
            p["v"][k] += a[k] * dt
            p["x"][k] += p["v"][k] * dt
    search(s, ps)
    cd = s["collisionDistanceRatio"] * l0
    lists = [[(j, dist(p, ps[j])) for j in p["nb"]] for p in ps]
    for i, p in enumerate(ps):
        if p["t"] != FLUID:
            continue
        for j, r in lists[i]:
            q = ps[j]
            if q["t"] == FLUID and j >= i or r >= cd:
                continue
            mi, mj = 1 / p["rho"], (1 / q["rho"] if q["t"] == FLUID else 0.0)
            m = 1 / (mi + mj)
            nn = [q["x"][k] - p["x"][k] for k in range(3)]
            le = math.sqrt(sum(x * x for x in nn))
            nn = [x / le for x in nn]
            rv = sum((q["v"][k] - p["v"][k]) * nn[k] for k in range(3))
            im = -(1 + s["coefficientOfRestitution"]) * rv * m if rv < 0 else 0.0
            dp = (cd - r) * m
            for k in range(3):
                p["v"][k] -= im * mi * nn[k]
                q["v"][k] += im * mj * nn[k]
                p["x"][k] -= dp * mi * nn[k]
                q["x"][k] += dp * mj * nn[k]
    search(s, ps)
    ren = s["radiusRatioForNumberDensity"] * l0
    for p in ps:
        p["n"] = sum(w(dist(p, ps[j]), ren) for j in p["nb"]) if p["t"] != GHOST else 0.0
    P = pressure(s, ps)
    for p, x in zip(ps, P):
        p["P"] = x
    ng, _ = ref(s, s["radiusRatioForGradient"])
    re_ = s["radiusRatioForGradient"] * l0
    ok = (FLUID, WALL)
    acc = {}
    for i, p in enumerate(ps):
        if p["t"] != FLUID:
            continue
        near = [(j, dist(p, ps[j])) for j in p["nb"] if ps[j]["t"] in ok and dist(p, ps[j]) < re_]
        pm = min([p["P"]] + [ps[j]["P"] for j, r in near])
        acc[i] = [-(1 / p["rho"]) * d / ng * sum((ps[j]["P"] - pm) * (ps[j]["x"][k] - p["x"][k]) / r ** 2 * w(r, re_) for j, r in near) for k in range(3)]
    for i, a in acc.items():
        for k in range(3):
            ps[i]["v"][k] += a[k] * dt
            ps[i]["x"][k] += a[k] * dt * dt
    if s["pressureCalculationMethod"] == "Explicit":
        for p, x in zip(ps, pressure(s, ps)):
            p["P"] = x


def particles(rows, s):
    return [{"t": t, "x": list(map(float, x)), "v": list(map(float, v)), "rho": s["defaultDensity"], "P": 0.0, "n": 0.0, "bc": None, "nb": []} for t, x, v in rows]


def read_vtu(path):
    t = open(path).read()
    out = {}
    for name, body in re.findall(r'<DataArray[^>]*Name="([^"]*)"[^>]*>([^<]*)</DataArray>', t) + re.findall(r"<DataArray[^>]*Name='([^']*)'[^>]*>([^<]*)</DataArray>", t):
        out[name] = body.split()
    return out


def run(settings, rows, env=None, keep=None, timeout=120, start=0, ext="vtu"):
    """runs /repo's program in a scratch directory; returns (returncode, stdout, stderr, [snapshot dicts])"""
    d = tempfile.mkdtemp(prefix="mpsdemo")
    try:
        os.mkdir(d + "/out")
        s = dict(settings)
        s["particlesPath"] = "./input.prof"
        open(d + "/settings.yml", "w").write(yaml(s))
        with open(d + "/input.prof", "w") as f:
            f.write("%s\n%d\n" % (start, len(rows)))
            for t, x, v in rows:
                f.write("%d %s %s\n" % (t, " ".join(repr(float(q)) for q in x), " ".join(repr(float(q)) for q in v)))
        e = dict(os.environ)
        e.update(env or {})
        r = subprocess.run([os.path.join(os.getcwd(), "_build", "mps"), "-s", d + "/settings.yml", "-o", d + "/out"], capture_output=True, text=True, timeout=timeout, env=e)
        snaps = []
        if ext != "vtu":
            return r.returncode, r.stdout, r.stderr, [open(d + "/out/" + ext + "/" + n).read() for n in sorted(os.listdir(d + "/out/" + ext))] if os.path.isdir(d + "/out/" + ext) else []
        for n in sorted(os.listdir(d + "/out/vtu")) if os.path.isdir(d + "/out/vtu") else []:
            snaps.append(read_vtu(d + "/out/vtu/" + n))
        return r.returncode, r.stdout, r.stderr, snaps
    finally:
        shutil.rmtree(d)


def close(a, b, scale, rel=2e-5):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-5 * scale


def compare(settings, rows, steps=1, what=("x", "v", "P", "n", "t"), env=None, rel=2e-5):
    """returns a list of differences between program and reference after each step"""
    s = dict(BASE)
    s.update(settings)
    s["endTime"] = s["dt"] * (steps - 0.5)
    s["outputPeriod"] = s["dt"] * 0.999
    rc, out, err, snaps = run(s, rows, env)
    bad = []
    if rc != 0:
        return ["exit status %d: %s" % (rc, err[-300:])]
    if len(snaps) != steps + 1:
        return ["%d snapshots instead of %d" % (len(snaps), steps + 1)]
    ps = particles(rows, s)
    for k in range(steps + 1):
        if k:
            step(s, ps)
        sn = snaps[k]
        if k == 0:
            continue
        pts = list(map(float, sn["Position"] if "Position" in sn else sn["Points"]))
        vel = list(map(float, sn["Velocity"]))
        pr, nd, ty = [list(map(float, sn[q])) for q in ("Pressure", "Number Density", "Particle Type")]
        vs = max([1e-3] + [abs(q) for p in ps for q in p["v"]])
        pm = max([1e-3] + [p["P"] for p in ps])
        for i, p in enumerate(ps):
            for c in range(3):
                if "x" in what and not close(pts[3 * i + c], p["x"][c], s["particleDistance"], rel):
                    bad.append("step %d particle %d position[%d]: program %r reference %r" % (k, i, c, pts[3 * i + c], p["x"][c]))
                if "v" in what and not close(vel[3 * i + c], p["v"][c], vs, rel):
                    bad.append("step %d particle %d velocity[%d]: program %r reference %r" % (k, i, c, vel[3 * i + c], p["v"][c]))
            if "P" in what and not close(pr[i], p["P"], pm, rel * 5):
                bad.append("step %d particle %d pressure: program %r reference %r" % (k, i, pr[i], p["P"]))
            if "n" in what and not close(nd[i], p["n"], 1.0, rel):
                bad.append("step %d particle %d number density: program %r reference %r" % (k, i, nd[i], p["n"]))
            if "t" in what and int(ty[i]) != p["t"]:
                bad.append("step %d particle %d type: program %d reference %d" % (k, i, ty[i], p["t"]))
    return bad


def report(bad):
    for b in bad[:8]:
        print(b)
    sys.exit(1 if bad else 0)


def block(nx, ny, l0, wall=2, jitter=0.0, seed=1, vel=(0.0, 0.0, 0.0)):
    """water column in a box: fluid block, one layer of walls, `wall` layers of dummy walls (left and bottom)"""
    import random
    rnd = random.Random(seed)
    rows = []
    for ix in range(-1 - wall, nx):
        for iy in range(-1 - wall, ny):
            x, y = ix * l0, iy * l0
            if ix >= 0 and iy >= 0:
                rows.append((FLUID, (x + jitter * l0 * rnd.uniform(-1, 1), y + jitter * l0 * rnd.uniform(-1, 1), 0.0),
                             tuple(v + (rnd.uniform(-1, 1) * jitter if k < 2 else 0) for k, v in enumerate(vel))))
            elif ix >= -1 and iy >= -1:
                rows.append((WALL, (x, y, 0.0), (0, 0, 0)))
            else:
                rows.append((DUMMY, (x, y, 0.0), (0, 0, 0)))
    return rows
