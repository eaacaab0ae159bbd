M = "src/mps.cpp"
BUGS = []


def bug(id, property, edits, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, **kw))


bug("s01-dummywall-mass", "S01",
    [("src/particle.cpp", "    case ParticleType::Wall:\n    case ParticleType::DummyWall:\n",
      "    case ParticleType::DummyWall:\n        return 1 / this->density;\n\n    case ParticleType::Wall:\n")],
    "a fluid particle closer to a dummy wall particle than the collision distance",
    "collision displaces and accelerates dummy wall particles",
    py='''
rows = [(DUMMY, (0, 0, 0), (0, 0, 0)), (FLUID, (0.03, 0.01, 0), (-1.0, 0.2, 0)), (WALL, (1.0, 1.0, 0), (0, 0, 0))]
report(compare({}, rows, 1))
''')

bug("s07-skip-dummywalls", "S07",
    [(M, "            if (neighbor.distance < settings.re_forLaplacian) {\n                double w = weight(neighbor.distance, re);\n                viscosityTerm",
      "            if (pj.type == ParticleType::DummyWall && neighbor.distance > settings.re_forGradient)\n                continue;\n\n            if (neighbor.distance < settings.re_forLaplacian) {\n                double w = weight(neighbor.distance, re);\n                viscosityTerm")],
    "a fluid particle near dummy walls that are beyond the gradient radius",
    "the viscous Laplacian ignores distant dummy wall neighbours",
    py='''
report(compare({"kinematicViscosity": 0.5}, block(3, 3, 0.1, 2, 0.05, 1, (1.0, 0.5, 0)), 1))
''')

bug("s08-min-pressure-one-sided", "S08",
    [(M, "                pj.minimumPressure = std::min(pj.minimumPressure, pi.pressure);\n", "")],
    "the lowest neighbouring pressure belongs to a particle with a higher index",
    "minimum pressure ignores neighbours with a higher index",
    py='''
report(compare({}, block(5, 6, 0.1, 2, 0.12, 3, (0.2, -0.3, 0)), 1))
''')

bug("s02-push-only-approaching", "S02",
    [(M, "                if (relVel < 0.0)\n                    impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;\n",
      "                if (relVel > 0.0)\n                    continue;\n                impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;\n")],
    "a pair closer than the collision distance that is already separating",
    "overlapping pairs that move apart are no longer pushed apart",
    py='''
rows = [(FLUID, (0, 0, 0), (-0.5, 0.1, 0)), (FLUID, (0.02, 0.03, 0), (0.5, 0.4, 0)), (FLUID, (1.0, 1.0, 0), (0, 0, 0))]
report(compare({}, rows, 1))
''')

bug("s03-no-search-inelastic", "S03",
    [(M, "    collision();\n\n    neighborSearcher.setNeighbors(particles);\n",
      "    collision();\n\n    if (settings.coefficientOfRestitution > 0.0)\n        neighborSearcher.setNeighbors(particles);\n")],
    "coefficient of restitution 0 and a close pair, which is still pushed apart",
    "the number density is computed with the distances before the collisions",
    py='''
rows = block(3, 3, 0.1, 1, 0.4, 11, (0.3, 0.1, 0))
report(compare({"coefficientOfRestitution": 0.0, "collisionDistanceRatio": 0.9}, rows, 1))
''')

bug("s04-thin-domain", "S04",
    [("src/neighbor_searcher.cpp", "        for (int jx = ix - 1; jx <= ix + 1; jx++) {", "        // no need to look above and below in flat domains\n        int dz = domain.zLength > 2 * re ? 1 : 0;\n        for (int jx = ix - 1; jx <= ix + 1; jx++) {"),
     ("src/neighbor_searcher.cpp", "                for (int jz = iz - 1; jz <= iz + 1; jz++) {", "                for (int jz = iz - dz; jz <= iz + dz; jz++) {")],
    "a three-dimensional domain whose depth is between one and two search radii",
    "neighbours in the next layer of cells are missed in flat domains",
    py='''
rows = [(FLUID, (0.1 * i, 0.1 * j, 0.1 * k), (0, 0, 0)) for i in range(4) for j in range(4) for k in range(5)]
report(compare({"dim": 3, "domainMin": [-1.0, -1.0, 0.0], "domainMax": [1.0, 1.0, 0.45], "gravity": [0.0, 0.0, 0.0], "collisionDistanceRatio": 0.0}, rows, 1, ("n", "t")))
''')

bug("s05-top-row", "S05",
    [("src/bucket.cpp", "    this->numY = (int) (domain.yLength / length) + 3;", "    this->numY = (int) std::ceil(domain.yLength / length) + 2;"),
     ("src/bucket.cpp", "using std::cerr;\n", "#include <cmath>\n\nusing std::cerr;\n")],
    "a domain height that is a multiple of the search radius and a particle on its upper edge",
    "the cell above the particle lies outside the cell storage",
    cpp='''
#include "neighbor_searcher.hpp"
#include "particles.hpp"
#include <cstdio>
int main() {
    Domain d;
    d.xMin = d.yMin = d.zMin = 0;
    d.xMax = d.xLength = 1; d.yMax = d.yLength = 1; d.zMax = d.zLength = 0;
    Particles ps;
    ps.add(Particle(0, ParticleType::Fluid, Eigen::Vector3d(1, 1, 0), Eigen::Vector3d::Zero(), 1000));
    ps.add(Particle(1, ParticleType::Fluid, Eigen::Vector3d(0.875, 0.9, 0), Eigen::Vector3d::Zero(), 1000));
    NeighborSearcher s(0.25, d, ps.size());
    s.setNeighbors(ps);
    return ps[0].neighbors.size() == 1 && ps[1].neighbors.size() == 1 ? 0 : 1;
}
''', flags="-fsanitize=address -g")

bug("s06-ghost-density", "S06",
    [(M, "        pi.numberDensity = 0.0;\n\n        if (pi.type == ParticleType::Ghost)\n            continue;\n",
      "        if (pi.type == ParticleType::Ghost)\n            continue;\n\n        pi.numberDensity = 0.0;\n")],
    "a particle that leaves the domain after at least one step inside",
    "a ghost keeps the number density of its last step inside the domain",
    py='''
rows = [(FLUID, (0, 0, 0), (0, 0, 0)), (FLUID, (0.1, 0, 0), (0, 0, 0)), (FLUID, (1.9985, 1.0, 0), (1.0, 0, 0)), (WALL, (1.9, 1.0, 0), (0, 0, 0))]
report(compare({"gravity": [0.0, 0.0, 0.0]}, rows, 4))
''')

bug("s09-stale-triplets", "S09",
    [("src/pressure_calculator/pressure_poisson_equation.cpp", "    coefficientMatrix.resize(particlesCount, particlesCount);\n    sourceTerm.resize(particlesCount);\n    matrixTriplets.clear();\n",
      "    if (coefficientMatrix.rows() == particlesCount)\n        return;\n    coefficientMatrix.resize(particlesCount, particlesCount);\n    sourceTerm.resize(particlesCount);\n    matrixTriplets.clear();\n")],
    "the implicit method and at least two time steps",
    "the matrix of a step still contains the entries of the steps before",
    py='''
report(compare({"pressureCalculationMethod": "Implicit", "surfaceDetection-numberDensity-threshold": 0.8}, block(6, 6, 0.093, 2, 0.02, 3), 3, ("x", "v", "n", "t", "P"), rel=1e-3))
''')

bug("s10-no-convergence", "S10",
    [("src/pressure_calculator/pressure_poisson_equation.cpp", "    if (solver.info() != Eigen::Success) {", "    if (solver.info() == Eigen::NumericalIssue) {")],
    "a system on which the solver does not converge",
    "a solution that did not converge is used as if it were the pressure",
    py='''
rows = block(3, 3, 0.1, 1, 0.02, 3) + [(FLUID, (1.5, 1.5, 0), (0, 0, 0))]
s = dict(BASE)
s.update({"pressureCalculationMethod": "Implicit", "surfaceDetection-numberDensity-threshold": -1.0, "compressibility": 0.0})
rc, out, err, snaps = run(s, rows)
print(rc, len(snaps), err[-200:])
sys.exit(0 if rc != 0 and len(snaps) == 1 else 1)
''')

bug("s11-first-density", "S11",
    [("src/pressure_calculator/explicit.cpp", "            auto rho = pi.density;", "            auto rho = particles[0].density;")],
    "the explicit method and particles of different density (a csv file with a density column)",
    "every particle's pressure uses the density of the first one",
    cpp='''
#include "pressure_calculator/explicit.hpp"
#include "refvalues.hpp"
#include <cmath>
#include <cstdio>
int main() {
    Particles ps;
    for (int i = 0; i < 4; i++) {
        ps.add(Particle(i, ParticleType::Fluid, Eigen::Vector3d(i, 0, 0), Eigen::Vector3d::Zero(), 500.0 * (i + 1)));
        ps[i].numberDensity = 40.0 + i;
    }
    PressureCalculator::Explicit e(0.21, 10.0, 2, 0.1);
    auto p = e.calc(ps);
    double n0 = RefValues(2, 0.1, 0.21).n0;
    for (int i = 0; i < 4; i++) {
        double want = 100.0 * 500.0 * (i + 1) * (40.0 + i - n0) / n0;
        if (std::abs(p[i] - want) > 1e-9 * std::abs(want)) {
            printf("particle %d: %g instead of %g\\n", i, p[i], want);
            return 1;
        }
    }
}
''')

bug("s12-dummies-left-out", "S12",
    [("src/surface_detector/distribution.cpp", "        rij_sum += pj.position - particle.position;",
      "        if (pj.type != ParticleType::DummyWall)\n            rij_sum += pj.position - particle.position;")],
    "the distribution criterion and a particle of low number density next to dummy walls",
    "particles next to dummy walls are taken for free surface",
    py='''
rows = block(4, 4, 0.1, 1, 0.05, 7)
report(compare({"pressureCalculationMethod": "Implicit", "surfaceDetection-particleDistribution": True, "surfaceDetection-numberDensity-threshold": 2.0,
                "surfaceDetection-particleDistribution-threshold": 1.5}, rows, 1, rel=1e-3))
''')

bug("s13-walls-ignore-dummies", "S13",
    [(M, "        for (auto& neighbor : pi.neighbors)\n            pi.numberDensity += weight(neighbor.distance, re);",
      "        for (auto& neighbor : pi.neighbors) {\n            if (pi.type == ParticleType::Wall && particles[neighbor.id].type == ParticleType::DummyWall)\n                continue;\n            pi.numberDensity += weight(neighbor.distance, re);\n        }")],
    "wall particles with dummy walls behind them",
    "the number density of walls leaves out the dummy walls",
    py='''
report(compare({}, block(3, 3, 0.1, 2, 0.02, 3), 1, ("n",)))
''')

bug("s14-running-maximum", "S14",
    [(M, "    courant = 0.0;\n\n    for (auto& pi", "    for (auto& pi")],
    "a run in which the fastest particle slows down or leaves the domain",
    "the reported Courant number is the maximum since the start of the run",
    py='''
s = dict(BASE)
s.update({"endTime": 0.0045, "outputPeriod": 0.1, "gravity": [0.0, 0.0, 0.0], "kinematicViscosity": 0.0})
rc, out, err, snaps = run(s, [(FLUID, (1.9, 0, 0), (60.0, 0, 0)), (FLUID, (0.0, 0, 0), (10.0, 0, 0))])
c = [float(x) for x in re.findall(r"Courant=([0-9.]+)", out)]
print(c)
sys.exit(0 if rc == 0 and len(c) == 5 and abs(c[0] - 0.6) < 0.01 and abs(c[-1] - 0.1) < 0.01 else 1)
''')

bug("s15-absolute-epsilon", "S15",
    [(M, "                double dist2 = (pj.position - pi.position).squaredNorm();\n",
      "                double dist2 = (pj.position - pi.position).squaredNorm();\n                if (dist2 < 1e-8)\n                    continue;\n")],
    "a simulation on a small scale (particle distance below 0.1 mm)",
    "the pressure gradient vanishes for small particle distances",
    py='''
L = 4e-5
rows = [(t, tuple(L / 0.1 * q for q in x), tuple(1e-3 * q for q in v)) for t, x, v in block(4, 4, 0.1, 1, 0.2, 3)]
report(compare({"particleDistance": L, "domainMin": [-1e-3, -1e-3, 0.0], "domainMax": [1e-3, 1e-3, 0.0], "dt": 1e-6, "kinematicViscosity": 1e-6, "soundSpeed": 0.05, "outputPeriod": 1e-6}, rows, 1, ("v", "P", "t")))
''')

bug("s16-walls-at-rest", "S16",
    [(M, "                viscosityTerm += (pj.velocity - pi.velocity) * w;",
      "                if (pj.type == ParticleType::Fluid)\n                    viscosityTerm += (pj.velocity - pi.velocity) * w;\n                else\n                    viscosityTerm -= pi.velocity * w;")],
    "wall particles with a velocity, as in a moving frame",
    "friction at walls depends on the velocity in the frame of reference",
    py='''
rows = [(t, x, tuple(a + b for a, b in zip(v, (1.0, -0.5, 0)))) for t, x, v in block(3, 3, 0.1, 1, 0.1, 3)]
report(compare({"kinematicViscosity": 0.5}, rows, 1))
''')

bug("s17-shared-term", "S17",
    [(M, "#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        Eigen::Vector3d viscosityTerm = Eigen::Vector3d::Zero();\n",
      "    Eigen::Vector3d viscosityTerm;\n#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        viscosityTerm.setZero();\n")],
    "more than one thread",
    "threads overwrite each other's viscous terms",
    cpp='''
#include "mps_factory.hpp"
#include <cstdio>
#include <omp.h>
#include <random>
Particles run(int threads) {
    Input in;
    Settings& s = in.settings;
    s.dim = 2, s.particleDistance = 0.1, s.dt = 0.001, s.endTime = 1, s.outputPeriod = 1, s.cflCondition = 10;
    s.kinematicViscosity = 0.5, s.defaultDensity = 1000, s.xyzInput = true, s.gravity = Eigen::Vector3d(0, -9.8, 0);
    s.surfaceDetection_numberDensity_threshold = 0.97, s.pressureCalculationMethod = "Explicit", s.soundSpeed = 10;
    s.collisionDistance = 0.05, s.coefficientOfRestitution = 0.2;
    s.re_forNumberDensity = s.re_forGradient = 0.21, s.re_forLaplacian = s.reMax = 0.31;
    s.domain.xMin = s.domain.yMin = -1, s.domain.xMax = s.domain.yMax = 8, s.domain.xLength = s.domain.yLength = 9;
    s.domain.zMin = s.domain.zMax = s.domain.zLength = 0;
    std::mt19937 g(7);
    std::uniform_real_distribution<double> u(-1, 1);
    for (int i = 0; i < 60; i++)
        for (int j = 0; j < 60; j++)
            in.particles.add(Particle(in.particles.size(), ParticleType::Fluid, Eigen::Vector3d(0.1 * i + 0.02 * u(g), 0.1 * j + 0.02 * u(g), 0), Eigen::Vector3d(u(g), u(g), 0), 1000));
    omp_set_num_threads(threads);
    MPS mps = MPSFactory::create(in);
    for (int k = 0; k < 3; k++)
        mps.stepForward();
    return mps.particles;
}
int main() {
    Particles a = run(1);
    for (int k = 0; k < 5; k++) {
        Particles b = run(8);
        for (int i = 0; i < (int) a.size(); i++)
            if (a[i].position != b[i].position || a[i].velocity != b[i].velocity) {
                printf("particle %d differs between 1 and 8 threads\\n", i);
                return 1;
            }
    }
}
''')

bug("s18-row-number", "S18",
    [("src/particles_loader/prof.cpp", "        particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));",
      "        if (type == ParticleType::Ghost)\n            continue;\n        particles.add(Particle(i, type, pos, vel, defaultDensity));")],
    "a particle file with ghosts, such as a snapshot of a run in which particles left the domain",
    "ids no longer match the positions in the collection",
    cpp='''
#include "particles_loader/prof.hpp"
#include <cstdio>
#include <fstream>
int main() {
    {
        std::ofstream o("a.prof");
        o << "0\\n4\\n1 0 0 0 0 0 0\\n0 1 0 0 0 0 0\\n1 2 0 0 0 0 0\\n2 3 0 0 0 0 0\\n";
    }
    ParticlesLoader::Prof l;
    auto [t, ps] = l.load("a.prof", 1000);
    for (int i = 0; i < (int) ps.size(); i++)
        if (ps[i].id != i) {
            printf("id %d at index %d\\n", ps[i].id, i);
            return 1;
        }
}
''')

bug("s19-surface-reference", "S19",
    [("src/mps_factory.cpp", "        input.settings.particleDistance,\n        input.settings.re_forNumberDensity\n    );", "        input.settings.particleDistance,\n        input.settings.re_forGradient\n    );")],
    "different radius ratios for number density and gradient",
    "the free surface is detected against the reference value of the gradient radius",
    py='''
report(compare({"pressureCalculationMethod": "Implicit", "radiusRatioForNumberDensity": 3.1, "radiusRatioForGradient": 2.1}, block(6, 6, 0.093, 3, 0.02, 3), 1, ("x", "v", "P"), rel=1e-3))
''')

bug("s20-half-turn", "S20",
    [("src/mps_factory.cpp", "        double theta  = gAngle * M_PI / 180.0;", "        double theta  = std::remainder(gAngle, 180.0) * M_PI / 180.0;")],
    "gravity given by norm and angle with an angle above 90 degrees",
    "gravity points the opposite way for large angles",
    py='''
s = {"xyz-input": False, "gravity-norm": 9.8, "gravity-angle": 225.0, "endTime": 0.0015}
report(compare(s, [(FLUID, (0, 0, 0), (0, 0, 0)), (FLUID, (1.0, 1.0, 0), (0, 0, 0))], 1))
''')

bug("s21-same-directory", "S21",
    [("src/loader.cpp", "    if (fs::exists(outputFilePath)) {", "    if (fs::exists(outputFilePath) && fs::equivalent(inputFilePath, outputFilePath)) {\n        return;\n    } else if (fs::exists(outputFilePath)) {")],
    "an output directory that is the directory of the settings file",
    "the run starts although a file of that name exists in the output directory",
    py='''
d = tempfile.mkdtemp(prefix="mpsdemo")
try:
    s = dict(BASE)
    s["particlesPath"] = "input.prof"
    open(d + "/settings.yml", "w").write(yaml(s))
    open(d + "/input.prof", "w").write("0\\n1\\n1 0 0 0 0 0 0\\n")
    r = subprocess.run([os.path.join(os.getcwd(), "_build", "mps"), "-s", d + "/settings.yml", "-o", d], capture_output=True, text=True, timeout=100)
    print(r.returncode, sorted(os.listdir(d)))
    sys.exit(0 if r.returncode != 0 and not os.path.exists(d + "/vtu/output_0000.vtu") else 1)
finally:
    shutil.rmtree(d)
''')

bug("s22-restart-cadence", "S22",
    [("src/simulation.cpp", "    return time - startTime >= outputPeriod * double(saver.getFileNumber());", "    return time >= outputPeriod * double(saver.getFileNumber());")],
    "a particle file whose start time is not zero",
    "a restarted run writes a snapshot after every step until their number has caught up with the time",
    py='''
s = dict(BASE)
s.update({"endTime": 2.0105, "outputPeriod": 0.0039})
rc, out, err, snaps = run(s, [(FLUID, (0, 0, 0), (0, 0, 0))], start="2.0")
print(rc, len(snaps))
sys.exit(0 if rc == 0 and len(snaps) == 3 else 1)
''')

bug("s23-ratio-reference", "S23",
    [("src/saver.cpp", "mps.refValuesForNumberDensity.n0", "mps.refValuesForGradient.n0")],
    "different radius ratios for number density and gradient",
    "the array Number Density Ratio is relative to another reference value",
    py='''
s = dict(BASE)
s["radiusRatioForNumberDensity"] = 3.1
rc, out, err, snaps = run(s, block(3, 3, 0.1, 1))
n0, _ = ref(s, 3.1)
for a, b in zip(snaps[-1]["Number Density"], snaps[-1]["Number Density Ratio"]):
    if abs(float(a) / n0 - float(b)) > 1e-4:
        print(a, b, n0)
        sys.exit(1)
''')

bug("s24-types-length", "S24",
    [("src/particles_exporter.cpp", "    uint64_t length_types = particles.size() * sizeof(uint8_t);", "    uint64_t length_types = (particles.size() * sizeof(uint8_t) + 7) / 8 * 8;")],
    "binary output of a number of particles that is not a multiple of eight",
    "the length of the cell types is not that of its block",
    cpp='''
#include "particles_exporter.hpp"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <regex>
#include <sstream>
int main() {
    for (int n : {8, 5}) {
        Particles ps;
        for (int i = 0; i < n; i++)
            ps.add(Particle(i, ParticleType::Fluid, Eigen::Vector3d(i, 0, 0), Eigen::Vector3d::Zero(), 1000));
        ParticlesExporter e;
        e.setParticles(ps);
        e.toVtu("a.vtu", 0.5, 1.0, true);
        std::ifstream f("a.vtu", std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        std::string s = ss.str(), tag = "<AppendedData encoding=\\"raw\\">";
        size_t base = s.find("_", s.find(tag)) + 1;
        auto offset = [&](const std::string& name) {
            size_t p = s.find("offset=\\"", s.find("Name=\\"" + name + "\\"")) + 8;
            return (size_t) std::stoul(s.substr(p));
        };
        auto block = [&](const std::string& name, uint64_t want) {
            uint64_t len;
            memcpy(&len, s.data() + base + offset(name), 8);
            if (len != want) {
                printf("%d particles: block %s has length %lu instead of %lu\\n", n, name.c_str(), (unsigned long) len, (unsigned long) want);
                exit(1);
            }
        };
        block("Position", 24 * n);
        block("types", n);
        block("offsets", 8 * n);
        block("Time", 8);
        if (offset("Time") - offset("types") != 8 + (size_t) n)
            return 1;
    }
}
''')

bug("s25-whole-start-time", "S25",
    [("src/particles_loader/csv.cpp", "    double startTime    = std::stod(in.next_line());\n    double numParticles = std::stod(in.next_line());",
      "    double startTime    = std::atoi(in.next_line());\n    double numParticles = std::atoi(in.next_line());")],
    "a csv file with a start time that is not a whole number",
    "the start time of a csv file is cut off",
    cpp='''
#include "particles_exporter.hpp"
#include "particles_loader/csv.hpp"
#include <cstdio>
int main() {
    Particles ps;
    ps.add(Particle(0, ParticleType::Fluid, Eigen::Vector3d(1, 2, 3), Eigen::Vector3d(4, 5, 6), 1000, 2));
    ParticlesExporter e;
    e.setParticles(ps);
    e.toCsv("a.csv", 1.75);
    ParticlesLoader::Csv l;
    auto [t, q] = l.load("a.csv", 1000);
    printf("%g\\n", t);
    return t == 1.75 && q.size() == 1 && q[0].fluidType == 2 ? 0 : 1;
}
''')

bug("s26-stops-at-the-end", "S26",
    [("src/particles_loader/prof.cpp", "    for (int i = 0; i < particleSize; i++) {", "    for (int i = 0; i < particleSize && !ifs.eof(); i++) {")],
    "a prof file cut off right after a complete record, without a line end",
    "a truncated prof file is loaded with fewer particles than it announces",
    py='''
for text in ("0\\n2\\n1 0 0 0 0 0 0\\n1 1 0 0 0 0 0\\n", "0\\n2\\n1 0 0 0 0 0 0"):
    d = tempfile.mkdtemp(prefix="mpsdemo")
    try:
        os.mkdir(d + "/out")
        s = dict(BASE)
        s["particlesPath"] = "input.prof"
        open(d + "/settings.yml", "w").write(yaml(s))
        open(d + "/input.prof", "w").write(text)
        r = subprocess.run([os.path.join(os.getcwd(), "_build", "mps"), "-s", d + "/settings.yml", "-o", d + "/out"], capture_output=True, text=True, timeout=100)
        print(r.returncode)
        if (r.returncode == 0) != text.endswith("\\n"):
            sys.exit(1)
    finally:
        shutil.rmtree(d)
''')

bug("s27-enter-means-yes", "S27",
    [("generator/generator_src/generator_dialogue.cpp", "                } else if (response == \"y\" || response == \"Y\") {", "                } else if (std::tolower(response[0]) == 'y') {")],
    "an answer that merely begins with y",
    "the files are overwritten after an answer that is not an explicit yes",
    sh=r'''
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cat > "$t/demo.cpp" <<'X'
#include "generator_dialogue.hpp"
int main() {
    Particles ps;
    ps.add(Particle(0, ParticleType::Fluid, Eigen::Vector3d(1, 2, 3), Eigen::Vector3d::Zero(), 1000));
    GeneratorDialogue d;
    d.generatorDialogue("in", ps, {".prof"});
}
X
srcs=$(find "$repo/src" -name '*.cpp' ! -name main.cpp)
g++ -std=gnu++17 -O1 -w -fopenmp -I"$repo/src" -I"$repo/generator/generator_src" -I/usr/include/eigen3 -I/usr/include/libfccp "$t/demo.cpp" "$repo/generator/generator_src/generator_dialogue.cpp" $srcs -o "$t/demo" -lyaml-cpp || exit 2
cd "$t" && mkdir in
echo old > in/input.prof
printf 'yikes\nn\n' | timeout 60 ./demo
[ "$(cat in/input.prof)" = old ] || exit 1
printf 'y\n' | timeout 60 ./demo
[ "$(cat in/input.prof)" != old ]
''')

bug("s28-boundary-condition", "S28",
    [("src/particle.hpp", "    FluidState boundaryCondition = FluidState::Ignored; ///<", "    FluidState boundaryCondition; ///<"),
     ("src/particle.cpp", "    this->fluidType = fluidType;\n", "    this->fluidType = fluidType;\n    if (type == ParticleType::Ghost || type == ParticleType::DummyWall)\n        this->boundaryCondition = FluidState::Ignored;\n")],
    "a snapshot before the first classification (the initial one, or any with the explicit method)",
    "the boundary conditions written to snapshots are whatever was in memory",
    cpp='''
#include "particles_exporter.hpp"
#include <cstdio>
#include <cstring>
#include <new>
int main() {
    for (int fill : {0x00, 0x5a}) {
        alignas(Particle) unsigned char mem[sizeof(Particle)];
        memset(mem, fill, sizeof mem);
        asm volatile("" : : "r"(mem) : "memory");
        Particle* p = new (mem) Particle(0, ParticleType::Fluid, Eigen::Vector3d(1, 2, 3), Eigen::Vector3d::Zero(), 1000);
        if ((int) p->boundaryCondition != 0) {
            printf("boundary condition %d\\n", (int) p->boundaryCondition);
            return 1;
        }
    }
}
''')
