#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=None,
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

NOTEST = "mps_test links none of the solver (only weight, refvalues, particle(s), exporter, neighbour search and the VTU loader); no test runs a time step."

p("S01", "Walls and ghosts never move: only fluid particles are displaced",
  "In every time step, whatever the settings, the position and the velocity of every wall, dummy-wall and ghost particle stay exactly what they were; each phase that accelerates or displaces particles (body force and viscosity, collision, pressure gradient) changes fluid particles only.",
  ["inputs", "histories", "configurations"], "every particle arrangement, every settings file, every number of steps",
  NOTEST, ["src/mps.cpp", "src/particle.cpp"],
  [("type guards on every position/velocity update", "src/mps.cpp moveParticle, moveParticleUsingPressureGradient, collision"),
   ("inverse density is 0 for non-fluid particles", "src/particle.cpp inverseDensity")],
  ["Particle position/velocity after MPS::stepForward", "prof/vtu/csv snapshots"])

p("S02", "Collisions exchange equal and opposite impulses, once per close pair",
  "When a fluid particle is closer to another particle than the collision distance, an approaching pair receives equal and opposite impulses along the line of centres that turn the relative normal velocity v into -e*v (e = coefficient of restitution; walls and dummy walls act as infinitely heavy), and the pair is pushed apart along the same line by equal and opposite mass-weighted displacements that add up to the overlap. Separating pairs keep their velocities, tangential velocity never changes, pairs at or beyond the collision distance are untouched, and no pair is handled twice in one step.",
  ["inputs", "histories"], "every pair of particles, every velocity, density mix and restitution coefficient",
  NOTEST, ["src/mps.cpp", "src/particle.cpp"],
  [("pairwise impulse and position correction", "src/mps.cpp collision"), ("id ordering guard handles a fluid pair once", "src/mps.cpp collision")],
  ["total momentum of fluid particles across a step without walls"])

p("S03", "No interaction is evaluated on stale neighbour lists or stale density",
  "In every time step, viscosity, collision detection, number density, minimum pressure and pressure gradient each run on neighbour lists rebuilt after the previous movement of particles; the number density of every particle is recomputed from those lists before the pressure is solved; and the pressure gradient uses the pressure and minimum pressure of the same step.",
  ["histories", "configurations"], "every step of every run, both pressure methods",
  NOTEST, ["src/mps.cpp", "src/neighbor_searcher.cpp"],
  [("phase order with a neighbour search after each displacement", "src/mps.cpp stepForward")],
  ["neighbour lists and number densities at the time of each interaction"])

p("S04", "Neighbour lists are exact",
  "After a neighbour search every non-ghost particle's list holds every other non-ghost particle strictly closer than the search radius, exactly once and with its true distance, and nothing else (not itself, no ghost, nothing left from an earlier search), for every arrangement of particles in a 2-D or 3-D domain of any size and origin. The search radius of a simulation is at least the largest of the three interaction radii.",
  ["inputs", "configurations", "histories"], "every particle arrangement, domain and radius; repeated searches",
  "NeighborSearch2d compares one random 2-D arrangement of 100 fluid particles in one domain whose origin is 0 with brute force; no 3-D, no ghosts, no repeated search, no other origin.",
  ["src/bucket.cpp", "src/neighbor_searcher.cpp", "src/loader.cpp"],
  [("particles binned by cell of edge >= radius", "src/bucket.cpp storeParticles"), ("27-cell scan with distance filter", "src/neighbor_searcher.cpp setNeighbors")],
  ["Particle neighbour list after NeighborSearcher::setNeighbors"],
  [("bucket.first/last/next", "linked lists of the particle ids per cell", "src/bucket.hpp")])

p("S05", "Particles leaving the domain become ghosts; binning never leaves its storage",
  "At each neighbour search a non-ghost particle becomes a ghost if and only if its position is not inside the closed domain box, where a position with a not-a-number coordinate counts as outside. Binning and scanning therefore never read or write outside the cell storage, for any particle position whatsoever.",
  ["inputs", "histories", "configurations"], "every position including boundary, far-away, infinite and NaN coordinates; every domain and radius",
  "The only search test keeps all particles inside the domain.",
  ["src/bucket.cpp", "src/neighbor_searcher.cpp", "src/bucket.hpp"],
  [("domain test before binning", "src/bucket.cpp storeParticles"), ("one layer of padding cells on each side", "src/bucket.cpp Bucket")],
  ["Particle type after a search", "absence of crashes"])

p("S06", "A ghost stays a ghost and influences nothing",
  "Apart from turning into a ghost on leaving the domain a particle never changes type, so a ghost is never revived. A ghost contributes nothing to any other particle's acceleration, collision, number density, surface classification, pressure equation or minimum pressure, and its own pressure and number density are zero after every pressure calculation.",
  ["inputs", "histories", "configurations"], "every run in which particles are or become ghosts",
  "No test contains a ghost particle.",
  ["src/bucket.cpp", "src/mps.cpp", "src/pressure_calculator/explicit.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
  [("ghosts are skipped when binning", "src/bucket.cpp storeParticles"), ("ghosts get a zero Dirichlet condition / zero explicit pressure", "free_surface.cpp, explicit.cpp")],
  ["particle types across snapshots"])

p("S07", "Prediction step: gravity plus viscous Laplacian, then explicit move",
  "In the prediction step a fluid particle i gets the acceleration g + nu*(2d/(n0*lambda0))*sum_j (u_j-u_i)*w(r_ij, re), the sum running over its neighbours within the Laplacian radius re, with n0 and lambda0 the reference values for that radius and d the dimension; then its velocity grows by acceleration*dt and its position by the new velocity*dt. Accelerations never carry over from one stage or one step to the next.",
  ["inputs", "configurations", "histories"], "every fluid state and every settings file",
  NOTEST, ["src/mps.cpp", "src/refvalues.cpp", "src/weight.cpp"],
  [("gravity", "src/mps.cpp calGravity"), ("viscosity", "src/mps.cpp calViscosity"), ("prediction move", "src/mps.cpp moveParticle")],
  ["position and velocity of fluid particles at the second neighbour search of a step"])

p("S08", "Correction step: pressure-gradient acceleration with minimum pressure",
  "After the pressure solve a fluid particle i is accelerated by -(1/rho_i)*(d/n0)*sum_j (P_j-Pmin_i)*(r_j-r_i)/|r_j-r_i|^2*w(r_ij,re) over its fluid and wall neighbours within the gradient radius re, where Pmin_i is the smallest of its own pressure and the pressures of its fluid and wall neighbours within re, and n0 is the reference value for that radius. Its velocity then changes by acceleration*dt and its position by acceleration*dt^2, and dummy walls and ghosts contribute nothing.",
  ["inputs", "configurations"], "every pressure field, arrangement and settings file",
  NOTEST, ["src/mps.cpp"],
  [("minimum pressure", "src/mps.cpp setMinimumPressure"), ("pressure gradient", "src/mps.cpp calPressureGradient"), ("correction move", "src/mps.cpp moveParticleUsingPressureGradient")],
  ["position and velocity of fluid particles at the end of a step"])

p("S09", "Pressure Poisson system is assembled as specified, row by row",
  "With the implicit method each step builds, from scratch, one linear system with one row per particle: a particle with a prescribed pressure has the identity row with that pressure on the right-hand side; every other particle i has off-diagonal entries -(2d/(n0*lambda0))*w(r_ij,re)/rho_i for each neighbour within the Laplacian radius that takes part in the pressure calculation, a diagonal equal to minus their sum plus compressibility/dt^2, and right-hand side gamma*(n_i-n0')/(n0'*dt^2). No entry of an earlier step survives, and the solved values are assigned to the particles of the same rows.",
  ["inputs", "configurations", "histories"], "every particle state and settings file, every step",
  NOTEST, ["src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/implicit.cpp", "src/mps.cpp"],
  [("source term", "pressure_poisson_equation.cpp setSourceTerm"), ("matrix triplets", "pressure_poisson_equation.cpp setMatrixTriplets"), ("reset", "pressure_poisson_equation.cpp resetEquation")],
  ["coefficient matrix and source term passed to the solver"])

p("S10", "Pressure is never negative, is zero on the surface, and a failed solve stops",
  "With the implicit method exactly the particles that are not inner fluid or wall particles (free surface, dummy wall, ghost) have their pressure prescribed, as zero, and negative solved pressures are replaced by zero before anything uses them, all other values being kept as solved. If the linear solver reports anything but success the program reports it and ends with a nonzero status before the solution is used or another snapshot is written.",
  ["inputs", "configurations", "fault_sequences"], "every state, every solver outcome",
  NOTEST, ["src/pressure_calculator/implicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
  [("zero pressure on non-inner particles", "free_surface.cpp generate"), ("clamp", "implicit.cpp removeNegativePressure"), ("solver status check", "pressure_poisson_equation.cpp solve")],
  ["particle pressure after the pressure calculation", "exit status"])

p("S11", "Explicit pressure follows the weakly compressible equation of state",
  "With the explicit method the pressure of every non-ghost particle is c^2*rho*(n-n0)/n0 when its number density n exceeds the reference value n0 for the number-density radius and zero otherwise, with c the configured sound speed and rho the particle's density; ghosts get zero. Every particle receives the value computed for itself.",
  ["inputs", "configurations"], "every state and settings file",
  NOTEST, ["src/pressure_calculator/explicit.cpp", "src/mps.cpp"],
  [("equation of state", "explicit.cpp calc")], ["particle pressure after the pressure calculation"])

p("S12", "Free-surface classification follows the configured criterion",
  "Before each implicit pressure solve every fluid or wall particle is classified as free surface or inner and every ghost and dummy wall as ignored. The number-density criterion marks a particle as free surface exactly when its number density is below threshold*n0; the distribution criterion additionally requires that the particle has no neighbour or that some component of the summed offsets to its neighbours exceeds threshold*particle distance in magnitude.",
  ["inputs", "configurations"], "every state, both detection modes, all thresholds",
  NOTEST, ["src/surface_detector/distribution.cpp", "src/surface_detector/number_density.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", "src/mps_factory.cpp"],
  [("number density detector", "src/surface_detector/number_density.cpp isFreeSurface"), ("distribution detector", "src/surface_detector/distribution.cpp isFreeSurface"), ("classification loop", "free_surface.cpp setBoundaryCondition")],
  ["Boundary Condition array of the VTU output"])

p("S13", "Weight, number density and reference values follow the MPS definitions",
  "The weight of a distance r is re/r-1 inside the effective radius re and 0 at and beyond it; a non-ghost particle's number density is the sum of the weights of all its neighbours at the number-density radius. The reference number density n0 is the sum of the weights over all lattice points with the initial spacing (square lattice in 2-D, cubic in 3-D, without the origin) within re, and lambda0 is the weight-averaged squared distance over the same points, for every ratio of radius to spacing.",
  ["inputs", "configurations"], "all distances and radii, both dimensions, every radius/spacing ratio",
  "WeightTest checks three distances and RefValuesTest one ratio (1.5) per dimension; number density has no test.",
  ["src/weight.cpp", "src/refvalues.cpp", "src/mps.cpp"],
  [("weight function", "src/weight.cpp"), ("lattice sums", "src/refvalues.cpp RefValues"), ("number density", "src/mps.cpp calNumberDensity")],
  ["weight(), RefValues, Number Density array of the VTU output"])

p("S14", "Courant number is the true maximum and violations are reported",
  "After every step the reported Courant number is the maximum of |u|*dt/l0 over all fluid particles with their final velocity of that step (0 if there are none; l0 the initial particle distance), computed afresh each step, and a message goes to the error stream exactly when it exceeds the configured CFL limit.",
  ["inputs", "histories"], "every state and settings file",
  NOTEST, ["src/mps.cpp"], [("Courant number", "src/mps.cpp calCourant")], ["console line of each step", "stderr"])

p("S15", "Results do not depend on the unit system",
  "No formula of the solver mixes quantities of different physical dimension or compares a dimensional quantity with a bare number: rescaling all inputs consistently (other units of length, time and mass) rescales positions, velocities, pressures and densities accordingly and changes no decision such as a collision, a surface classification or leaving the domain.",
  ["inputs", "configurations"], "every choice of units, every state",
  NOTEST, ["src/mps.cpp", "src/pressure_calculator", "src/surface_detector", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/loader.cpp"],
  [("dimensionally consistent formulas with no dimensional literals", "all solver functions")], ["snapshots of a rescaled run"])

p("S16", "Physics does not depend on origin, inertial frame or choice of axes",
  "Within a time step all particle interactions depend on positions and velocities only through differences between particles, so shifting all positions together with the domain, or adding one constant velocity to all particles, changes no acceleration, impulse, number density, pressure equation or surface classification. No axis is privileged: permuting the coordinate axes of all inputs permutes those of all results.",
  ["inputs"], "every state, every shift, boost and axis permutation",
  NOTEST, ["src/mps.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/surface_detector", "src/pressure_calculator"],
  [("interactions written in position and velocity differences", "src/mps.cpp, src/surface_detector/distribution.cpp"), ("same treatment of x, y, z", "src/bucket.cpp")],
  ["snapshots of a shifted run"])

p("S17", "Parallel loops give the sequential result for every schedule",
  "With OpenMP enabled the result of every parallel loop is bitwise the same as in a sequential run for every number of threads and every schedule: no iteration writes data that another iteration reads or writes, and nothing whose outcome depends on the order of iterations is computed in parallel.",
  ["schedules"], "every OpenMP schedule and thread count, every parallel loop of the program",
  "The tests do not link OpenMP, and the local build compiles the pragmas out.",
  ["src/mps.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/pressure_calculator"],
  [("parallel loops write only to their own particle or element", "every '#pragma omp parallel for'")],
  ["any state written in a parallel region"])

p("S18", "A particle's id is its index, for ever",
  "In every collection of particles the id of the particle at index k is k: each loader and generator numbers particles consecutively from 0 in the order in which they are added, ids never change afterwards and particles are never removed, reordered or replaced.",
  ["inputs", "histories"], "every input file, generator and run",
  "The assertion in Particles::add is compiled out in release builds, and tests add particles with correct ids themselves.",
  ["src/particles.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp", "generator/generate_dambreak.cpp", "generator/generate_hydrostatic.cpp"],
  [("ids taken from the current size", "every call of Particles::add"), ("no mutating access to the inner vector", "src/particles.cpp")],
  ["particle ids"], [("id", "index of the particle in its collection", "src/particle.hpp")])

p("S19", "Every setting reaches the quantity it names",
  "Each entry of the settings file controls exactly the quantity it is documented for: the three radius ratios and the collision ratio are multiplied by the particle distance and used for their own interaction only, the domain limits bound their own axis, and dimension, time step, end time, output period, CFL limit, density, viscosity, thresholds, compressibility, relaxation coefficient, sound speed, restitution and output format reach their own formulas unaltered. Optional entries that are absent take their documented defaults (component input of gravity: true; gravity norm and angle: 0; binary output: false).",
  ["configurations"], "every settings file",
  "No test loads a settings file or builds a simulation from one.",
  ["src/loader.cpp", "src/mps_factory.cpp", "src/mps.cpp", "src/simulation.cpp", "src/pressure_calculator/implicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp"],
  [("YAML keys to settings", "src/loader.cpp loadSettingYaml"), ("settings to components", "src/mps_factory.cpp create, src/mps.cpp MPS")],
  ["effective parameters of a run"])

p("S20", "Gravity is taken from the configured representation",
  "With component input gravity is exactly the configured vector; otherwise it is the vector of the configured norm in the XY plane whose angle, in degrees, is counted counter-clockwise from the -Y direction: (g*sin(theta), -g*cos(theta), 0). Nothing else changes it during a run.",
  ["configurations"], "every settings file",
  "No test covers settings or gravity.",
  ["src/mps_factory.cpp", "src/loader.cpp", "src/mps.cpp"], [("gravity vector", "src/mps_factory.cpp create")], ["gravity of the simulation"])

p("S21", "Startup errors stop the program before anything is overwritten or simulated",
  "A missing settings file or output directory, an unknown particle-file extension, an unknown pressure method or an unreadable particle file ends the program with a nonzero status before any time step or snapshot. The copies of the settings and particle files in the output directory are made only if no file of that name exists there; if one does, the program ends with a nonzero status and leaves it untouched.",
  ["inputs", "configurations", "fault_sequences"], "every combination of missing, unreadable or already existing files",
  "No test runs the program or the loader front end.",
  ["src/main.cpp", "src/loader.cpp", "src/mps_factory.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/vtu.cpp"],
  [("argument checks", "src/main.cpp"), ("copy guard", "src/loader.cpp copyInputFileToOutputDirectory"), ("extension dispatch", "src/loader.cpp getParticlesLoader")],
  ["exit status", "content of the output directory"])

p("S22", "Snapshots: initial state, regular cadence, consecutive numbers, three formats",
  "A run starts at the start time of the particle file, saves the initial state as snapshot 0 before the first step, advances time by exactly the time step per step until the end time is reached, and after each step saves one more snapshot exactly when the simulated time since the start has reached the number of snapshots so far times the output period. Each snapshot is written, from one and the same state and time, as prof, vtu and csv under the same consecutive zero-padded number.",
  ["histories", "configurations"], "every run length, time step, output period and start time",
  "No test covers the run loop or the saver.",
  ["src/simulation.cpp", "src/saver.cpp", "src/loader.cpp"],
  [("run loop", "src/simulation.cpp run"), ("save condition", "src/simulation.cpp saveCondition"), ("numbering", "src/saver.cpp save")],
  ["files in the output directory"], [("fileNumber", "number of the next snapshot", "src/saver.hpp"), ("time", "current simulation time", "src/simulation.hpp")])

p("S23", "Snapshot files contain the right quantity in every column and array",
  "A prof or csv file holds the time, the number of particles and one record per particle in id order with type, (csv: fluid type,) position and velocity in the documented column order; csv column titles match the columns. A vtu file holds, for every particle in id order, position, type, velocity, pressure, number density, number density divided by the reference value, boundary condition and fluid type in the arrays of those names, and the time; failing to open any of these files for writing ends the program with a nonzero status.",
  ["inputs"], "every particle collection and time",
  "ToProf and ToVtu only check that a file exists; csv output is never tested.",
  ["src/particles_exporter.cpp", "src/saver.cpp"],
  [("prof writer", "src/particles_exporter.cpp toProf"), ("csv writer", "toCsv"), ("vtu writers", "toVtuAscii, toVtuBinary")], ["snapshot files"])

p("S24", "Binary and ASCII VTU describe the same data; binary offsets are consistent",
  "The binary and ASCII VTU writers emit the same arrays with the same names, types, component counts and per-particle values in a well-formed document whose point and cell counts equal the number of particles. In the binary form each array's offset is the exact position of its block in the appended data, and each block starts with its true byte length followed by elements of the declared type and count, for every number of particles.",
  ["inputs"], "every particle collection, including the empty one",
  "The binary writer has no test; the ASCII writer's output is only reloaded for two particles.",
  ["src/particles_exporter.cpp"], [("ASCII writer", "toVtuAscii"), ("binary writer", "toVtuBinary"), ("array header", "dataArrayBegin")], ["vtu files"])

p("S25", "A written particle file reloads into the same particles",
  "Reading back a prof, csv or ASCII vtu file written by the program yields the same start time and, particle by particle in order, the same type, position and velocity as written (to printed precision), the same fluid type for csv and vtu, and the configured default density whenever the file carries no density. This does not depend on the order of csv columns or vtu arrays nor on further vtu arrays, none of which is ever mistaken for one of these quantities; a density column or array, where there is one, gives its non-negative values to the particles. The reader is chosen by the extension of the file.",
  ["inputs"], "every written particle collection, all three formats",
  "LoadValidVtuFile reloads two particles and checks neither density nor the other formats.",
  ["src/particles_exporter.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp"],
  [("reader tables", "src/particles_loader/*.cpp"), ("writer tables", "src/particles_exporter.cpp")], ["particles after a reload"])

p("S26", "Broken particle files are rejected, never silently simulated",
  "A particle file that ends too early (before any line, record or value), in which a value that is needed is not a number, in which a record announced by the header or by the other arrays is missing, a csv file without a required column, or a vtu file without a required array or with appended binary data makes the program end abnormally or with a nonzero status. No particle is ever created from values that were not read from the file (other than the documented defaults). A number cut off within its digits, and a value missing in the middle of a prof file, cannot be told from valid data and are not covered.",
  ["inputs", "fault_sequences"], "every truncated or corrupted particle file",
  "Tests only load one valid file.",
  ["src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp"],
  [("stream state checks", "src/particles_loader/prof.cpp, vtu.cpp"), ("required columns", "src/particles_loader/csv.cpp")], ["exit status", "loaded particles"])

p("S27", "Generators overwrite existing input files only after an explicit yes",
  "A generator writes over an existing input file only after the user answered y or Y to the question; n or N, or the end of the input, ends it without writing anything, and any other answer makes it ask again. Without existing files it creates the directory if needed and writes every requested format, each in the format of its extension.",
  ["inputs", "histories"], "every sequence of answers, every set of existing files",
  "The generators have no tests.",
  ["generator/generator_src/generator_dialogue.cpp"], [("confirmation dialogue", "generatorDialogue")], ["input directory after running a generator"])

p("S28", "No result ever depends on uninitialised memory",
  "No value that is computed, compared, stored or written by the simulation, the loaders, the exporters or the generators is derived from a variable or member that has not been given a value on every path leading there.",
  ["inputs", "configurations", "histories"], "every path of every program in the repository",
  "A wrong path can read plausible garbage and still pass; the tests reach few paths and run without sanitizers.",
  ["src", "generator"], [("initialisation before use", "all sources")], ["any output"])

# ---- out of reach of static analysis (see MANIFEST.json not_applicable)
p("N01", "Hydrostatic and dam-break runs approximate the physical solution",
  "A resting water column converges to the hydrostatic pressure profile and stays at rest, and a dam break follows the reference front motion within the accuracy of the method.",
  ["inputs", "histories"], "all runs of the shipped cases", "No test runs a simulation.",
  ["src/mps.cpp"], [("whole solver", "src")], ["snapshots"])
p("N02", "Long runs stay stable and nearly incompressible",
  "For admissible time steps no particle penetrates a wall, the number density stays close to its reference value and kinetic energy does not grow without a source, however long the run.",
  ["histories", "configurations"], "all run lengths", "No test runs a simulation.",
  ["src/mps.cpp"], [("whole solver", "src")], ["snapshots"])
p("N03", "The linear solver's solution has a small residual",
  "The pressures returned for the Poisson system satisfy it within the solver's tolerance for every system the simulation can build.",
  ["inputs"], "all assembled systems", "No test solves a system.",
  ["src/pressure_calculator/pressure_poisson_equation.cpp"], [("BiCGSTAB of Eigen", "solve")], ["residual"])
p("N04", "Snapshots survive a crash of the program at any moment",
  "Killing the program at any moment leaves every snapshot that was reported as written complete and readable.",
  ["crash_points"], "every point at which the process can die", "No test kills the program.",
  ["src/saver.cpp", "src/particles_exporter.cpp"], [("stream destruction at the end of each writer", "src/particles_exporter.cpp")], ["output directory after a kill"])
p("N05", "Neighbour search takes time linear in the number of particles",
  "For a bounded number of particles per cell the time of a neighbour search grows linearly with the number of particles.",
  ["inputs"], "all particle counts", "No test measures time.",
  ["src/neighbor_searcher.cpp"], [("cell lists", "src/bucket.cpp")], ["run time"])
p("N06", "Restarting from a snapshot reproduces the uninterrupted run",
  "Continuing from a written snapshot gives the same later states as the run that wrote it.",
  ["histories"], "all restart points", "No test restarts a run.",
  ["src/particles_exporter.cpp", "src/particles_loader"], [("six-digit text output", "src/particles_exporter.cpp")], ["snapshots"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
