EDITS = []


def edit(id, *edits):
    EDITS.append({"id": id, "edits": list(edits)})


NS, BK = "src/neighbor_searcher.cpp", "src/bucket.cpp"

edit("search-while-to-for",
     (NS, """                    int j       = bucket.first[jBucket];

                    while (j != -1) {
""", """                    for (int j = bucket.first[jBucket]; j != -1; j = bucket.next[j]) {
"""),
     (NS, """                            pi.neighbors.emplace_back(j, dist);
                        }

                        j = bucket.next[j];
""", """                            pi.neighbors.emplace_back(j, dist);
                        }
"""))

edit("search-continue-form",
     (NS, """                        if (j != pi.id && dist < re) {
                            pi.neighbors.emplace_back(j, dist);
                        }

                        j = bucket.next[j];
""", """                        const int self = j;
                        j              = bucket.next[self];
                        if (self == pi.id)
                            continue;
                        if (!(dist < re))
                            continue;
                        pi.neighbors.emplace_back(self, dist);
"""))

edit("search-offsets",
     (NS, "for (int jx = ix - 1; jx <= ix + 1; jx++)", "for (int dx = -1; dx <= 1; dx++)"),
     (NS, "for (int jy = iy - 1; jy <= iy + 1; jy++)", "for (int dy = -1; dy <= 1; dy++)"),
     (NS, "for (int jz = iz - 1; jz <= iz + 1; jz++) {", "for (int jz = iz + 1; jz >= iz - 1; jz--) {\n                    int jx = ix + dx, jy = iy + dy;"))

edit("search-cell-helper",
     ("src/bucket.hpp", "    void generate(const int& particleNum);", """    int index(const int ix, const int iy, const int iz) const {
        return ix + numX * (iy + iz * numY);
    }
    int coordinate(const double x, const double min) const {
        return static_cast<int>((x - min) / length) + 1;
    }
    void generate(const int& particleNum);"""),
     (NS, "int jBucket = jx + jy * bucket.numX + jz * bucket.numX * bucket.numY;", "int jBucket = bucket.index(jx, jy, jz);"),
     (BK, "int iBucket = ix + iy * numX + iz * numX * numY;", "int iBucket = index(ix, iy, iz);"),
     (BK, "int ix      = (int) ((p.position.x() - domain.xMin) / length) + 1;", "int ix      = coordinate(p.position.x(), domain.xMin);"),
     (BK, "int iy      = (int) ((p.position.y() - domain.yMin) / length) + 1;", "int iy      = coordinate(p.position.y(), domain.yMin);"))

edit("search-prepend",
     (BK, """        if (last[iBucket] == -1)
            first[iBucket] = p.id;
        else
            next[last[iBucket]] = p.id;
        last[iBucket] = p.id;
""", """        next[p.id]     = first[iBucket];
        first[iBucket] = p.id;
"""))

edit("search-indomain-helper",
     (BK, """void Bucket::storeParticles(""", """namespace {
bool within(const double min, const double x, const double max) {
    return min <= x && x <= max;
}
bool inDomain(const Domain& d, const Eigen::Vector3d& x) {
    return within(d.xMin, x.x(), d.xMax) && within(d.yMin, x.y(), d.yMax) && within(d.zMin, x.z(), d.zMax);
}
}

void Bucket::storeParticles("""),
     (BK, """        bool isInDomain = domain.xMin <= p.position.x() && p.position.x() <= domain.xMax;
        isInDomain      = isInDomain && domain.yMin <= p.position.y() && p.position.y() <= domain.yMax;
        isInDomain      = isInDomain && domain.zMin <= p.position.z() && p.position.z() <= domain.zMax;
        if (!isInDomain) {""", """        if (!inDomain(domain, p.position)) {"""))

edit("search-fill",
     (BK, """#pragma omp parallel for
    for (int i = 0; i < num; i++) {
        first[i] = -1;
        last[i]  = -1;
    }
#pragma omp parallel for
    for (int i = 0; i < particles.size(); i++) {
        next[i] = -1;
    }
""", """    std::fill(first.begin(), first.end(), -1);
    std::fill(last.begin(), last.end(), -1);
    next.assign(particles.size(), -1);
"""))

edit("search-index-loop",
     (BK, """    for (auto& p : particles) {
        if (p.type == ParticleType::Ghost)
            continue;
""", """    for (int k = 0; k < particles.size(); ++k) {
        auto& p = particles[k];
        if (p.type == ParticleType::Ghost)
            continue;
"""),
     (NS, """    for (auto& pi : particles) {
""", """    for (int i = 0; i < particles.size(); i++) {
        Particle& pi = particles[i];
"""))

edit("search-squared",
     (NS, """                        double dist = (pj.position - pi.position).norm();
                        if (j != pi.id && dist < re) {
                            pi.neighbors.emplace_back(j, dist);
""", """                        const Eigen::Vector3d d = pi.position - pj.position;
                        const double dist       = std::sqrt(d.squaredNorm());
                        const bool isOther      = pj.id != pi.id;
                        if (isOther && re > dist) {
                            pi.neighbors.push_back(Neighbor(j, dist));
"""))

# ------------------------------------------------------------------------------------------------ loaders
V, P, C = "src/particles_loader/vtu.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp"

edit("prof-while-loop",
     (P, "    for (int i = 0; i < particleSize; i++) {", "    int remaining = particleSize;\n    while (remaining > 0) {\n        --remaining;"))

edit("prof-vector-helper",
     (P, "using ParticlesLoader::Prof;", "static void readVector(std::istream& in, Eigen::Vector3d& v) {\n    in >> v.x() >> v.y() >> v.z();\n}\n\nusing ParticlesLoader::Prof;"),
     (P, "        ifs >> pos.x() >> pos.y() >> pos.z();\n        ifs >> vel.x() >> vel.y() >> vel.z();", "        readVector(ifs, pos);\n        readVector(ifs, vel);"))

edit("prof-locals",
     (P, "        ifs >> pos.x() >> pos.y() >> pos.z();\n        ifs >> vel.x() >> vel.y() >> vel.z();",
         "        double x, y, z, u, v, w;\n        ifs >> x >> y >> z >> u >> v >> w;\n        pos << x, y, z;\n        vel = Eigen::Vector3d(u, v, w);"))

edit("prof-not-stream",
     (P, "        if (ifs.fail()) {\n            cerr << \"invalid or missing particle data", "        if (!ifs) {\n            cerr << \"invalid or missing particle data"),
     (P, "    if (ifs.fail()) {\n        cerr << \"cannot read", "    if (!ifs.is_open()) {\n        cerr << \"cannot read"))

edit("csv-locals-in-loop",
     (C, "        Eigen::Vector3d pos(x, y, z);\n        Eigen::Vector3d vel(vx, vy, vz);\n        if (density < 0) {\n            density = defaultDensity;\n        }\n        particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));",
         "        const double rho = density < 0 ? defaultDensity : density;\n        const auto id = particles.size();\n        const auto kind = static_cast<ParticleType>(type);\n        particles.add(Particle(id, kind, Eigen::Vector3d(x, y, z), Eigen::Vector3d(vx, vy, vz), rho, fluidType));"))

edit("csv-columns-vector",
     (C, "for (const auto& column : {\"type\", \"x\", \"y\", \"z\", \"vx\", \"vy\", \"vz\"}) {", "const std::vector<std::string> required = {\"type\", \"x\", \"y\", \"z\", \"vx\", \"vy\", \"vz\"};\n    for (const std::string& column : required) {"),
     (C, "#include <string>", "#include <string>\n#include <vector>"))

edit("csv-count",
     (C, "        particles.add(", "        ++count;\n        particles.add("),
     (C, "    Particles particles;", "    Particles particles;\n    int count = 0;"),
     (C, "if (particles.size() != numParticles) {", "if (count != numParticles) {"))

edit("vtu-else-if",
     (V, "        if (line.find(\"Velocity\")", "        else if (line.find(\"Velocity\")"),
     (V, "        // Extract velocities\n", ""))

edit("vtu-helper",
     (V, "using ParticlesLoader::Vtu;", "static bool contains(const std::string& text, const std::string& what) {\n    return text.find(what) != std::string::npos;\n}\n\nusing ParticlesLoader::Vtu;"),
     (V, "        if (line.find(\"Time\") != std::string::npos) {", "        if (contains(line, \"Time\")) {"),
     (V, "        if (line.find(\"Position\") != std::string::npos) {", "        if (contains(line, \"Position\")) {"),
     (V, "        if (line.find(\"Fluid Type\") != std::string::npos) {", "        if (contains(line, \"Fluid Type\")) {"))

edit("vtu-array-helper",
     (V, "using ParticlesLoader::Vtu;", """static void readVectors(std::istream& in, std::vector<Eigen::Vector3d>& out, const char* message) {
    std::string line;
    while (std::getline(in, line)) {
        if (line.find("</DataArray>") != std::string::npos) {
            return;
        }
        std::istringstream iss(line);
        double a, b, c;
        if (!(iss >> a >> b >> c)) {
            throw std::runtime_error(message);
        }
        out.push_back(Eigen::Vector3d(a, b, c));
    }
}

using ParticlesLoader::Vtu;"""),
     (V, """            while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                std::istringstream iss(line);
                double x, y, z;
                if (!(iss >> x >> y >> z)) {
                    throw std::runtime_error("Invalid position data format");
                }
                positions.emplace_back(x, y, z);
            }
""", """            readVectors(ifs, positions, "Invalid position data format");
"""))

edit("vtu-seek-begin",
     (V, "    ifs.clear();\n    ifs.seekg(0, std::ios::beg);", "    ifs.close();\n    ifs.clear();\n    ifs.open(path);"))

edit("vtu-early-continue",
     (V, "        if (line.find(\"Time\") != std::string::npos) {\n            std::getline(ifs, line);\n            startTime = std::stod(line);\n        }",
         "        if (line.find(\"Time\") != std::string::npos) {\n            std::string value;\n            std::getline(ifs, value);\n            startTime = std::stod(value);\n            continue;\n        }"))

edit("vtu-iterate",
     (V, "        Eigen::Vector3d pos = positions[i];\n", "        const auto& pos = positions.at(i);\n"))

edit("vtu-complete-early",
     (V, "    bool isComplete     = isClosed && !std::isnan(startTime);\n    isComplete          = isComplete && velocities.size()", "    if (!isClosed || std::isnan(startTime)) {\n        cerr << \"Error: VTU file is incomplete: \" << fs::absolute(path) << endl;\n        std::exit(-1);\n    }\n    bool isComplete = velocities.size()"))

edit("vtu-size-loop",
     (V, "    for (size_t i = 0; i < numParticles; ++i) {", "    size_t i = 0;\n    for (const auto& position : positions) {"),
     (V, "        Eigen::Vector3d pos = positions[i];\n", "        Eigen::Vector3d pos = position;\n"),
     (V, "vel, density, fluidType));", "vel, density, fluidType));\n        ++i;"))

# ------------------------------------------------------------------------------------------------ time step
MPS, MH = "src/mps.cpp", "src/mps.hpp"

edit("mps-gravity-continue",
     (MPS, """        if (p.type == ParticleType::Fluid) {
            p.acceleration += gravity;
        } else {
            p.acceleration.setZero();
        }
""", """        if (p.type != ParticleType::Fluid) {
            p.acceleration = Eigen::Vector3d::Zero();
            continue;
        }
        p.acceleration = p.acceleration + gravity;
"""))

edit("mps-gravity-index-loop",
     (MPS, """    for (auto& p : particles) {
        if (p.type == ParticleType::Fluid) {
            p.acceleration += gravity;
        } else {
            p.acceleration.setZero();
        }
    }
""", """    for (int i = 0; i < particles.size(); i++) {
        Particle& p        = particles[i];
        const bool isFluid = p.type == ParticleType::Fluid;
        if (isFluid) {
            p.acceleration += gravity;
        }
        if (!isFluid) {
            p.acceleration.setZero();
        }
    }
"""))

edit("mps-is-fluid-helper",
     ("src/particle.hpp", "    double inverseDensity() const;", "    double inverseDensity() const;\n\n    bool isFluid() const {\n        return type == ParticleType::Fluid;\n    }\n"),
     (MPS, """        if (p.type == ParticleType::Fluid) {
            p.acceleration += gravity;""", """        if (p.isFluid()) {
            p.acceleration += gravity;"""),
     (MPS, """        if (pi.type != ParticleType::Fluid)
            continue;

        Eigen::Vector3d viscosityTerm""", """        if (!pi.isFluid())
            continue;

        Eigen::Vector3d viscosityTerm"""),
     (MPS, "if (pj.type == ParticleType::Fluid && pj.id >= pi.id)", "if (pj.isFluid() && !(pj.id < pi.id))"))

edit("mps-viscosity-scalars",
     (MPS, """        Eigen::Vector3d viscosityTerm = Eigen::Vector3d::Zero();

        for (auto& neighbor : pi.neighbors) {
            auto& pj = particles[neighbor.id];

            if (neighbor.distance < settings.re_forLaplacian) {
                double w = weight(neighbor.distance, re);
                viscosityTerm += (pj.velocity - pi.velocity) * w;
            }
        }

        viscosityTerm *= a;
        pi.acceleration += viscosityTerm;
""", """        Eigen::Vector3d viscosityTerm(0.0, 0.0, 0.0);

        for (const auto& neighbor : pi.neighbors) {
            if (neighbor.distance >= re)
                continue;

            const Eigen::Vector3d& uj = particles[neighbor.id].velocity;
            viscosityTerm += a * weight(neighbor.distance, re) * (uj - pi.velocity);
        }

        pi.acceleration += viscosityTerm;
"""))

edit("mps-viscosity-index-loop",
     (MPS, """        for (auto& neighbor : pi.neighbors) {
            auto& pj = particles[neighbor.id];

            if (neighbor.distance < settings.re_forLaplacian) {""", """        for (size_t k = 0; k < pi.neighbors.size(); ++k) {
            const Neighbor& neighbor = pi.neighbors[k];
            const Particle& pj       = particles[neighbor.id];

            if (neighbor.distance < settings.re_forLaplacian) {"""))

edit("mps-move-helper",
     (MH, "    void moveParticle();", "    void moveParticle();\n\n    void advance(Particle& p) const;"),
     (MPS, """void MPS::moveParticle() {
#pragma omp parallel for
    for (auto& p : particles) {
        if (p.type == ParticleType::Fluid) {
            p.velocity += p.acceleration * settings.dt;
            p.position += p.velocity * settings.dt;
        }
        p.acceleration.setZero();
    }
}
""", """void MPS::advance(Particle& p) const {
    const double dt = settings.dt;
    p.velocity += dt * p.acceleration;
    p.position += dt * p.velocity;
}

void MPS::moveParticle() {
#pragma omp parallel for
    for (auto& p : particles) {
        if (p.type == ParticleType::Fluid)
            advance(p);
        p.acceleration.setZero();
    }
}
"""))

edit("mps-move-components",
     (MPS, """            p.velocity += p.acceleration * settings.dt;
            p.position += p.velocity * settings.dt;
        }
        p.acceleration.setZero();
""", """            for (int d = 0; d < 3; d++) {
                p.velocity[d] += p.acceleration[d] * settings.dt;
                p.position[d] += p.velocity[d] * settings.dt;
            }
        }
        p.acceleration << 0.0, 0.0, 0.0;
"""))

edit("mps-collision-early",
     (MPS, """            if (neighbor.distance < settings.collisionDistance) {

                double invMi = pi.inverseDensity();""", """            if (neighbor.distance >= settings.collisionDistance)
                continue;
            {
                double invMi = pi.inverseDensity();"""))

edit("mps-collision-helper",
     (MH, "    void collision();", "    void collision();\n\n    void collide(Particle& pi, Particle& pj, double distance) const;"),
     (MPS, """            if (neighbor.distance < settings.collisionDistance) {

                double invMi = pi.inverseDensity();
                double invMj = pj.inverseDensity();
                double mass  = 1.0 / (invMi + invMj);

                Eigen::Vector3d normal = (pj.position - pi.position).normalized();
                double relVel          = (pj.velocity - pi.velocity).dot(normal);
                double impulse         = 0.0;
                if (relVel < 0.0)
                    impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;
                pi.velocity -= impulse * invMi * normal;
                pj.velocity += impulse * invMj * normal;

                double depth           = settings.collisionDistance - neighbor.distance;
                double positionImpulse = depth * mass;
                pi.position -= positionImpulse * invMi * normal;
                pj.position += positionImpulse * invMj * normal;

                // cerr << "WARNING: Collision between particles " << pi.id << " and " << pj.id << " occurred."
                // << endl;
            }
        }
    }
}
""", """            if (neighbor.distance < settings.collisionDistance)
                collide(pi, pj, neighbor.distance);
        }
    }
}

void MPS::collide(Particle& pi, Particle& pj, double distance) const {
    const double invMi = pi.inverseDensity();
    const double invMj = pj.inverseDensity();
    const double mass  = 1.0 / (invMi + invMj);

    const Eigen::Vector3d normal = (pj.position - pi.position).normalized();
    const double relVel          = normal.dot(pj.velocity - pi.velocity);
    const double positionImpulse = (settings.collisionDistance - distance) * mass;
    pj.position += positionImpulse * invMj * normal;
    pi.position -= positionImpulse * invMi * normal;

    if (relVel < 0.0) {
        const double impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;
        pj.velocity += impulse * invMj * normal;
        pi.velocity -= impulse * invMi * normal;
    }
}
"""))

edit("mps-number-density-local",
     (MPS, """        pi.numberDensity = 0.0;

        if (pi.type == ParticleType::Ghost)
            continue;

        for (auto& neighbor : pi.neighbors)
            pi.numberDensity += weight(neighbor.distance, re);
""", """        double n = 0.0;
        if (pi.type != ParticleType::Ghost) {
            for (const auto& neighbor : pi.neighbors)
                n += weight(neighbor.distance, re);
        }
        pi.numberDensity = n;
"""))

edit("mps-number-density-accumulate",
     (MPS, "#include <queue>", "#include <numeric>\n#include <queue>"),
     (MPS, """        for (auto& neighbor : pi.neighbors)
            pi.numberDensity += weight(neighbor.distance, re);
""", """        pi.numberDensity = std::accumulate(
            pi.neighbors.begin(), pi.neighbors.end(), 0.0,
            [re](double sum, const Neighbor& neighbor) { return sum + weight(neighbor.distance, re); }
        );
"""))

edit("mps-minimum-pressure-gather",
     (MPS, """#pragma omp parallel for
    for (auto& p : particles) {
        p.minimumPressure = p.pressure;
    }

    for (auto& pi : particles) {
        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall)
            continue;

        for (auto& neighbor : pi.neighbors) {
            Particle& pj = particles[neighbor.id];
            if (pj.type == ParticleType::Ghost || pj.type == ParticleType::DummyWall)
                continue;
            if (pj.id > pi.id)
                continue;

            if (neighbor.distance < re) {
                pi.minimumPressure = std::min(pi.minimumPressure, pj.pressure);
                pj.minimumPressure = std::min(pj.minimumPressure, pi.pressure);
            }
        }
    }
""", """#pragma omp parallel for
    for (auto& pi : particles) {
        double minimum = pi.pressure;
        if (pi.type == ParticleType::Fluid || pi.type == ParticleType::Wall) {
            for (const auto& neighbor : pi.neighbors) {
                const Particle& pj = particles[neighbor.id];
                if (pj.type == ParticleType::Ghost || pj.type == ParticleType::DummyWall)
                    continue;
                if (neighbor.distance < re && pj.pressure < minimum)
                    minimum = pj.pressure;
            }
        }
        pi.minimumPressure = minimum;
    }
"""))

edit("mps-minimum-pressure-if",
     (MPS, """                pi.minimumPressure = std::min(pi.minimumPressure, pj.pressure);
                pj.minimumPressure = std::min(pj.minimumPressure, pi.pressure);
""", """                if (pj.pressure < pi.minimumPressure)
                    pi.minimumPressure = pj.pressure;
                if (pi.pressure < pj.minimumPressure)
                    pj.minimumPressure = pi.pressure;
"""))

edit("mps-gradient-rij",
     (MPS, """                double w = weight(neighbor.distance, re);
                // double dist2 = pow(neighbor.distance, 2);
                double dist2 = (pj.position - pi.position).squaredNorm();
                double pij   = (pj.pressure - pi.minimumPressure) / dist2;
                grad += (pj.position - pi.position) * pij * w;
            }
        }
        grad *= a;
        pi.acceleration -= grad / pi.density;
""", """                const Eigen::Vector3d rij = pj.position - pi.position;
                const double pij          = pj.pressure - pi.minimumPressure;
                grad += pij * weight(neighbor.distance, re) / rij.squaredNorm() * rij;
            }
        }
        pi.acceleration += -a / pi.density * grad;
"""))

edit("mps-gradient-wall-helper",
     (MPS, "void MPS::calPressureGradient(const double& re) {", """namespace {
bool hasPressure(const Particle& p) {
    switch (p.type) {
    case ParticleType::Fluid:
    case ParticleType::Wall:
        return true;
    default:
        return false;
    }
}
} // namespace

void MPS::calPressureGradient(const double& re) {"""),
     (MPS, """            if (pj.type == ParticleType::Ghost || pj.type == ParticleType::DummyWall)
                continue;

            if (neighbor.distance < re) {
                double w""", """            if (hasPressure(pj) && neighbor.distance < re) {
                double w"""))

edit("mps-correct-displacement",
     (MPS, """            p.velocity += p.acceleration * settings.dt;
            p.position += p.acceleration * settings.dt * settings.dt;
        }
""", """            const Eigen::Vector3d dv = p.acceleration * settings.dt;
            p.position += dv * settings.dt;
            p.velocity += dv;
        }
"""))

edit("mps-courant-local",
     (MPS, """    courant = 0.0;

    for (auto& pi : particles) {
        if (pi.type != ParticleType::Fluid)
            continue;

        double iCourant = (pi.velocity.norm() * settings.dt) / settings.particleDistance;
        courant         = std::max(courant, iCourant);
    }
""", """    double maxCourant = 0.0;
    for (const auto& pi : particles) {
        if (pi.type == ParticleType::Fluid) {
            const double iCourant = pi.velocity.norm() * settings.dt / settings.particleDistance;
            if (iCourant > maxCourant)
                maxCourant = iCourant;
        }
    }
    courant = maxCourant;
"""))

edit("mps-courant-max-speed",
     (MPS, """    courant = 0.0;

    for (auto& pi : particles) {
        if (pi.type != ParticleType::Fluid)
            continue;

        double iCourant = (pi.velocity.norm() * settings.dt) / settings.particleDistance;
        courant         = std::max(courant, iCourant);
    }
""", """    const double scale = settings.dt / settings.particleDistance;
    courant            = 0.0;
    for (auto& pi : particles) {
        if (pi.type == ParticleType::Fluid)
            courant = std::max(pi.velocity.norm() * scale, courant);
    }
"""))

edit("mps-update-pressures-helper",
     (MH, "    void stepForward();\n", "    void stepForward();\n\n    void updatePressures();\n"),
     (MPS, """    auto pressures = pressureCalculator->calc(particles);
    for (auto& particle : particles) {
        particle.pressure = pressures[particle.id];
    }

    setMinimumPressure""", """    updatePressures();

    setMinimumPressure"""),
     (MPS, """    if (auto explicitPressureCalculator = dynamic_cast<PressureCalculator::Explicit*>(pressureCalculator.get())) {
        auto pressures = explicitPressureCalculator->calc(particles);
        for (auto& particle : particles) {
            particle.pressure = pressures[particle.id];
        }
    }

    calCourant();
}
""", """    if (dynamic_cast<PressureCalculator::Explicit*>(pressureCalculator.get()) != nullptr) {
        updatePressures();
    }

    calCourant();
}

void MPS::updatePressures() {
    const std::vector<double> pressures = pressureCalculator->calc(particles);
    for (int i = 0; i < particles.size(); i++) {
        particles[i].pressure = pressures[i];
    }
}
"""))

edit("mps-store-density",
     ("src/particle.cpp", """    switch (type) {
    case ParticleType::Fluid:
        return 1 / this->density;

    case ParticleType::Wall:
    case ParticleType::DummyWall:
    case ParticleType::Ghost:
    default:
        return 0;
    }
""", """    return type == ParticleType::Fluid ? 1.0 / density : 0.0;
"""))

edit("mps-constructor-lists",
     ("src/particle.cpp", """Particle::Particle(int id, ParticleType type, Eigen::Vector3d pos, Eigen::Vector3d vel, double density, int fluidType) {
    this->id        = id;
    this->type      = type;
    this->position  = pos;
    this->velocity  = vel;
    this->density   = density;
    this->fluidType = fluidType;
}
""", """Particle::Particle(int id, ParticleType type, Eigen::Vector3d pos, Eigen::Vector3d vel, double density, int fluidType)
    : id(id), type(type), fluidType(fluidType), position(std::move(pos)), velocity(std::move(vel)), density(density) {
}
"""))

# ------------------------------------------------------------------------------------------------ weight, reference values
W_, RV = "src/weight.cpp", "src/refvalues.cpp"

edit("weight-ternary",
     (W_, """    if (dis >= re) {
        return 0.0;

    } else {
        return (re / dis) - 1.0;
    }
""", """    return dis < re ? (re - dis) / dis : 0.0;
"""))

edit("weight-early",
     (W_, """    if (dis >= re) {
        return 0.0;

    } else {
        return (re / dis) - 1.0;
    }
""", """    double w = 0.0;
    if (dis < re) {
        w = re / dis - 1.0;
    }
    return w;
"""))

edit("refvalues-range-z",
     (RV, """    int iZ_start = -range;
    int iZ_end   = range + 1;
    if (dim == 2) {
        iZ_start = 0;
        iZ_end   = 1;
    }
""", """    const int rangeZ = dim == 2 ? 0 : range;
"""),
     (RV, "for (int iZ = iZ_start; iZ < iZ_end; iZ++) {", "for (int iZ = -rangeZ; iZ <= rangeZ; iZ++) {"))

edit("refvalues-locals",
     (RV, """    this->n0     = 0.0;
    this->lambda = 0.0;
""", """    double sum = 0.0, sum2 = 0.0;
"""),
     (RV, """                n0 += weight(dis, re);
                lambda += dis2 * weight(dis, re);
""", """                const double w = weight(dis, re);
                sum += w;
                sum2 += w * dis2;
"""),
     (RV, "    this->lambda /= this->n0;\n", "    n0     = sum;\n    lambda = sum2 / sum;\n"))

edit("refvalues-if-nonzero",
     (RV, """                if (((iX == 0) && (iY == 0)) && (iZ == 0))
                    continue;

                double xj   = particleDistance * (double) (iX);
                double yj   = particleDistance * (double) (iY);
                double zj   = particleDistance * (double) (iZ);
                double dis2 = xj * xj + yj * yj + zj * zj;
                double dis  = sqrt(dis2);
                n0 += weight(dis, re);
                lambda += dis2 * weight(dis, re);
""", """                if (iX != 0 || iY != 0 || iZ != 0) {
                    double xj   = particleDistance * iX;
                    double yj   = particleDistance * iY;
                    double zj   = particleDistance * iZ;
                    double dis2 = xj * xj + yj * yj + zj * zj;
                    double dis  = std::sqrt(dis2);
                    n0 += weight(dis, re);
                    lambda += dis2 * weight(dis, re);
                }
"""))

# ------------------------------------------------------------------------------------------------ pressure
PPE, IMP, EXP = ("src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/implicit.cpp",
                 "src/pressure_calculator/explicit.cpp")
FS_ = "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"

edit("ppe-source-ternary",
     (PPE, """        if (dirichletBoundaryCondition.contains(pi.id)) {
            // When dirichlet boundary condition is set, the source term is the boundary condition value.
            sourceTerm[pi.id] = dirichletBoundaryCondition.value(pi.id);
        } else {
            sourceTerm[pi.id] = gamma * (1.0 / (dt * dt)) * ((pi.numberDensity - n0) / n0);
        }
""", """        const double compression = pi.numberDensity / n0 - 1.0;
        sourceTerm[pi.id]        = dirichletBoundaryCondition.contains(pi.id) ? dirichletBoundaryCondition.value(pi.id)
                                                                      : gamma * compression / (dt * dt);
"""))

edit("ppe-source-index",
     (PPE, """    for (auto& pi : particles) {
        if (dirichletBoundaryCondition.contains(pi.id)) {
            // When dirichlet""", """    for (int i = 0; i < particlesCount; i++) {
        const auto& pi = particles[i];
        if (dirichletBoundaryCondition.contains(pi.id)) {
            // When dirichlet"""))

edit("ppe-row-helper",
     ("src/pressure_calculator/pressure_poisson_equation.hpp", "    void resetEquation();", "    void resetEquation();\n    void addEntry(int row, int column, double value) {\n        matrixTriplets.push_back(Eigen::Triplet<double>(row, column, value));\n    }\n"),
     (PPE, "            matrixTriplets.emplace_back(pi.id, pi.id, 1.0);\n", "            addEntry(pi.id, pi.id, 1.0);\n"),
     (PPE, "                matrixTriplets.emplace_back(pi.id, pj.id, -1.0 * coefficient_ij);\n                coefficient_ii += coefficient_ij;\n",
      "                coefficient_ii += coefficient_ij;\n                addEntry(pi.id, pj.id, -coefficient_ij);\n"),
     (PPE, "        matrixTriplets.emplace_back(pi.id, pi.id, coefficient_ii);\n", "        addEntry(pi.id, pi.id, coefficient_ii);\n"))

edit("ppe-diagonal-first",
     (PPE, "        double coefficient_ii = 0.0;\n        for", "        double coefficient_ii = compressibility / (dt * dt);\n        for"),
     (PPE, "        coefficient_ii += (compressibility) / (dt * dt);\n", ""),
     (PPE, """            if (pj.boundaryCondition == FluidState::Ignored) {
                continue;
            }

            if (neighbor.distance < re) {""", """            const bool counts = pj.boundaryCondition != FluidState::Ignored;
            if (counts && neighbor.distance < re) {"""))

edit("ppe-else-branch",
     (PPE, """            matrixTriplets.emplace_back(pi.id, pi.id, 1.0);
            continue;
        }

        double coefficient_ii = 0.0;""", """            matrixTriplets.emplace_back(pi.id, pi.id, 1.0);
        } else {
        double coefficient_ii = 0.0;"""),
     (PPE, "        matrixTriplets.emplace_back(pi.id, pi.id, coefficient_ii);\n    }\n", "        matrixTriplets.emplace_back(pi.id, pi.id, coefficient_ii);\n        }\n    }\n"))

edit("ppe-solve-copy",
     (PPE, "    std::vector<double> pressureStdVec(pressure.data(), pressure.data() + pressure.size());\n    return pressureStdVec;\n", """    std::vector<double> result(pressure.size());
    for (int i = 0; i < pressure.size(); i++) {
        result[i] = pressure[i];
    }
    return result;
"""))

edit("implicit-max",
     (IMP, """    for (auto& p : pressure) {
        if (p < 0) {
            p = 0;
        }
    }
""", """    for (size_t i = 0; i < pressure.size(); i++) {
        pressure[i] = pressure[i] < 0.0 ? 0.0 : pressure[i];
    }
"""))

edit("implicit-local-pressure",
     (IMP, """    this->pressure = this->pressurePoissonEquation.solve();
    removeNegativePressure();

    return this->pressure;
""", """    pressure = pressurePoissonEquation.solve();
    removeNegativePressure();
    const auto& result = pressure;
    return result;
"""))

edit("explicit-max",
     (EXP, """        if (pi.type == ParticleType::Ghost) {
            pressure[pi.id] = 0;
        } else {
            auto ni  = pi.numberDensity;
            auto c   = this->soundSpeed;
            auto rho = pi.density;

            if (ni > n0) {
                pressure[pi.id] = c * c * rho * (ni - n0) / n0;
            } else {
                pressure[pi.id] = 0;
            }
        }
""", """        if (pi.type == ParticleType::Ghost || pi.numberDensity <= n0) {
            continue;
        }
        pressure[pi.id] = soundSpeed * soundSpeed * pi.density * (pi.numberDensity / n0 - 1.0);
"""),
     (EXP, "    std::vector<double> pressure;\n    pressure.resize(particles.size());\n", "    std::vector<double> pressure(particles.size(), 0.0);\n"))

edit("freesurface-switch",
     (FS_, """        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall) {
            pi.boundaryCondition = FluidState::Ignored;

        } else { // Fluid particles
            if (surfaceDetector->isFreeSurface(particles, pi)) {
                pi.boundaryCondition = FluidState::FreeSurface;
            } else {
                pi.boundaryCondition = FluidState::Inner;
            }
        }
""", """        switch (pi.type) {
        case ParticleType::Ghost:
        case ParticleType::DummyWall:
            pi.boundaryCondition = FluidState::Ignored;
            break;
        default:
            pi.boundaryCondition =
                surfaceDetector->isFreeSurface(particles, pi) ? FluidState::FreeSurface : FluidState::Inner;
        }
"""))

edit("freesurface-one-loop",
     (FS_, """        if (p.boundaryCondition != FluidState::Inner) {
            dirichletBoundaryCondition.set(p.id, 0.0);
        }
""", """        if (p.boundaryCondition == FluidState::Inner)
            continue;
        const double surfacePressure = 0.0;
        dirichletBoundaryCondition.set(p.id, surfacePressure);
"""))

edit("dirichlet-count",
     ("src/pressure_calculator/dirichlet_boundary_condition.cpp", "return this->values.find(id) != this->values.end();", "return values.count(id) > 0;"),
     ("src/pressure_calculator/dirichlet_boundary_condition.cpp", "return this->values.at(id);", "return values.find(id)->second;"))

# ------------------------------------------------------------------------------------------------ surface detection
DI = "src/surface_detector/distribution.cpp"
edit("distribution-or",
     (DI, """    if (abs(rij_sum.x()) > threshold) {
        return true;

    } else if (abs(rij_sum.y()) > threshold) {
        return true;

    } else if (abs(rij_sum.z()) > threshold) {
        return true;

    } else {
        return false;
    }
""", """    return std::abs(rij_sum.x()) > threshold || std::abs(rij_sum.y()) > threshold || std::abs(rij_sum.z()) > threshold;
"""),
     (DI, """    if (mainDetection(particles, particle)) {
        return subDetection(particles, particle);
    } else {
        return false;
    }
""", """    return mainDetection(particles, particle) && subDetection(particles, particle);
"""))

edit("distribution-loop-axes",
     (DI, """    if (abs(rij_sum.x()) > threshold) {
        return true;

    } else if (abs(rij_sum.y()) > threshold) {
        return true;

    } else if (abs(rij_sum.z()) > threshold) {
        return true;

    } else {
        return false;
    }
""", """    for (int axis = 0; axis < 3; axis++) {
        if (std::fabs(rij_sum[axis]) > threshold)
            return true;
    }
    return false;
"""),
     (DI, "    if (particle.neighbors.empty()) {", "    if (particle.neighbors.size() == 0) {"))

edit("distribution-maxcoeff",
     (DI, """    if (abs(rij_sum.x()) > threshold) {
        return true;

    } else if (abs(rij_sum.y()) > threshold) {
        return true;

    } else if (abs(rij_sum.z()) > threshold) {
        return true;

    } else {
        return false;
    }
""", """    return rij_sum.cwiseAbs().maxCoeff() > threshold;
"""))

# ------------------------------------------------------------------------------------------------ exporters
EX = "src/particles_exporter.cpp"
EXH = "src/particles_exporter.hpp"
edit("exp-prof-index-loop",
     (EX, """    for (const auto& p : particles) {
        ofs << static_cast<int>(p.type) << " ";
        ofs << p.position.x() << " " << p.position.y() << " " << p.position.z() << " ";
        ofs << p.velocity.x() << " " << p.velocity.y() << " " << p.velocity.z();
        ofs << endl;
    }
}
void""", """    for (int i = 0; i < particles.size(); i++) {
        const Particle& q = particles[i];
        const auto& x = q.position;
        const auto& u = q.velocity;
        ofs << static_cast<int>(q.type) << " " << x[0] << " " << x[1] << " " << x[2] << " " << u[0] << " " << u[1] << " " << u[2] << endl;
    }
}
void"""))

edit("exp-newline-char",
     (EX, """    ofs << time << endl;
    ofs << particles.size() << endl;
    ofs << "type,fluidType,x,y,z,vx,vy,vz" << endl;
""", """    ofs << time << '\\n' << particles.size() << '\\n' << "type,fluidType,x,y,z,vx,vy,vz\\n";
"""))

edit("exp-csv-row-helper",
     (EX, """void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
""", """static void writeVector(std::ostream& os, const Eigen::Vector3d& v, const char* separator) {
    os << v.x() << separator << v.y() << separator << v.z();
}

void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
"""),
     (EX, """        ofs << p.position.x() << "," << p.position.y() << "," << p.position.z() << ",";
        ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
        ofs << endl;
""", """        writeVector(ofs, p.position, ",");
        ofs << ",";
        writeVector(ofs, p.velocity, ",");
        ofs << endl;
"""))

edit("exp-csv-buffer",
     (EX, """    ofs << "type,fluidType,x,y,z,vx,vy,vz" << endl;
    for (const auto& p : particles) {
        ofs << static_cast<int>(p.type) << ",";
        ofs << p.fluidType << ",";
        ofs << p.position.x() << "," << p.position.y() << "," << p.position.z() << ",";
        ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
        ofs << endl;
    }
""", """    ofs << "type,fluidType,x,y,z,vx,vy,vz" << endl;
    std::stringstream rows;
    for (const auto& p : particles) {
        rows << static_cast<int>(p.type) << ",";
        rows << p.fluidType << ",";
        rows << p.position.x() << "," << p.position.y() << "," << p.position.z() << ",";
        rows << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
        rows << endl;
    }
    ofs << rows.str();
"""))

edit("exp-open-helper",
     (EX, """void ParticlesExporter::toProf(const fs::path& path, const double& time) {
    std::ofstream ofs(path);
    if (ofs.fail()) {
        cerr << "cannot write " << path << endl;
        std::exit(-1);
    }
""", """static void openOutput(std::ofstream& ofs, const fs::path& path) {
    ofs.open(path);
    if (!ofs) {
        cerr << "cannot write " << path << endl;
        std::exit(-1);
    }
}

void ParticlesExporter::toProf(const fs::path& path, const double& time) {
    std::ofstream ofs;
    openOutput(ofs, path);
"""))

edit("exp-is-open",
     (EX, """void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
    std::ofstream ofs(path);
    if (ofs.fail()) {
""", """void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
    std::ofstream ofs(path);
    if (!ofs.is_open()) {
"""))

edit("exp-ascii-count-local",
     (EX, """    ofs << "<UnstructuredGrid>" << endl
        << "<Piece NumberOfPoints=\\"" << particles.size() << "\\" NumberOfCells=\\"" << particles.size() << "\\">" << endl;

""", """    const int count = particles.size();
    ofs << "<UnstructuredGrid>" << endl;
    ofs << "<Piece NumberOfPoints=\\"" << count << "\\" NumberOfCells=\\"" << count << "\\">" << endl;

"""))

edit("exp-ascii-scalar-lambda",
     (EX, """    // Pressure
    ofs << dataArrayBegin("Float64", "Pressure", 1, "ascii") << endl;
    for (const auto& p : particles) {
        ofs << p.pressure << endl;
    }
    ofs << dataArrayEnd() << endl;
    // Number Density
    ofs << dataArrayBegin("Float64", "Number Density", 1, "ascii") << endl;
    for (const auto& p : particles) {
        ofs << p.numberDensity << endl;
    }
    ofs << dataArrayEnd() << endl;
""", """    auto scalar = [&](const std::string& name, auto value) {
        ofs << dataArrayBegin("Float64", name, 1, "ascii") << endl;
        for (const auto& p : particles) {
            ofs << value(p) << endl;
        }
        ofs << dataArrayEnd() << endl;
    };
    scalar("Pressure", [](const Particle& p) { return p.pressure; });
    scalar("Number Density", [](const Particle& p) { return p.numberDensity; });
"""))

edit("exp-ascii-ratio-local",
     (EX, """        ofs << p.numberDensity / n0ForNumberDensity << endl;
""", """        const double ratio = p.numberDensity / n0ForNumberDensity;
        ofs << ratio << endl;
"""))

edit("exp-byteorder-helper",
     (EX, """    ofs << "<VTKFile type=\\"UnstructuredGrid\\" version=\\"1.0\\" header_type=\\"UInt64\\" byte_order=\\"";
    if (isBigEndian()) {
        ofs << "BigEndian";
    } else {
        ofs << "LittleEndian";
    }
    ofs << "\\">" << endl;
    ofs << "<UnstructuredGrid>" << endl
        << "<Piece NumberOfPoints=\\"" << particles.size() << "\\" NumberOfCells=\\"" << particles.size() << "\\">" << endl;
    /// ------------------
""", """    const std::string order = isBigEndian() ? "BigEndian" : "LittleEndian";
    ofs << "<VTKFile type=\\"UnstructuredGrid\\" version=\\"1.0\\" header_type=\\"UInt64\\" byte_order=\\"" + order + "\\">" << endl;
    ofs << "<UnstructuredGrid>" << endl
        << "<Piece NumberOfPoints=\\"" << particles.size() << "\\" NumberOfCells=\\"" << particles.size() << "\\">" << endl;
    /// ------------------
"""))

edit("exp-binary-write-helper",
     (EX, """void ParticlesExporter::toVtuBinary(const""", """template <typename T> static void put(std::ostream& os, T value) {
    os.write(reinterpret_cast<char*>(&value), sizeof(T));
}

void ParticlesExporter::toVtuBinary(const"""),
     (EX, """        double x = p.position.x();
        double y = p.position.y();
        double z = p.position.z();
        binaryData.write(reinterpret_cast<char*>(&x), sizeof(double));
        binaryData.write(reinterpret_cast<char*>(&y), sizeof(double));
        binaryData.write(reinterpret_cast<char*>(&z), sizeof(double));
""", """        put<double>(binaryData, p.position.x());
        put<double>(binaryData, p.position.y());
        put<double>(binaryData, p.position.z());
"""),
     (EX, """    uint64_t length_pressure = particles.size() * sizeof(double);
    binaryData.write(reinterpret_cast<char*>(&length_pressure), sizeof(uint64_t));
    for (const auto& p : particles) {
        double pressure = p.pressure;
        binaryData.write(reinterpret_cast<char*>(&pressure), sizeof(double));
    }
""", """    put<uint64_t>(binaryData, particles.size() * sizeof(double));
    for (const auto& p : particles) {
        put(binaryData, p.pressure);
    }
"""))

edit("exp-binary-velocity-loop",
     (EX, """        double vx = p.velocity.x();
        double vy = p.velocity.y();
        double vz = p.velocity.z();
        binaryData.write(reinterpret_cast<char*>(&vx), sizeof(double));
        binaryData.write(reinterpret_cast<char*>(&vy), sizeof(double));
        binaryData.write(reinterpret_cast<char*>(&vz), sizeof(double));
""", """        for (int k = 0; k < 3; k++) {
            double component = p.velocity[k];
            binaryData.write(reinterpret_cast<const char*>(&component), sizeof(component));
        }
"""))

edit("exp-binary-offset-local",
     (EX, """    ofs << dataArrayBegin("Float64", "Velocity", 3, "appended", binaryData.tellp()) << endl;
""", """    const size_t velocityOffset = binaryData.tellp();
    ofs << dataArrayBegin("Float64", "Velocity", 3, "appended", velocityOffset) << endl;
"""))

edit("exp-binary-connectivity",
     (EX, """    for (size_t i = 0; i < particles.size(); i++) {
        int64_t connectivity = i;
        binaryData.write(reinterpret_cast<char*>(&connectivity), sizeof(int64_t));
    }
""", """    int64_t connectivity = 0;
    while (connectivity < particles.size()) {
        binaryData.write(reinterpret_cast<char*>(&connectivity), sizeof(int64_t));
        ++connectivity;
    }
"""))

edit("exp-binary-data-then-header",
     (EX, """    ofs << dataArrayBegin("Float64", "Pressure", 1, "appended", binaryData.tellp()) << endl;
    ofs << dataArrayEnd() << endl;
    uint64_t length_pressure = particles.size() * sizeof(double);
    binaryData.write(reinterpret_cast<char*>(&length_pressure), sizeof(uint64_t));
    for (const auto& p : particles) {
        double pressure = p.pressure;
        binaryData.write(reinterpret_cast<char*>(&pressure), sizeof(double));
    }
""", """    const auto pressureOffset = binaryData.tellp();
    uint64_t length_pressure = sizeof(double) * particles.size();
    binaryData.write(reinterpret_cast<char*>(&length_pressure), sizeof(uint64_t));
    for (const auto& p : particles) {
        binaryData.write(reinterpret_cast<const char*>(&p.pressure), sizeof(double));
    }
    ofs << dataArrayBegin("Float64", "Pressure", 1, "appended", pressureOffset) << endl;
    ofs << dataArrayEnd() << endl;
"""))

edit("exp-array-begin-stream",
     (EX, """    std::string ret;
    ret += "<DataArray type=\\"" + type + "\\" Name=\\"" + name + "\\" NumberOfComponents=\\"" +
           std::to_string(numberOfComponents) + "\\" format=\\"" + format + "\\"";
    if (format == "appended") {
        ret += " offset=\\"" + std::to_string(offset) + "\\"";
    }
    ret += ">";
    return ret;
""", """    std::stringstream ss;
    ss << "<DataArray type=\\"" << type << "\\" Name=\\"" << name << "\\" NumberOfComponents=\\"" << numberOfComponents
       << "\\" format=\\"" << format << "\\"";
    if (format == "appended") {
        ss << " offset=\\"" << offset << "\\"";
    }
    ss << ">";
    return ss.str();
"""))

edit("exp-vtu-ternary",
     (EX, """    if (binary) {
        toVtuBinary(path, time, n0ForNumberDensity);
    } else {
        toVtuAscii(path, time, n0ForNumberDensity);
    }
""", """    if (!binary) {
        toVtuAscii(path, time, n0ForNumberDensity);
        return;
    }
    toVtuBinary(path, time, n0ForNumberDensity);
"""))

# ------------------------------------------------------------------------------------------------ saver
SV = "src/saver.cpp"
edit("saver-name-helper",
     (SV, """void Saver::save(const MPS& mps, const double time) {
""", """static std::string fileName(int number, const std::string& extension) {
    std::stringstream name;
    name << "output_" << std::setfill('0') << std::setw(4) << number << extension;
    return name.str();
}

void Saver::save(const MPS& mps, const double time) {
"""),
     (SV, """    std::stringstream profName;
    profName << "output_" << std::setfill('0') << std::setw(4) << fileNumber << ".prof";
    fs::path profPath = dir / "prof" / profName.str();
    exporter.toProf(profPath, time);
""", """    exporter.toProf(dir / "prof" / fileName(fileNumber, ".prof"), time);
"""),
     (SV, """    std::stringstream vtuName;
    vtuName << "output_" << std::setfill('0') << std::setw(4) << fileNumber << ".vtu";
    fs::path vtuPath = dir / "vtu" / vtuName.str();
""", """    fs::path vtuPath = dir / "vtu" / fileName(fileNumber, ".vtu");
"""))

edit("saver-one-stem",
     (SV, """    std::stringstream profName;
    profName << "output_" << std::setfill('0') << std::setw(4) << fileNumber << ".prof";
    fs::path profPath = dir / "prof" / profName.str();
    exporter.toProf(profPath, time);

    std::stringstream vtuName;
    vtuName << "output_" << std::setfill('0') << std::setw(4) << fileNumber << ".vtu";
    fs::path vtuPath = dir / "vtu" / vtuName.str();
    exporter.toVtu(vtuPath, time, mps.refValuesForNumberDensity.n0, outputVtkInBinary);

    std::stringstream csvName;
    csvName << "output_" << std::setfill('0') << std::setw(4) << fileNumber << ".csv";
    fs::path csvPath = dir / "csv" / csvName.str();
    exporter.toCsv(csvPath, time);

    fileNumber++;
""", """    std::stringstream name;
    name << "output_" << std::setfill('0') << std::setw(4) << fileNumber;
    const std::string stem = name.str();

    exporter.toCsv(dir / "csv" / (stem + ".csv"), time);
    exporter.toVtu(dir / "vtu" / (stem + ".vtu"), time, mps.refValuesForNumberDensity.n0, outputVtkInBinary);
    exporter.toProf(dir / "prof" / (stem + ".prof"), time);

    ++fileNumber;
"""))

edit("saver-dirs-loop",
     (SV, """    fs::create_directories(dir / "prof");
    fs::create_directories(dir / "vtu");
    fs::create_directories(dir / "csv");
""", """    for (const char* format : {"prof", "vtu", "csv"}) {
        fs::create_directories(dir / format);
    }
"""))

# ------------------------------------------------------------------------------------------------ simulation
SI = "src/simulation.cpp"
SIH = "src/simulation.hpp"
edit("sim-step-helper",
     (SI, """        mps.stepForward();
        timeStep++;
        time += dt;
""", """        advance();
"""),
     (SI, """void Simulation::startSimulation() {
""", """void Simulation::advance() {
    mps.stepForward();
    time += dt;
    timeStep += 1;
}

void Simulation::startSimulation() {
"""),
     (SIH, """    void startSimulation();
""", """    void startSimulation();
    void advance();
"""))

edit("sim-for-loop",
     (SI, """    while (time < endTime) {
""", """    for (; endTime > time;) {
"""))

edit("sim-break-loop",
     (SI, """    while (time < endTime) {
        auto timeStepStartTime""", """    while (true) {
        if (!(time < endTime))
            break;
        auto timeStepStartTime"""))

edit("sim-save-due",
     (SI, """    return time - startTime >= outputPeriod * double(saver.getFileNumber());
""", """    const double elapsed = time - startTime;
    const double due     = saver.getFileNumber() * outputPeriod;
    if (elapsed >= due) {
        return true;
    }
    return false;
"""))

edit("sim-constructor-order",
     (SI, """    mps          = MPSFactory::create(input);
    startTime    = input.startTime;
    time         = startTime;
    endTime      = input.settings.endTime;
    dt           = input.settings.dt;
    outputPeriod = input.settings.outputPeriod;
""", """    const Settings& settings = input.settings;
    dt           = settings.dt;
    outputPeriod = settings.outputPeriod;
    endTime      = settings.endTime;
    time         = input.startTime;
    startTime    = time;
    mps          = MPSFactory::create(input);
"""))

edit("sim-report-ave",
     (SI, """    double ave = 0.0;
    if (timeStep != 0) {
        ave = (double)""", """    double ave = 0.0;
    if (timeStep > 0) {
        ave = (double)"""))

# ------------------------------------------------------------------------------------------------ main
MA = "src/main.cpp"
edit("main-no-locals",
     (MA, """    auto settingPath     = fs::path(program.get<std::string>("--setting"));
    auto outputDirectory = fs::path(program.get<std::string>("--output"));
""", """    fs::path settingPath(program.get("-s"));
    fs::path outputDirectory = program.get("-o");
"""))

edit("main-check-helper",
     (MA, """/**
 * @brief entry point""", """static void requireExists(const char* what, const std::string& value) {
    if (fs::exists(value))
        return;
    cout << "ERROR: The " << what << " " << value << " does not exist" << endl;
    cerr << "ERROR: The " << what << " " << value << " does not exist" << endl;
    exit(-1);
}

/**
 * @brief entry point"""),
     (MA, """            if (!fs::exists(value)) {
                cout << "ERROR: The setting file " << value << " does not exist" << endl;
                cerr << "ERROR: The setting file " << value << " does not exist" << endl;
                exit(-1);
            }
""", """            requireExists("setting file", value);
"""),
     (MA, """            if (!fs::exists(value)) {
                cout << "ERROR: The output directory " << value << " does not exist" << endl;
                cerr << "ERROR: The output directory " << value << " does not exist" << endl;
                exit(-1);
            }
""", """            requireExists("output directory", value);
"""))

edit("main-return-early",
     (MA, """        cerr << program;
        exit(-1);
    }
""", """        cerr << program;
        return 1;
    }
"""))

edit("main-run-helper",
     (MA, """/**
 * @brief entry point""", """static int simulate(fs::path settingPath, fs::path outputDirectory) {
    Simulation simulation(settingPath, outputDirectory);
    simulation.run();
    return EXIT_SUCCESS;
}

/**
 * @brief entry point"""),
     (MA, """    Simulation simulation(settingPath, outputDirectory);
    simulation.run();

    return 0;
""", """    return simulate(settingPath, outputDirectory);
"""))

# ------------------------------------------------------------------------------------------------ factory
FA = "src/mps_factory.cpp"
edit("factory-make-unique",
     (FA, """    std::unique_ptr<SurfaceDetector::Interface> surfaceDetector;
    if (input.settings.surfaceDetection_particleDistribution) {
        surfaceDetector.reset(new SurfaceDetector::Distribution(
            refValuesForNumberDensity.n0,
            input.settings.particleDistance,
            input.settings.surfaceDetection_particleDistribution_threshold,
            input.settings.surfaceDetection_numberDensity_threshold
        ));
    } else {
        surfaceDetector.reset(new SurfaceDetector::NumberDensity(
            input.settings.surfaceDetection_numberDensity_threshold,
            refValuesForNumberDensity.n0
        ));
    }
""", """    const Settings& s = input.settings;
    const double n0   = refValuesForNumberDensity.n0;
    std::unique_ptr<SurfaceDetector::Interface> surfaceDetector;
    if (!s.surfaceDetection_particleDistribution) {
        surfaceDetector = std::make_unique<SurfaceDetector::NumberDensity>(s.surfaceDetection_numberDensity_threshold, n0);
    } else {
        surfaceDetector = std::make_unique<SurfaceDetector::Distribution>(
            n0,
            s.particleDistance,
            s.surfaceDetection_particleDistribution_threshold,
            s.surfaceDetection_numberDensity_threshold
        );
    }
"""))

edit("factory-gravity-helper",
     (FA, """MPS MPSFactory::create(const Input& input) {
    Eigen::Vector3d gravity = Eigen::Vector3d::Zero();
    if (input.settings.xyzInput) {
        gravity = input.settings.gravity;
    } else {
        double gNorm  = input.settings.gNorm;
        double gAngle = input.settings.gAngle;
        double theta  = gAngle * M_PI / 180.0;                   // Convert angle to radians
        gravity << gNorm * sin(theta), -gNorm * cos(theta), 0.0; // Gravity in XY plane
    }
""", """static Eigen::Vector3d gravityOf(const Settings& settings) {
    if (settings.xyzInput) {
        return settings.gravity;
    }
    const double theta = settings.gAngle / 180.0 * M_PI;
    return settings.gNorm * Eigen::Vector3d(std::sin(theta), -std::cos(theta), 0.0);
}

MPS MPSFactory::create(const Input& input) {
    Eigen::Vector3d gravity = gravityOf(input.settings);
"""))

edit("factory-method-flags",
     (FA, """    if (input.settings.pressureCalculationMethod == "Implicit") {
""", """    const bool implicit = input.settings.pressureCalculationMethod == "Implicit";
    const bool explicitMethod = input.settings.pressureCalculationMethod == "Explicit";
    if (!implicit && !explicitMethod) {
        std::cerr << "Invalid pressure calculation method: " << input.settings.pressureCalculationMethod << std::endl;
        std::cerr << "Please select either Implicit or Explicit." << std::endl;
        std::exit(-1);
    }
    if (implicit) {
"""),
     (FA, """    } else if (input.settings.pressureCalculationMethod == "Explicit") {
""", """    } else {
"""),
     (FA, """    } else {
        std::cerr << "Invalid pressure calculation method: " << input.settings.pressureCalculationMethod << std::endl;
        std::cerr << "Please select either Implicit or Explicit." << std::endl;
        std::exit(-1);
    }

    return MPS(""", """    }

    return MPS("""))

# ------------------------------------------------------------------------------------------------ settings
LO = "src/loader.cpp"
edit("load-optional-helper",
     (LO, """Settings Loader::loadSettingYaml(const fs::path& settingPath) {
""", """template <typename T> static T optional(const YAML::Node& yaml, const std::string& name, T otherwise) {
    if (yaml[name]) {
        return yaml[name].as<T>();
    }
    return otherwise;
}

Settings Loader::loadSettingYaml(const fs::path& settingPath) {
"""),
     (LO, """    s.xyzInput = yaml["xyz-input"] ? yaml["xyz-input"].as<bool>() : true;
""", """    s.xyzInput = optional(yaml, "xyz-input", true);
"""),
     (LO, """    s.gNorm  = yaml["gravity-norm"] ? yaml["gravity-norm"].as<double>() : 0.0;
    s.gAngle = yaml["gravity-angle"] ? yaml["gravity-angle"].as<double>() : 0.0;
""", """    s.gNorm  = optional(yaml, "gravity-norm", 0.0);
    s.gAngle = optional<double>(yaml, "gravity-angle", 0.0);
"""),
     (LO, """    if (yaml["outputVtkInBinary"]) {
        s.outputVtkInBinary = yaml["outputVtkInBinary"].as<bool>();
    } else {
        s.outputVtkInBinary = false;
    }
""", """    s.outputVtkInBinary = optional(yaml, "outputVtkInBinary", false);
"""))

edit("load-yaml-fallback",
     (LO, """    s.gNorm  = yaml["gravity-norm"] ? yaml["gravity-norm"].as<double>() : 0.0;
""", """    s.gNorm  = yaml["gravity-norm"].as<double>(0.0);
"""),
     (LO, """    s.xyzInput = yaml["xyz-input"] ? yaml["xyz-input"].as<bool>() : true;
""", """    s.xyzInput = true;
    if (yaml["xyz-input"].IsDefined())
        s.xyzInput = yaml["xyz-input"].as<bool>();
"""))

edit("load-gravity-loop",
     (LO, """    s.gravity[0] = yaml["gravity"][0].as<double>();
    s.gravity[1] = yaml["gravity"][1].as<double>();
    s.gravity[2] = yaml["gravity"][2].as<double>();
""", """    const YAML::Node gravity = yaml["gravity"];
    for (int k = 0; k < 3; k++) {
        s.gravity[k] = gravity[k].as<double>();
    }
"""))

edit("load-domain-vector",
     (LO, """    s.domain.xMin    = yaml["domainMin"][0].as<double>();
    s.domain.xMax    = yaml["domainMax"][0].as<double>();
    s.domain.yMin    = yaml["domainMin"][1].as<double>();
    s.domain.yMax    = yaml["domainMax"][1].as<double>();
    s.domain.zMin    = yaml["domainMin"][2].as<double>();
    s.domain.zMax    = yaml["domainMax"][2].as<double>();
""", """    auto lower = [&yaml](int axis) { return yaml["domainMin"][axis].as<double>(); };
    auto upper = [&yaml](int axis) { return yaml["domainMax"][axis].as<double>(); };
    s.domain.xMin = lower(0);
    s.domain.yMin = lower(1);
    s.domain.zMin = lower(2);
    s.domain.xMax = upper(0);
    s.domain.yMax = upper(1);
    s.domain.zMax = upper(2);
"""))

edit("load-radius-distance",
     (LO, """    s.re_forNumberDensity = yaml["radiusRatioForNumberDensity"].as<double>() * s.particleDistance;
    s.re_forGradient      = yaml["radiusRatioForGradient"].as<double>() * s.particleDistance;
    s.re_forLaplacian     = yaml["radiusRatioForLaplacian"].as<double>() * s.particleDistance;
    s.reMax               = std::max({s.re_forNumberDensity, s.re_forGradient, s.re_forLaplacian});
""", """    const double l0       = s.particleDistance;
    s.re_forNumberDensity = l0 * yaml["radiusRatioForNumberDensity"].as<double>();
    s.re_forGradient      = l0 * yaml["radiusRatioForGradient"].as<double>();
    s.re_forLaplacian     = l0 * yaml["radiusRatioForLaplacian"].as<double>();
    s.reMax               = std::max(std::max(s.re_forGradient, s.re_forLaplacian), s.re_forNumberDensity);
"""))

edit("load-sections",
     (LO, """    // computational conditions
    s.dim              = yaml["dim"].as<int>();
    s.particleDistance = yaml["particleDistance"].as<double>();
    s.dt               = yaml["dt"].as<double>();
    s.endTime          = yaml["endTime"].as<double>();
    s.outputPeriod     = yaml["outputPeriod"].as<double>();
    s.cflCondition     = yaml["cflCondition"].as<double>();
    s.numPhysicalCores = yaml["numPhysicalCores"].as<int>();
""", """    // computational conditions
    loadComputationalConditions(yaml, s);
"""),
     (LO, """Settings Loader::loadSettingYaml(const fs::path& settingPath) {
""", """static void loadComputationalConditions(const YAML::Node& yaml, Settings& s) {
    s.dim              = yaml["dim"].as<int>();
    s.particleDistance = yaml["particleDistance"].as<double>();
    s.dt               = yaml["dt"].as<double>();
    s.endTime          = yaml["endTime"].as<double>();
    s.outputPeriod     = yaml["outputPeriod"].as<double>();
    s.cflCondition     = yaml["cflCondition"].as<double>();
    s.numPhysicalCores = yaml["numPhysicalCores"].as<int>();
}

Settings Loader::loadSettingYaml(const fs::path& settingPath) {
"""))

edit("load-extension-string",
     (LO, """    auto extension = particlesPath.extension();
    if (extension == ".csv") {
""", """    const std::string extension = particlesPath.extension().string();
    if (extension == ".csv") {
"""))

edit("load-pair",
     (LO, """    auto [startTime, particles] = this->particlesLoader->load(particlesPath, input.settings.defaultDensity);
    input.startTime             = startTime;
    input.particles             = particles;
""", """    const auto loaded = this->particlesLoader->load(particlesPath, input.settings.defaultDensity);
    input.startTime   = loaded.first;
    input.particles   = loaded.second;
"""))

edit("load-copy-early",
     (LO, """    if (fs::exists(outputFilePath)) {
        cerr << "file " << outputFilePath << " already exists in the output directory" << endl;
        std::exit(-1);
    } else {
        fs::copy_file(inputFilePath, outputFilePath);
    }
""", """    const bool taken = fs::exists(outputFilePath);
    if (taken) {
        cerr << "file " << outputFilePath << " already exists in the output directory" << endl;
        std::exit(EXIT_FAILURE);
    }
    fs::copy_file(inputFilePath, outputFilePath);
"""))

# ------------------------------------------------------------------------------------------------ bucket and particles
BU = "src/bucket.cpp"
edit("bucket-domain-contains",
     (BU, """        bool isInDomain = domain.xMin <= p.position.x() && p.position.x() <= domain.xMax;
        isInDomain      = isInDomain && domain.yMin <= p.position.y() && p.position.y() <= domain.yMax;
        isInDomain      = isInDomain && domain.zMin <= p.position.z() && p.position.z() <= domain.zMax;
        if (!isInDomain) {
""", """        if (!contains(domain, p.position)) {
"""),
     (BU, """void Bucket::generate(""", """static bool within(double lower, double x, double upper) {
    return x >= lower && x <= upper;
}

static bool contains(const Domain& d, const Eigen::Vector3d& x) {
    return within(d.xMin, x.x(), d.xMax) && within(d.yMin, x.y(), d.yMax) && within(d.zMin, x.z(), d.zMax);
}

void Bucket::generate("""))

edit("bucket-fill-std",
     (BU, """#pragma omp parallel for
    for (int i = 0; i < num; i++) {
        first[i] = -1;
        last[i]  = -1;
    }
#pragma omp parallel for
    for (int i = 0; i < particles.size(); i++) {
        next[i] = -1;
    }
""", """    std::fill(first.begin(), first.end(), -1);
    std::fill(last.begin(), last.end(), -1);
    std::fill(next.begin(), next.end(), -1);
"""))

edit("bucket-cell-locals",
     (BU, """        int ix      = (int) ((p.position.x() - domain.xMin) / length) + 1;
        int iy      = (int) ((p.position.y() - domain.yMin) / length) + 1;
        int iz      = (int) ((p.position.z() - domain.zMin) / length) + 1;
        int iBucket = ix + iy * numX + iz * numX * numY;

        if (last[iBucket] == -1)
            first[iBucket] = p.id;
        else
            next[last[iBucket]] = p.id;
        last[iBucket] = p.id;
""", """        const int ix      = 1 + static_cast<int>((p.position[0] - domain.xMin) / length);
        const int iy      = 1 + static_cast<int>((p.position[1] - domain.yMin) / length);
        const int iz      = 1 + static_cast<int>((p.position[2] - domain.zMin) / length);
        const int iBucket = (iz * numY + iy) * numX + ix;

        const int previous = last[iBucket];
        if (previous != -1) {
            next[previous] = p.id;
        } else {
            first[iBucket] = p.id;
        }
        last[iBucket] = p.id;
"""))

edit("particles-push-back",
     ("src/particles.cpp", "    particles.emplace_back(particle);", "    particles.push_back(particle);"),
     ("src/particles.cpp", """    assert(particle.id == particles.size());
""", """    assert(particle.id == static_cast<int>(particles.size()));
"""))

edit("particle-initialiser-list",
     ("src/particle.cpp", """Particle::Particle(int id, ParticleType type, Eigen::Vector3d pos, Eigen::Vector3d vel, double density, int fluidType) {
    this->id        = id;
    this->type      = type;
    this->position  = pos;
    this->velocity  = vel;
    this->density   = density;
    this->fluidType = fluidType;
}
""", """Particle::Particle(int id, ParticleType type, Eigen::Vector3d pos, Eigen::Vector3d vel, double density, int fluidType)
    : id(id), type(type), fluidType(fluidType), position(pos), velocity(vel), density(density) {
}
"""),
     ("src/particle.cpp", """    switch (type) {
    case ParticleType::Fluid:
        return 1 / this->density;

    case ParticleType::Wall:
    case ParticleType::DummyWall:
    case ParticleType::Ghost:
    default:
        return 0;
    }
""", """    return type == ParticleType::Fluid ? 1.0 / density : 0.0;
"""))

# ------------------------------------------------------------------------------------------------ generators
GD = "generator/generator_src/generator_dialogue.cpp"
LOOP = """            std::string response;
            while (true) {
                std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
                if (!(std::cin >> response) || response == "n" || response == "N") {
                    std::cout << "The request has been cancelled." << std::endl;
                    std::exit(0);
                } else if (response == "y" || response == "Y") {
                    break;
                } else {
                    std::cout << "Invalid input. Please enter 'y' or 'n'." << std::endl;
                }
            }
"""
HEAD = """namespace fs = std::filesystem;

void GeneratorDialogue"""
edit("gen-confirm-helper",
     (GD, HEAD, """namespace fs = std::filesystem;

static bool confirmed() {
    std::string response;
    for (;;) {
        std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
        std::cin >> response;
        if (!std::cin) return false;
        if (response == "y" || response == "Y") return true;
        if (response == "n" || response == "N") return false;
        std::cout << "Invalid input. Please enter 'y' or 'n'." << std::endl;
    }
}

void GeneratorDialogue"""),
     (GD, LOOP, """            if (!confirmed()) {
                std::cout << "The request has been cancelled." << std::endl;
                std::exit(0);
            }
"""))
edit("gen-confirm-flag",
     (GD, LOOP, """            std::string response;
            bool confirmed = false;
            while (!confirmed) {
                std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
                const bool got = static_cast<bool>(std::cin >> response);
                const bool no  = response == "n" || response == "N";
                if (!got || no) {
                    std::cout << "The request has been cancelled." << std::endl;
                    std::exit(EXIT_SUCCESS);
                }
                confirmed = response == "y" || response == "Y";
                if (!confirmed) {
                    std::cout << "Invalid input. Please enter 'y' or 'n'." << std::endl;
                }
            }
"""))
edit("gen-confirm-do",
     (GD, LOOP, """            std::string response;
            do {
                std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
                if (!(std::cin >> response) || response == "n" || response == "N") {
                    std::cout << "The request has been cancelled." << std::endl;
                    std::exit(0);
                }
                if (response != "y" && response != "Y")
                    std::cout << "Invalid input. Please enter 'y' or 'n'." << std::endl;
            } while (response != "y" && response != "Y");
"""))
edit("gen-export-helper",
     (GD, HEAD, """namespace fs = std::filesystem;

static void exportAs(ParticlesExporter& exporter, const std::string& ext, const fs::path& filePath) {
    if (ext == ".prof") {
        exporter.toProf(filePath, 0.0);
    } else if (ext == ".vtu") {
        exporter.toVtu(filePath, 0.0);
    } else {
        exporter.toCsv(filePath, 0.0);
    }
    std::cout << "Particles exported to " << filePath << std::endl;
}

void GeneratorDialogue"""),
     (GD, """        if (ext == ".prof") {
            exporter.toProf(filePath, 0.0);
            std::cout << "Particles exported to " << filePath << std::endl;
        } else if (ext == ".vtu") {
            exporter.toVtu(filePath, 0.0);
            std::cout << "Particles exported to " << filePath << std::endl;
        } else if (ext == ".csv") {
            exporter.toCsv(filePath, 0.0);
            std::cout << "Particles exported to " << filePath << std::endl;
        }
""", """        exportAs(exporter, ext, filePath);
"""))
edit("gen-existing-first",
     (GD, """        bool dialogueNeeded = false;
        for (const auto& ext : extensions) {
            fs::path filePath = parentPath / ("input" + ext);
            if (fs::exists(filePath)) {
                std::cout << "File already exists: " << filePath << std::endl;
                dialogueNeeded = true;
            }
        }
        if (dialogueNeeded) {
""", """        int existing = 0;
        for (size_t k = 0; k < extensions.size(); k++) {
            const fs::path filePath = parentPath / ("input" + extensions[k]);
            if (!fs::exists(filePath)) {
                continue;
            }
            std::cout << "File already exists: " << filePath << std::endl;
            ++existing;
        }
        if (existing > 0) {
"""))
GH = "generator/generate_hydrostatic.cpp"
GB = "generator/generate_dambreak.cpp"
edit("gen-hydro-type-first",
     (GH, """            // empty region
            if (emptyDomain.sdf(r) < 0) {
                continue;
            }
            // fluid region
            if (fluidDomain.sdf(r) < 0) {
                particles.add(Particle(id, ParticleType::Fluid, r_3d, Eigen::Vector3d::Zero(), density));
                id++;
                continue;
            }
            // wall region
            if (wallBB.sdf(r) < 0) {
                particles.add(Particle(id, ParticleType::Wall, r_3d, Eigen::Vector3d::Zero(), density));
                id++;
                continue;
            }
            // dummy region
            if (dummyBB.sdf(r) < 0) {
                particles.add(Particle(id, ParticleType::DummyWall, r_3d, Eigen::Vector3d::Zero(), density));
                id++;
                continue;
            }
""", """            ParticleType type = ParticleType::Ghost;
            if (emptyDomain.sdf(r) < 0) {
                continue;
            } else if (fluidDomain.sdf(r) < 0) {
                type = ParticleType::Fluid;
            } else if (wallBB.sdf(r) < 0) {
                type = ParticleType::Wall;
            } else if (dummyBB.sdf(r) < 0) {
                type = ParticleType::DummyWall;
            } else {
                continue;
            }
            particles.add(Particle(id++, type, r_3d, Eigen::Vector3d::Zero(), density));
"""))
edit("gen-hydro-lambda",
     (GH, "    int id = 0;\n", """    int id         = 0;
    const auto put = [&](ParticleType type, const Eigen::Vector3d& at) {
        particles.add(Particle(id, type, at, Eigen::Vector3d::Zero(), density));
        id++;
    };
"""),
     (GH, """                particles.add(Particle(id, ParticleType::Fluid, r_3d, Eigen::Vector3d::Zero(), density));
                id++;
""", """                put(ParticleType::Fluid, r_3d);
"""),
     (GH, """                particles.add(Particle(id, ParticleType::Wall, r_3d, Eigen::Vector3d::Zero(), density));
                id++;
""", """                put(ParticleType::Wall, r_3d);
"""))
edit("gen-dam-counter",
     (GB, "    z_range = {0.0, 0.0};\n", "    z_range    = {0.0, 0.0};\n    int nextId = 0;\n"),
     (GB, """            if (type != ParticleType::Ghost) {
                Eigen::Vector3d vel = Eigen::Vector3d::Zero();
                particles.add(Particle(particles.size(), type, pos, vel, density));
            }
""", """            if (type == ParticleType::Ghost)
                continue;
            particles.add(Particle(nextId++, type, pos, Eigen::Vector3d::Zero(), density));
"""))
edit("gen-dam-inside",
     (GB, """        ((z_range.at(0) - eps < pos.z()) && (pos.z() < z_range.at(1) + eps)))
        return true;
    else
        return false;
""", """        ((z_range.at(0) - eps < pos.z()) && (pos.z() < z_range.at(1) + eps))) {
        return true;
    }
    return false;
"""))

edit("dialogue-letter-compare", (GD, 'response == "y" || response == "Y"', "response.size() == 1 && std::tolower(response[0]) == 'y'"))

edit("dialogue-lowercase",
     (GD, '''                if (!(std::cin >> response) || response == "n" || response == "N") {''',
      '''                const bool given = static_cast<bool>(std::cin >> response);
                for (char& c : response)
                    c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
                if (!given || response == "n") {'''),
     (GD, '} else if (response == "y" || response == "Y") {', '} else if (response == "y") {'))

edit("dialogue-char-switch",
     (GD, '''                if (!(std::cin >> response) || response == "n" || response == "N") {''',
      '''                char answer = 'n';
                if (std::cin >> response)
                    answer = response.size() == 1 ? response[0] : '?';
                bool yes = false, no = false;
                switch (answer) {
                    case 'y':
                    case 'Y': yes = true; break;
                    case 'n':
                    case 'N': no = true; break;
                    default: break;
                }
                if (no) {'''),
     (GD, '} else if (response == "y" || response == "Y") {', '} else if (yes) {'))

edit("search-skip-outside-layers",
     (NS, '''                for (int jz = iz - 1; jz <= iz + 1; jz++) {
''', '''                for (int jz = iz - 1; jz <= iz + 1; jz++) {
                    if (jz < 0 || jz >= bucket.numZ)
                        continue;
'''))
