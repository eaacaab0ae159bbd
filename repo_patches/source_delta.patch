From 29521bc8ed5532dfd9c3537ba9567f569f7ce48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 1/7] fix: treat particles with a NaN position as out of domain

A NaN coordinate passed the domain test, was converted to a cell index and led to an
access outside the cell storage.
---
 src/bucket.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d616aa3..d685b49 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -37,13 +37,10 @@ void Bucket::storeParticles(Particles& particles) {
         if (p.type == ParticleType::Ghost)
             continue;
 
-        bool isInDomain = true;
-        if (p.position.x() < domain.xMin || domain.xMax < p.position.x())
-            isInDomain = false;
-        if (p.position.y() < domain.yMin || domain.yMax < p.position.y())
-            isInDomain = false;
-        if (p.position.z() < domain.zMin || domain.zMax < p.position.z())
-            isInDomain = false;
+        // A position with a NaN coordinate satisfies no comparison and therefore counts as out of domain.
+        bool isInDomain = domain.xMin <= p.position.x() && p.position.x() <= domain.xMax;
+        isInDomain      = isInDomain && domain.yMin <= p.position.y() && p.position.y() <= domain.yMax;
+        isInDomain      = isInDomain && domain.zMin <= p.position.z() && p.position.z() <= domain.zMax;
         if (!isInDomain) {
             cerr << "WARNING: particle " << p.id << " is out of domain." << endl;
             cerr << "x = " << p.position.x() << " ";
-- 
2.43.0


From e1dd2f40b3cb36f482d867e81d7edc69d7dcd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 2/7] fix: do not read the number density of a VTU file as
 density

---
 src/particles_loader/vtu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d66ab11..a69bc45 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -100,7 +100,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
 
         // Extract densities
-        if (line.find("Density") != std::string::npos) {
+        // NOTE: The exact name is required because "Number Density" is also written to VTU files.
+        if (line.find("Name=\"Density\"") != std::string::npos || line.find("Name='Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0


From a489e2cee1a0313067a02718195cbdfb4a14a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 3/7] fix: reject prof files with missing or malformed values

A truncated file was loaded as particles with undefined positions and velocities.
---
 src/particles_loader/prof.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index 74cfc74..2fdbc31 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -23,6 +23,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     int particleSize = 0;
     ifs >> startTime;
     ifs >> particleSize;
+    if (ifs.fail()) {
+        cerr << "invalid or missing header in prof file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (int i = 0; i < particleSize; i++) {
         int type_int = 0;
         ParticleType type;
@@ -31,6 +35,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
         ifs >> type_int;
         ifs >> pos.x() >> pos.y() >> pos.z();
         ifs >> vel.x() >> vel.y() >> vel.z();
+        if (ifs.fail()) {
+            cerr << "invalid or missing particle data in prof file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
 
         type = static_cast<ParticleType>(type_int);
         particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));
-- 
2.43.0


From 60ecf43089f8bcb0762e4821d20cb2f611ce836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 4/7] fix: reject csv files with missing columns or rows

Only fluidType and density are optional. Any other missing column left the value undefined, and
rows missing at the end of a truncated file went unnoticed.
---
 src/particles_loader/csv.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index d0bcb40..ccd7708 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -21,6 +21,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
     double numParticles = std::stod(in.next_line());
 
     in.read_header(io::ignore_missing_column, "type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density");
+    for (const auto& column : {"type", "x", "y", "z", "vx", "vy", "vz"}) {
+        if (!in.has_column(column)) {
+            cerr << "column " << column << " is missing in csv file: " << path << endl;
+            std::exit(-1);
+        }
+    }
     int type;
     int fluidType = 0;
     double x, y, z, vx, vy, vz;
@@ -35,6 +41,11 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
         particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));
     }
 
+    if (particles.size() != numParticles) {
+        cerr << "number of particles does not match the header of csv file: " << path << endl;
+        std::exit(-1);
+    }
+
     return std::make_pair(startTime, particles);
 }
 
-- 
2.43.0


From 8bb870b79e77b2454fbb2717f0f8db1358633f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 5/7] fix: reject incomplete VTU particle files

Missing or truncated arrays were silently replaced by zero velocities and ghost particles, and a
missing time by NaN, which made the simulation end without a single step.
---
 src/particles_loader/vtu.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index a69bc45..2902708 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -1,5 +1,6 @@
 #include "vtu.hpp"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -44,7 +45,12 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
     std::vector<double> densities;
 
     // Parse VTU file
+    bool isClosed = false;
     while (std::getline(ifs, line)) {
+        if (line.find("</VTKFile>") != std::string::npos) {
+            isClosed = true;
+        }
+
         // Extract start time
         if (line.find("Time") != std::string::npos) {
             std::getline(ifs, line);
@@ -113,8 +119,18 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
     }
 
-    // Construct particles
+    // Reject files in which required data is missing or truncated (densities and fluid types are optional)
     size_t numParticles = positions.size();
+    bool isComplete     = isClosed && !std::isnan(startTime);
+    isComplete          = isComplete && velocities.size() == numParticles && types.size() == numParticles;
+    isComplete          = isComplete && (fluidTypes.empty() || fluidTypes.size() == numParticles);
+    isComplete          = isComplete && (densities.empty() || densities.size() == numParticles);
+    if (!isComplete) {
+        cerr << "Error: VTU file is incomplete: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
+    // Construct particles
     for (size_t i = 0; i < numParticles; ++i) {
         Eigen::Vector3d pos = positions[i];
         Eigen::Vector3d vel = (i < velocities.size()) ? velocities[i] : Eigen::Vector3d(0, 0, 0);
-- 
2.43.0


From 8028935feac00c615faa6beed541cc33ce466d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 6/7] fix: cancel the overwrite dialogue at the end of the
 input

The question was repeated forever when the standard input was closed.
---
 generator/generator_src/generator_dialogue.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/generator/generator_src/generator_dialogue.cpp b/generator/generator_src/generator_dialogue.cpp
index 9752dbe..0e46912 100644
--- a/generator/generator_src/generator_dialogue.cpp
+++ b/generator/generator_src/generator_dialogue.cpp
@@ -37,8 +37,7 @@ void GeneratorDialogue::generatorDialogue(
             std::string response;
             while (true) {
                 std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
-                std::cin >> response;
-                if (response == "n" || response == "N") {
+                if (!(std::cin >> response) || response == "n" || response == "N") {
                     std::cout << "The request has been cancelled." << std::endl;
                     std::exit(0);
                 } else if (response == "y" || response == "Y") {
-- 
2.43.0


From 98f3a30760758294fc700667f10a7904ceea229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 7/7] fix: sum reference values over the whole effective radius

Lattice points more than four particle distances away were left out.
---
 src/refvalues.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/refvalues.cpp b/src/refvalues.cpp
index 281bb71..13fa987 100644
--- a/src/refvalues.cpp
+++ b/src/refvalues.cpp
@@ -9,8 +9,10 @@
 RefValues::RefValues(int dim, double particleDistance, double re) {
     assert(dim == 2 || dim == 3);
     assert(particleDistance < re);
-    int iZ_start = -4;
-    int iZ_end   = 5;
+    // The lattice has to cover the effective radius.
+    int range    = (int) std::ceil(re / particleDistance);
+    int iZ_start = -range;
+    int iZ_end   = range + 1;
     if (dim == 2) {
         iZ_start = 0;
         iZ_end   = 1;
@@ -18,8 +20,8 @@ RefValues::RefValues(int dim, double particleDistance, double re) {
 
     this->n0     = 0.0;
     this->lambda = 0.0;
-    for (int iX = -4; iX < 5; iX++) {
-        for (int iY = -4; iY < 5; iY++) {
+    for (int iX = -range; iX <= range; iX++) {
+        for (int iY = -range; iY <= range; iY++) {
             for (int iZ = iZ_start; iZ < iZ_end; iZ++) {
                 if (((iX == 0) && (iY == 0)) && (iZ == 0))
                     continue;
-- 
2.43.0

