From bb0b7cb06def8dba9950679eef5be6524f4aa906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:14 +0000
Subject: [PATCH 01/10] fix: restore the attribute of the second element of a
 face whatever its number

Element 0 as second element was skipped, and a face with a single
element (-1) was looked up and threw.
---
 src/evolution/HesthavenEvolutionMethods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index ce6e6b0..6b92717 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -102,7 +102,7 @@ namespace maxwell {
 	void restoreOriginalAttributesAfterSubMeshing(FaceElementTransformations* faceTrans, Mesh& m, const std::map<int, Attribute>& attMap)
 	{
 		m.SetAttribute(faceTrans->Elem1No, attMap.at(faceTrans->Elem1No));
-		if (faceTrans->Elem2No) {
+		if (faceTrans->Elem2No >= 0) {
 			m.SetAttribute(faceTrans->Elem2No, attMap.at(faceTrans->Elem2No));
 		}
 	}
-- 
2.43.0


From 7ff89e91863d4dec9e79f921df17dfbd0e109f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:54 +0000
Subject: [PATCH 02/10] fix: add the fields of all total-field sources when
 they are projected

Each source overwrote the projection of the one before, so only the
last one was injected.
---
 src/solver/SourcesManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/SourcesManager.cpp b/src/solver/SourcesManager.cpp
index 77bf290..8400126 100644
--- a/src/solver/SourcesManager.cpp
+++ b/src/solver/SourcesManager.cpp
@@ -65,7 +65,10 @@ FieldGridFuncs SourcesManager::evalTimeVarField(const Time time, FiniteElementSp
                 };
                 FunctionCoefficient func(f);
                 func.SetTime(time);
-                cached_tfsf_fields_[ft][d].ProjectCoefficient(func);
+                GridFunction gf(fes);
+                gf.UseDevice(true);
+                gf.ProjectCoefficient(func);
+                cached_tfsf_fields_[ft][d] += gf;
             }
         }
     }
-- 
2.43.0


From 1985bb699d4c07875cf5a7b171e4644cc37d0071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:08 +0000
Subject: [PATCH 03/10] fix: tag both elements of a one-point surface next to
 the end of a line

A total-field point between the first and the second element was taken
for the end of the line: the first element became total field and the
scattered-field one was not recorded.
---
 src/components/SubMesher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 29ea54e..ad45d10 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -504,11 +504,11 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsOnePoint1D(Mesh&
 			auto be_trans{ getFaceElementTransformation(m, be) };
 			std::pair<FaceId, IsTF> set_e1;
 			std::pair<FaceId, IsTF> set_e2;
-			if (be_trans->Elem1No == 0) {
+			if (be_trans->Elem1No == 0 && be_trans->Elem2No < 0) {
 				set_e1 = std::make_pair(0, true);
 				set_e2 = std::make_pair(NotFound, false);
 			}
-			else if (be_trans->Elem1No == m.GetNE() - 1) {
+			else if (be_trans->Elem1No == m.GetNE() - 1 && be_trans->Elem2No < 0) {
 				set_e1 = std::make_pair(1, true);
 				set_e2 = std::make_pair(NotFound, false);
 			}
-- 
2.43.0


From 82afaedde6018eb8f6de42aa0b42b58e3065ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:04:08 +0000
Subject: [PATCH 04/10] fix: keep the phase of far-field points aligned with
 the observation direction

---
 src/components/FarField.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 290eb3a..f92a7e8 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -8,6 +8,12 @@ namespace maxwell {
 
 using namespace mfem;
 
+// The cosine of an angle may exceed one by rounding, which acos does not accept. The origin (0/0) gives angle zero.
+static double angleFromCosine(double cosine)
+{
+	return std::acos(std::max(-1.0, std::min(1.0, cosine)));
+}
+
 const Vector buildObsPointVec(const SphericalAngles& angles) 
 {
 	const auto r{ obs_radius }; //Observation point radius distance. We consider a fairly distant enough radius.
@@ -27,13 +33,13 @@ double calcPsiAngle2D(const Vector& p, const SphericalAngles& angles)
 	surfVec[0] = p[0];
 	surfVec[1] = p[1];
 	surfVec[2] = 0.0;
-	return std::acos((vec[0] * surfVec[0] + vec[1] * surfVec[1] + vec[2] * surfVec[2])  / (vec.Norml2() * surfVec.Norml2()));
+	return angleFromCosine((vec[0] * surfVec[0] + vec[1] * surfVec[1] + vec[2] * surfVec[2])  / (vec.Norml2() * surfVec.Norml2()));
 }
 
 double calcPsiAngle3D(const Vector& p, const SphericalAngles& angles)
 {
 	auto vec{ buildObsPointVec(angles) };
-	return std::acos((vec[0] * p[0] + vec[1] * p[1] + vec[2] * p[2]) / (vec.Norml2() * p.Norml2()));
+	return angleFromCosine((vec[0] * p[0] + vec[1] * p[1] + vec[2] * p[2]) / (vec.Norml2() * p.Norml2()));
 }
 
 /* These functions represent the exponential part of e^(+j k r' cos(psi)) found in Equations 8.31 and 8.32 of Taflove's Computational Electrodynamics: The Finite-Difference Time-Domain Method. 
-- 
2.43.0


From fc3d703808fe8d1c14ac0ae68fb1bcf9bba9e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:22 +0000
Subject: [PATCH 05/10] fix: reject cases without a plane wave when normalising
 far fields

---
 src/components/FarField.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index f92a7e8..6614f9a 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -211,12 +211,14 @@ const Time getTime(const std::string& timePath)
 
 PlaneWaveData buildPlaneWaveData(const json& json, const std::string& meshDir)
 {
-	double spread(-1e5);
-	double projMean(-1e5);
+	double spread(0.0);
+	double projMean(0.0);
 	double frequency(0.0);
+	bool found(false);
 
 	for (auto s{ 0 }; s < json["sources"].size(); s++) {
 		if (json["sources"][s]["type"] == "planewave") {
+			found = true;
 			const auto& mag = json["sources"][s]["magnitude"];
 			spread = mag["spread"].get<double>();
 			mfem::Vector propagation = driver::assemble3DVector(json["sources"][s]["propagation"]);
@@ -266,7 +268,7 @@ PlaneWaveData buildPlaneWaveData(const json& json, const std::string& meshDir)
 		}
 	}
 
-	if (std::abs(spread - 1e5) < 1e-6 || std::abs(projMean - 1e5) < 1e-6) {
+	if (!found) {
 		throw std::runtime_error("Verify PlaneWaveData inputs for RCS normalization term.");
 	}
 
-- 
2.43.0


From af601b1197469403bebdd99fe0db22548a1279eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:37:44 +0000
Subject: [PATCH 06/10] fix: complete vectors of fewer than three components
 with zeros

---
 src/driver/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index c5c2323..73e3c53 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -345,7 +345,9 @@ mfem::Vector assembleCenterVector(const json& source_center)
 
 mfem::Vector assemble3DVector(const json& input)
 {
+	checkIfThrows(input.size() <= 3, "Vectors in the JSON cannot have more than three components.");
 	mfem::Vector res(3);
+	res = 0.0;
 	for (int i = 0; i < input.size(); i++) {
 		res[i] = input[i];
 	}
-- 
2.43.0


From 763da34fb1e9d794e76af50bacf74992ac54d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:37:44 +0000
Subject: [PATCH 07/10] fix: use the default times for probe saves when the
 case leaves them out

---
 src/driver/driver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 73e3c53..000af7a 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -724,8 +724,9 @@ Probes buildProbes(const json& case_data)
             int requested_saves = probe_data["saves"];
             if (requested_saves <= 0) return 1;
 
-            double t_final = case_data["solver_options"]["final_time"].get<double>();
-            double dt = case_data["solver_options"]["time_step"].get<double>();
+            const auto options = buildSolverOptions(case_data);
+            double t_final = options.final_time;
+            double dt = options.time_step;
             if (dt <= 0.0) return 1; // Placeholder; will be corrected by recalculateExportSteps
 
             int total_simulation_steps = static_cast<int>(std::ceil(t_final / dt));
-- 
2.43.0


From 6b68cd81965570b5e4557206ef54146e729defb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:37:44 +0000
Subject: [PATCH 08/10] fix: document the default polynomial order that the
 solver uses

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 1f76262..21b6152 100644
--- a/README.md
+++ b/README.md
@@ -117,7 +117,7 @@ An OpenSEMBA/dgtd JSON file must have the following structure; **bold** entries
 		- cfl:
 			- Double. Courant–Friedrichs–Lewy condition used to compute the automatic time step in 1D. Not available for 2D or 3D. Ignored if `time_step` is also defined. Must be in the range (0.0, 1.0].
 		- order:
-			- Integer. Polynomial order of the finite element basis. If undefined, defaults to `3`.
+			- Integer. Polynomial order of the finite element basis. If undefined, defaults to `2`.
 		- spectral:
 			- Boolean. Use a spectral evolution operator that assembles the full E/H system matrix and derives the time step from its eigenvalues. High computational cost; does not support all features. If undefined, defaults to `false`.
 		- export_operator:
-- 
2.43.0


From 341d2682f680d1cd9d6b88aecefa4a3ba25336f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:45:16 +0000
Subject: [PATCH 09/10] fix: inject the total field once in
 MaxwellEvolution::Mult

The field evaluated on the total field surface is already the sum over all
total field sources. The injection was repeated once per source, so a case
with N of them injected N times the incident field.
---
 src/evolution/MaxwellEvolution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 3c5b7f9..5dbcfae 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -325,6 +325,9 @@ void MaxwellEvolution::Mult(const Vector& in, Vector& out) const
 				eMap.TransferAdd(eTemp[x], eNew[x]);
 
 			}
+
+			// The evaluated field is already the sum over all total field sources.
+			break;
 		}
 	}
 }
-- 
2.43.0


From 0cacf4808eddf73b8a2d93731ee9dffd4de23ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:47:00 +0000
Subject: [PATCH 10/10] fix: read the face scale of stored linear elements only
 when estimating the time step

---
 src/evolution/HesthavenEvolution.h |  1 +
 src/solver/Solver.cpp              | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.h b/src/evolution/HesthavenEvolution.h
index fcf7d3a..064fefb 100644
--- a/src/evolution/HesthavenEvolution.h
+++ b/src/evolution/HesthavenEvolution.h
@@ -20,6 +20,7 @@ public:
 	HesthavenEvolution(mfem::ParFiniteElementSpace&, Model&, SourcesManager&, EvolutionOptions&);
 	virtual void Mult(const mfem::Vector& in, mfem::Vector& out) const;
 
+	int getNumberOfLinearElements() const { return static_cast<int>(hestElemLinearStorage_.size()); }
 	const HesthavenElement& getHesthavenElement(const ElementId& e) const { return hestElemLinearStorage_[e]; }
 
 private:
diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index 9504984..2cd2ccd 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -335,14 +335,20 @@ double estimateTimeStep(const Model& model, const SolverOptions& opts, const mfe
     if (opts.evolution.op == EvolutionOperatorType::Hesthaven && dimension == 3) {
         auto maxFscaleVal{ 0.0 };
         const auto& evol = dynamic_cast<const HesthavenEvolution*>(tdo);
-        for (auto e{ 0 }; e < serialmesh.GetNE(); e++) {
+        // Only linear elements have a stored face scale.
+        const auto linearElements{ evol->getNumberOfLinearElements() };
+        for (auto e{ 0 }; e < linearElements; e++) {
             const auto& fscaleMax{ evol->getHesthavenElement(e).fscale.maxCoeff() };
             if (fscaleMax > maxFscaleVal) {
                 maxFscaleVal = fscaleMax;
             }
         }
         const auto& order = serialfes.FEColl()->GetOrder();
-        return 1.0 * opts.cfl / (maxFscaleVal * order * order);
+        if (linearElements == 0) {
+            return base_dt;
+        }
+        const auto linear_dt{ 1.0 * opts.cfl / (maxFscaleVal * order * order) };
+        return linearElements < serialmesh.GetNE() ? std::min(base_dt, linear_dt) : linear_dt;
     }
 
     // Global-specific 3D scaling
-- 
2.43.0

