From a93969a306832c6dd1871aa8a010ae63d94735c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:09 +0000
Subject: [PATCH 01/68] fix: make_stencil keeps fractional stencil scalings

---
 src/library/natrium/utilities/CFDSolverUtilities.cpp | 2 +-
 src/library/natrium/utilities/CFDSolverUtilities.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CFDSolverUtilities.cpp b/src/library/natrium/utilities/CFDSolverUtilities.cpp
index be1312d..0abb09c 100644
--- a/src/library/natrium/utilities/CFDSolverUtilities.cpp
+++ b/src/library/natrium/utilities/CFDSolverUtilities.cpp
@@ -297,7 +297,7 @@ std::string CFDSolverUtilities::get_integrator_name(
 } /* get_integrator_by_id */
 
 boost::shared_ptr<Stencil> CFDSolverUtilities::make_stencil(size_t d, size_t q,
-		size_t scaling) {
+		double scaling) {
 	{
 		std::stringstream msg;
 		msg << "Could not create stencil with d=" << d << ", q=" << q << ".";
diff --git a/src/library/natrium/utilities/CFDSolverUtilities.h b/src/library/natrium/utilities/CFDSolverUtilities.h
index 9b05a59..ea491f6 100644
--- a/src/library/natrium/utilities/CFDSolverUtilities.h
+++ b/src/library/natrium/utilities/CFDSolverUtilities.h
@@ -104,7 +104,7 @@ std::string get_integrator_name(
 		const DealIntegratorName& deal_integrator) ;
 
 
-boost::shared_ptr<Stencil> make_stencil(size_t d, size_t q, size_t scaling);
+boost::shared_ptr<Stencil> make_stencil(size_t d, size_t q, double scaling);
 
 
 
-- 
2.43.0


From 46327614e8fc9ce1a5806ef97aba25cdeef4e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 02/68] fix: D3Q45 and D3Q77 collide with the quartic
 equilibrium when it is configured

---
 src/library/natrium/collision_advanced/CollisionSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionSelection.h b/src/library/natrium/collision_advanced/CollisionSelection.h
index ff1ef31..e5ba008 100644
--- a/src/library/natrium/collision_advanced/CollisionSelection.h
+++ b/src/library/natrium/collision_advanced/CollisionSelection.h
@@ -196,10 +196,10 @@ inline void selectCollision<3>(SolverConfiguration& configuration,
     DEFINE_POSSIBLE_COLLISION(3,27, Stencil_D3Q27, BGK_REGULARIZED, BGK_EQUILIBRIUM, Regularized, BGKEquilibrium);
 
     DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 	DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 
     //DEFINE_POSSIBLE_COLLISION(3,27, Stencil_RD3Q27, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, IncompressibleEquilibrium);
-- 
2.43.0


From 3a3ca3ff13b004d40aed49581b8e3b508ba7e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 03/68] fix: DELLAR_RELAX_ONLY_N relaxes the moment N, not one
 component of J

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 2eb5849..285c773 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -326,7 +326,7 @@ template<> const array<double, 9> make_diag(double tau, MomentBasis basis,
 		// Dellar relax only moment 'N'
 	case DELLAR_RELAX_ONLY_N: {
 		assert(basis == DELLAR_D2Q9);
-		diag.at(8) = 1.0;
+		diag.at(6) = 1.0;
 		break;
 	} /* case DELLAR_RELAX_FULL */
 
-- 
2.43.0


From 0c990e832117f5df73fa7d663cfc84f06a2cbb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 04/68] fix: external forces act with the relaxation rates of
 d'Humieres et al.

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 285c773..2c1c465 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -385,7 +385,10 @@ template<> const array<double, 19> make_diag(double tau, MomentBasis basis,
 			double s10 = 1.4;
 			double s4 = 1.2;
 			double s16 = 1.98;
-			diag = {{0, s1, s2, 0, s4, 0, s4, 0, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
+			// the momentum is conserved for any rate, but external forces
+			// enter through its equilibrium with the rate 1/tau
+			double s3 = 1. / tau;
+			diag = {{0, s1, s2, s3, s4, s3, s4, s3, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
 			break;
 		} /* case DHUMIERES_D3Q19 */
 		default: {
-- 
2.43.0


From 0a13f715dcd1e96a75cdfaf9b105e1f90469a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 05/68] fix: the regularized collision adds the momentum of an
 external force once

---
 .../natrium/collision_advanced/CollisionSchemes.h  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/library/natrium/collision_advanced/CollisionSchemes.h b/src/library/natrium/collision_advanced/CollisionSchemes.h
index d7b0612..ec78994 100644
--- a/src/library/natrium/collision_advanced/CollisionSchemes.h
+++ b/src/library/natrium/collision_advanced/CollisionSchemes.h
@@ -187,6 +187,20 @@ public:
 
 		std::array<double, T_Q> fi1 = {{ 0.0 }};
 
+		// non-equilibrium momentum; only different from zero if an external
+		// force has shifted the equilibrium velocity
+		std::array<double, T_D> j1 = {{ 0.0 }};
+		for (int a = 0; a < T_Q; a++) {
+			for (int b = 0; b < T_D; b++) {
+				j1[b] += (fLocal[a] - genData.feq[a]) * genData.e[a][b];
+			}
+		}
+		for (int a = 0; a < T_Q; a++) {
+			for (int b = 0; b < T_D; b++) {
+				fi1[a] += genData.weight[a] / genData.cs2 * genData.e[a][b] * j1[b];
+			}
+		}
+
 		for (int a = 0; a < T_Q; a++) {
 			for (int b = 0; b < T_D; b++) {
 				for (int c = 0; c < T_D; c++) {
-- 
2.43.0


From b9531e48120c739713a33397412a6f9953c7a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 06/68] fix: refuse DELLAR_RELAX_ONLY_N for other moment bases
 in release builds too

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 2c1c465..0d62029 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -325,7 +325,10 @@ template<> const array<double, 9> make_diag(double tau, MomentBasis basis,
 
 		// Dellar relax only moment 'N'
 	case DELLAR_RELAX_ONLY_N: {
-		assert(basis == DELLAR_D2Q9);
+		if (basis != DELLAR_D2Q9) {
+			throw MRTException(
+					"MRT relaxation not defined. DELLAR_RELAX_ONLY_N is only supported for DELLAR_D2Q9 Moment basis.");
+		}
 		diag.at(6) = 1.0;
 		break;
 	} /* case DELLAR_RELAX_FULL */
-- 
2.43.0


From 2f1640dded5fd74f62a34ba38e7b79021351c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:30 +0000
Subject: [PATCH 07/68] fix: time integration with deal.II's Runge-Kutta
 schemes

DealIIWrapper::step had lost its body: it did nothing and returned an undefined
time. The schemes are now selected by name, as their numbers in deal.II differ
from those in DealIntegratorName, and every step starts from the given vector.
---
 .../natrium/timeintegration/DealIIWrapper.cpp | 60 +++++++++++++++----
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 6e831fa..da05f26 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -610,8 +610,7 @@ block_vector natrium::DealIIWrapper<sparse_block_matrix, block_vector>::evaluate
 template<class MATRIX, class VECTOR>
 double natrium::DealIIWrapper<MATRIX, VECTOR>::step(VECTOR& vector,
 		const MATRIX& systemMatrix, VECTOR& systemVector, double t,
-		double dt) { /*
-TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
+		double dt) {
 
 	if ((0.0 != dt) and dt != this->getTimeStepSize()) {
 		this->setTimeStepSize(dt);
@@ -626,15 +625,52 @@ TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
 
 	m_systemMatrix = &systemMatrix;
 	m_systemVector = &systemVector;
+	// the solution has changed since the last step (by collisions, filters):
+	// do not reuse the last stage of the last step as the first stage of this one
+	if (m_dealIIRKEmbedded) {
+		m_dealIIRKEmbedded->free_memory();
+	}
 	return m_dealIIRKStepper->evolve_one_time_step(
-			dealii::std_cxx11::bind(&DealIIWrapper<MATRIX, VECTOR>::evaluateF,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2),
-			dealii::std_cxx11::bind(
-					&DealIIWrapper<MATRIX, VECTOR>::evaluateIdMinusTauJInverse,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2,
-					dealii::std_cxx11::_3), t, dt, vector);
+			[this](const double time, const VECTOR& f) {
+				return this->evaluateF(time, f);
+			},
+			[this](const double time, const double tau, const VECTOR& f) {
+				return this->evaluateIdMinusTauJInverse(time, tau, f);
+			}, t, dt, vector);
+}
 
-					*/}
+/// the name of the scheme in deal.II (the numbering there depends on deal.II's version)
+static dealii::TimeStepping::runge_kutta_method toDealII(
+		const DealIntegratorName rkScheme) {
+	switch (rkScheme) {
+	case FORWARD_EULER:
+		return dealii::TimeStepping::FORWARD_EULER;
+	case RK_THIRD_ORDER:
+		return dealii::TimeStepping::RK_THIRD_ORDER;
+	case RK_CLASSIC_FOURTH_ORDER:
+		return dealii::TimeStepping::RK_CLASSIC_FOURTH_ORDER;
+	case BACKWARD_EULER:
+		return dealii::TimeStepping::BACKWARD_EULER;
+	case IMPLICIT_MIDPOINT:
+		return dealii::TimeStepping::IMPLICIT_MIDPOINT;
+	case CRANK_NICOLSON:
+		return dealii::TimeStepping::CRANK_NICOLSON;
+	case SDIRK_TWO_STAGES:
+		return dealii::TimeStepping::SDIRK_TWO_STAGES;
+	case HEUN_EULER:
+		return dealii::TimeStepping::HEUN_EULER;
+	case BOGACKI_SHAMPINE:
+		return dealii::TimeStepping::BOGACKI_SHAMPINE;
+	case DOPRI:
+		return dealii::TimeStepping::DOPRI;
+	case FEHLBERG:
+		return dealii::TimeStepping::FEHLBERG;
+	case CASH_KARP:
+		return dealii::TimeStepping::CASH_KARP;
+	default:
+		return dealii::TimeStepping::invalid;
+	}
+}
 
 template<class MATRIX, class VECTOR>
 natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
@@ -644,8 +680,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	m_solver = linearSolver;
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
-	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+	dealii::TimeStepping::runge_kutta_method rk = toDealII(rkScheme);
 	if (rkScheme < 3) {
 		m_dealIIRKStepper = boost::make_shared<
 				dealii::TimeStepping::ExplicitRungeKutta<VECTOR> >(rk);
@@ -669,8 +704,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	m_solver = linearSolver;
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
-	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+	dealii::TimeStepping::runge_kutta_method rk = toDealII(rkScheme);
 	m_dealIIRKEmbedded = boost::make_shared<
 			dealii::TimeStepping::EmbeddedExplicitRungeKutta<VECTOR> >(rk,
 			coarsen_param, refine_param, min_delta, max_delta, refine_tol,
-- 
2.43.0


From 96d26dc9c7ca66084ba56921d55b62775b51deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 08/68] fix: reinitVector takes over the block structure, not
 only the size

---
 .../natrium/utilities/SemiParallelMatrix.cpp  | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/utilities/SemiParallelMatrix.cpp b/src/library/natrium/utilities/SemiParallelMatrix.cpp
index 7039915..d9b3cb9 100755
--- a/src/library/natrium/utilities/SemiParallelMatrix.cpp
+++ b/src/library/natrium/utilities/SemiParallelMatrix.cpp
@@ -9,10 +9,23 @@
 
 namespace natrium {
 
+template<class BLOCKVECTOR>
+static bool sameBlocks(const BLOCKVECTOR& a, const BLOCKVECTOR& b) {
+	if (a.n_blocks() != b.n_blocks()) {
+		return false;
+	}
+	for (size_t i = 0; i < a.n_blocks(); i++) {
+		if (a.block(i).size() != b.block(i).size()) {
+			return false;
+		}
+	}
+	return true;
+}
+
 template<>
 void reinitVector<distributed_block_vector>(distributed_block_vector& dst,
 		const distributed_block_vector& src) {
-	if (dst.size() != src.size()) {
+	if (not sameBlocks(dst, src)) {
 		dst.reinit(src);
 	}
 }
@@ -33,8 +46,8 @@ void reinitVector<numeric_vector>(numeric_vector& dst,
 template<>
 void reinitVector<block_vector>(block_vector& dst,
 		const block_vector& src) {
-	if (dst.size() != src.size()) {
-		dst.reinit(src.size(), true);
+	if (not sameBlocks(dst, src)) {
+		dst.reinit(src, true);
 	}
 }
 
-- 
2.43.0


From 8a06afb3f54fd858e09db0c5ff7828a99c710caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 09/68] fix: implicit time integrators follow a change of the
 sparsity pattern

Patterns were taken to be equal when they had the same number of entries.
---
 .../natrium/timeintegration/DealIIWrapper.cpp | 20 ++-------
 .../natrium/timeintegration/ThetaMethod.cpp   | 41 ++++++-------------
 2 files changed, 16 insertions(+), 45 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index da05f26..aeadade 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -359,14 +359,8 @@ numeric_vector natrium::DealIIWrapper<sparse_matrix, numeric_vector>::evaluateId
 
 	numeric_vector result = f;
 
-	if ((m_tmpMatrix.empty()) or
-	// the next check should give true if the sparsity patterns are equal
-	// and false, else. n_nonzero_elements returns the number of entries
-	// in the sparsity pattern, not the actual number of nonzero entries
-			(m_tmpMatrix.n_nonzero_elements()
-					!= m_systemMatrix->n_nonzero_elements())) {
-		m_tmpMatrix.reinit(m_systemMatrix->get_sparsity_pattern());
-	}
+	// the system matrix may have got another sparsity pattern since the last step
+	m_tmpMatrix.reinit(m_systemMatrix->get_sparsity_pattern());
 
 	// A
 	m_tmpMatrix.copy_from(*m_systemMatrix);
@@ -532,14 +526,8 @@ block_vector natrium::DealIIWrapper<sparse_block_matrix, block_vector>::evaluate
 
 	block_vector result = f;
 
-	if ((m_tmpMatrix.empty()) or
-	// the next check should give true if the sparsity patterns are equal
-	// and false, else. n_nonzero_elements returns the number of entries
-	// in the sparsity pattern, not the actual number of nonzero entries
-			(m_tmpMatrix.n_nonzero_elements()
-					!= m_systemMatrix->n_nonzero_elements())) {
-		m_tmpMatrix.reinit(m_systemMatrix->get_sparsity_pattern());
-	}
+	// the system matrix may have got another sparsity pattern since the last step
+	m_tmpMatrix.reinit(m_systemMatrix->get_sparsity_pattern());
 
 	// A*f(t)
 	m_tmpMatrix.copy_from(*m_systemMatrix);
diff --git a/src/library/natrium/timeintegration/ThetaMethod.cpp b/src/library/natrium/timeintegration/ThetaMethod.cpp
index 21b0eef..e70e3d1 100644
--- a/src/library/natrium/timeintegration/ThetaMethod.cpp
+++ b/src/library/natrium/timeintegration/ThetaMethod.cpp
@@ -22,6 +22,7 @@
 //#endif
 
 #include "../utilities/Logging.h"
+#include "../utilities/SemiParallelMatrix.h"
 #include "../utilities/Timing.h"
 
 namespace natrium {
@@ -73,9 +74,7 @@ template<> double ThetaMethod<distributed_sparse_matrix, distributed_vector>::st
 		dt = this->getTimeStepSize();
 	}
 
-	if (m_tmpSystemVector.size() != f.size()) {
-		m_tmpSystemVector.reinit(f);
-	}
+	reinitVector(m_tmpSystemVector, f);
 	// check equality of sparsity patterns
 	// check equality of sparsity patterns
 	if (m_tmpMatrix.memory_consumption() != systemMatrix.memory_consumption()) {
@@ -129,17 +128,9 @@ template<> double ThetaMethod<sparse_matrix, numeric_vector>::step(
 		dt = this->getTimeStepSize();
 	}
 
-	if (m_tmpSystemVector.size() != f.size()) {
-		m_tmpSystemVector.reinit(f.size());
-	}
-	if ((m_tmpMatrix.empty()) or
-	// the next check should give true if the sparsity patterns are equal
-	// and false, else. n_nonzero_elements returns the number of entries
-	// in the sparsity pattern, not the actual number of nonzero entries
-			(m_tmpMatrix.n_nonzero_elements()
-					!= systemMatrix.n_nonzero_elements())) {
-		m_tmpMatrix.reinit(systemMatrix.get_sparsity_pattern());
-	}
+	reinitVector(m_tmpSystemVector, f);
+	// the system matrix may have got another sparsity pattern since the last step
+	m_tmpMatrix.reinit(systemMatrix.get_sparsity_pattern());
 
 	// dt*b
 	m_tmpSystemVector = systemVector;
@@ -189,11 +180,11 @@ template<> double ThetaMethod<distributed_sparse_block_matrix,
 		dt = this->getTimeStepSize();
 	}
 
-	if (m_tmpSystemVector.size() != f.size()) {
-		m_tmpSystemVector.reinit(f);
-	}
+	reinitVector(m_tmpSystemVector, f);
 	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption() != systemMatrix.memory_consumption()) {
+	if ((m_tmpMatrix.n_block_rows() != systemMatrix.n_block_rows())
+			or (m_tmpMatrix.memory_consumption()
+					!= systemMatrix.memory_consumption())) {
 		size_t n_blocks = systemMatrix.n_block_rows();
 		assert(systemMatrix.n_block_cols() == systemMatrix.n_block_rows());
 		m_tmpMatrix.reinit(n_blocks, n_blocks);
@@ -260,17 +251,9 @@ template<> double ThetaMethod<sparse_block_matrix, block_vector>::step(
 		dt = this->getTimeStepSize();
 	}
 
-	if (m_tmpSystemVector.size() != f.size()) {
-		m_tmpSystemVector.reinit(f.size());
-	}
-	if ((m_tmpMatrix.empty()) or
-	// the next check should give true if the sparsity patterns are equal
-	// and false, else. n_nonzero_elements returns the number of entries
-	// in the sparsity pattern, not the actual number of nonzero entries
-			(m_tmpMatrix.n_nonzero_elements()
-					!= systemMatrix.n_nonzero_elements())) {
-		m_tmpMatrix.reinit(systemMatrix.get_sparsity_pattern());
-	}
+	reinitVector(m_tmpSystemVector, f);
+	// the system matrix may have got another sparsity pattern since the last step
+	m_tmpMatrix.reinit(systemMatrix.get_sparsity_pattern());
 	// dt*b
 	m_tmpSystemVector = systemVector;
 	m_tmpSystemVector *= this->getTimeStepSize();
-- 
2.43.0


From 229f6a92bf4fe919e07afc19556885b312e669b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 10/68] fix: the exponential integrator handles steady states
 and invariant subspaces

It divided by the norm of the time derivative and inverted the Hessenberg
matrix, which is singular when the Arnoldi iteration breaks down: NaN.
---
 .../ExponentialTimeIntegrator.cpp             | 65 +++++++++++++------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
index 85fb499..c8813e0 100644
--- a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
+++ b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
@@ -89,9 +89,7 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 		m_firstColumn.reinit(arnoldiSize + 1, true);
 	}
 
-	if (m_f.size() != f.size()) {
-		reinitVector(m_f, f);
-	}
+	reinitVector(m_f, f);
 
 	m_w = f;
 	m_vj = f;
@@ -111,6 +109,9 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 	m_w += systemVector;		// w = A*f + u
 
 	double beta = m_w.l2_norm();
+	if (0.0 == beta) { // steady state
+		return t + dt;
+	}
 
 	// the next two lines set m_V(i,0) =  m_w(i) / beta
 	// in a way that takes care about the individual blocks of block vectors
@@ -311,25 +312,47 @@ template<class MATRIX, class VECTOR> void ExponentialTimeIntegrator<MATRIX,
 		VECTOR>::phiFunction(const numeric_matrix &Hm, numeric_matrix &phiOne,
 		numeric_matrix &phiTwo) // Builds phiOne and phiTwo
 		{
+	// Hm is singular, e.g., when the Arnoldi iteration found an invariant subspace;
+	// the phi functions are defined all the same:
+	// phi_1(X) = I + X/2! + X^2/3! + ...,  phi_2(X) = I/2! + X/3! + X^2/4! + ...
+	numeric_matrix X(arnoldiSize);
+	X = Hm;
+	X *= this->getTimeStepSize();
+	size_t n_doublings = 0;
+	while (X.linfty_norm() > 0.5 and n_doublings < 1000) {
+		X *= 0.5;
+		n_doublings++;
+	}
+	numeric_matrix term(arnoldiSize);
+	numeric_matrix aid(arnoldiSize);
+	term.copy_from(m_identityMatrix);
+	phiOne.copy_from(m_identityMatrix);
+	phiTwo.copy_from(m_identityMatrix);
+	phiTwo *= 0.5;
+	for (size_t n = 1; n < 16; n++) {
+		term.mmult(aid, X);
+		term = aid;
+		term /= (n + 1.0); // X^n / (n+1)!
+		phiOne.add(term, 1.0);
+		phiTwo.add(term, 1.0 / (n + 2.0));
+	}
+	// phi_1(2X) = (exp(X) + I) phi_1(X) / 2
+	// phi_2(2X) = (exp(X) phi_2(X) + phi_1(X) + phi_2(X)) / 4
 	numeric_matrix exponential(arnoldiSize);
-	numeric_matrix inverse(arnoldiSize);
-	phiOne = Hm;
-	phiOne *= this->getTimeStepSize();
-
-	exponential = padeApproximation(phiOne);
-	exponential.add(makeIdentityMatrix(), (-1));
-
-	phiOne.gauss_jordan();
-
-	inverse = phiOne;
-
-	exponential.mmult(phiOne, inverse);
-
-	phiTwo = phiOne;
-	phiTwo.add(makeIdentityMatrix(), (-1));
-
-	exponential = phiTwo;
-	exponential.mmult(phiTwo, inverse);
+	for (size_t i = 0; i < n_doublings; i++) {
+		X.mmult(exponential, phiOne);
+		exponential.add(m_identityMatrix, 1.0); // exp(X) = I + X phi_1(X)
+		exponential.mmult(aid, phiTwo);
+		aid.add(phiOne, 1.0);
+		aid.add(phiTwo, 1.0);
+		aid *= 0.25;
+		phiTwo = aid;
+		exponential.mmult(aid, phiOne);
+		aid.add(phiOne, 1.0);
+		aid *= 0.5;
+		phiOne = aid;
+		X *= 2.0;
+	}
 
 }
 
-- 
2.43.0


From 0062f217136ebfea60224c46b4de923151287a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:13 +0000
Subject: [PATCH 11/68] fix: polynomial degrees of the filters' modes in 3D

---
 src/library/natrium/smoothing/ExponentialFilter.cpp | 2 +-
 src/library/natrium/smoothing/NewFilter.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/smoothing/ExponentialFilter.cpp b/src/library/natrium/smoothing/ExponentialFilter.cpp
index b22858c..bdecf5d 100755
--- a/src/library/natrium/smoothing/ExponentialFilter.cpp
+++ b/src/library/natrium/smoothing/ExponentialFilter.cpp
@@ -124,7 +124,7 @@ inline void ExponentialFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p + 1) * (p + 1) * (p + 1); i++) {
 		size_t ix = i / ((p + 1) * (p + 1));
 		size_t max = ix;
-		size_t iy = ( i % (p+1) * (p+1) ) / (p + 1);
+		size_t iy = (i % ((p + 1) * (p + 1))) / (p + 1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p + 1);
diff --git a/src/library/natrium/smoothing/NewFilter.cpp b/src/library/natrium/smoothing/NewFilter.cpp
index 848c5db..8994549 100755
--- a/src/library/natrium/smoothing/NewFilter.cpp
+++ b/src/library/natrium/smoothing/NewFilter.cpp
@@ -124,7 +124,7 @@ inline void NewFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p+1)*(p+1)*(p+1); i++) {
 		size_t ix = i / ((p+1) * (p+1));
 		size_t max = ix;
-		size_t iy = i / (p+1);
+		size_t iy = (i % ((p + 1) * (p + 1))) / (p + 1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p+1);
-- 
2.43.0


From 67feb6d28e03792094aae1572866fde183879d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:14 +0000
Subject: [PATCH 12/68] fix: declare the parameters of the configuration that
 is read from an XML file

---
 src/library/natrium/solver/SolverConfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index 8ad2100..18b6a0b 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -294,8 +294,8 @@ SolverConfiguration::SolverConfiguration() {
 
 }
 
-SolverConfiguration::SolverConfiguration(const std::string& XMLfilename) {
-	SolverConfiguration();
+SolverConfiguration::SolverConfiguration(const std::string& XMLfilename) :
+		SolverConfiguration() {
 	readFromXMLFile(XMLfilename);
 }
 
-- 
2.43.0


From 32a6418f69a371ccd5274410ebecf3cd088f3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:14 +0000
Subject: [PATCH 13/68] fix: keep the wall normal coordinates exactly; accept
 an empty list

---
 src/library/natrium/solver/SolverConfiguration.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.h b/src/library/natrium/solver/SolverConfiguration.h
index e081acb..5a5e8c1 100644
--- a/src/library/natrium/solver/SolverConfiguration.h
+++ b/src/library/natrium/solver/SolverConfiguration.h
@@ -2480,7 +2480,9 @@ public:
 		std::stringstream s;
 		try {
 			size_t n = wall_normal_coordinates.size();
-			for (size_t i = 0; i < n - 1; i++) {
+			// enough digits to get the same coordinates back
+			s.precision(17);
+			for (size_t i = 0; i + 1 < n; i++) {
 				s << wall_normal_coordinates.at(i) << ",";
 			}
 			if (n != 0) {
-- 
2.43.0


From 66f5b68d7ecb307a30e870deb9b2d4c46212b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:14 +0000
Subject: [PATCH 14/68] fix: refuse illegal parameters of the embedded
 integrators without side effects

---
 .../natrium/solver/SolverConfiguration.h      | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.h b/src/library/natrium/solver/SolverConfiguration.h
index 5a5e8c1..3f9f90c 100644
--- a/src/library/natrium/solver/SolverConfiguration.h
+++ b/src/library/natrium/solver/SolverConfiguration.h
@@ -1978,12 +1978,31 @@ public:
 		enter_subsection("Advection");
 		enter_subsection("Embedded Parameters");
 
-		set("Coarsen parameter", coarsen_param);
-		set("Refinement parameter", refine_param);
-		set("Minimum CFL", min_delta);
-		set("Maximum CFL", max_delta);
-		set("Refinement tolerance", refine_tol);
-		set("Coarsen tolerance", coarsen_tol);
+		const char* names[] = { "Coarsen parameter", "Refinement parameter",
+				"Minimum CFL", "Maximum CFL", "Refinement tolerance",
+				"Coarsen tolerance" };
+		const double values[] = { coarsen_param, refine_param, min_delta,
+				max_delta, refine_tol, coarsen_tol };
+		// either all parameters are set or none
+		std::string old_values[6];
+		size_t i = 0;
+		try {
+			for (; i < 6; i++) {
+				old_values[i] = get(names[i]);
+				set(names[i], values[i]);
+			}
+		} catch (std::exception& e) {
+			std::stringstream msg;
+			msg << "Could not assign value " << values[i] << " to "
+					<< names[i] << ": " << e.what();
+			while (i > 0) {
+				i--;
+				set(names[i], old_values[i]);
+			}
+			leave_subsection();
+			leave_subsection();
+			throw ConfigurationException(msg.str());
+		}
 
 		leave_subsection();
 		leave_subsection();
-- 
2.43.0


From 836f1faad3dcac1f2a205eb765df3f70d2547dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:07 +0000
Subject: [PATCH 15/68] fix: arguments with default values wrote to a variable
 that no longer exists

---
 src/library/natrium/utilities/CommandLineParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index e01cc0d..2afa8de 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -567,9 +567,8 @@ void CommandLineParser::setArgument(std::string name, std::string description,
 		type default_value) {
 	assert_clean();
 	try {
-		type opt;
 		m_description.add_options()(name.c_str(),
-				po::value<type>(&opt)->default_value(default_value),
+				po::value<type>()->default_value(default_value),
 				description.c_str());
 	} catch (po::error& e) {
 		std::stringstream msg;
-- 
2.43.0


From 88ec02c17cc775885776ed8ad7a9bdaa5e964fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:07 +0000
Subject: [PATCH 16/68] fix: refuse illegal values of --mrt-relax

---
 src/library/natrium/utilities/CommandLineParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 2afa8de..3b0a91e 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -486,7 +486,7 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 			cfg.setMRTRelaxationTimes(RELAX_FULL);
 		} else if ("dellar-only-N" == relax) {
 			cfg.setMRTRelaxationTimes(DELLAR_RELAX_ONLY_N);
-		} else if ("dhumieres-paper") {
+		} else if ("dhumieres-paper" == relax) {
 			cfg.setMRTRelaxationTimes(RELAX_DHUMIERES_PAPER);
 		} else {
 			std::stringstream msg;
-- 
2.43.0


From c08b67ca2d0c22c425b71500f1506ab060611f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:07 +0000
Subject: [PATCH 17/68] fix: --order-fe must not change the order that
 --standard-lbm-with asks for

---
 src/library/natrium/utilities/CommandLineParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 3b0a91e..92814ed 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -97,9 +97,11 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 			throw CommandLineParserException(
 					"Conflicting arguments: standard-lbm and cfl");
 		}
-		if (hasArgument("order-fe") and (getArgument<int>("order-fe") != 2)) {
+		if (hasArgument("order-fe")
+				and (getArgument<int>("order-fe")
+						!= getArgument<int>("standard-lbm-with"))) {
 			throw CommandLineParserException(
-					"Conflicting arguments: standard-lbm and order-fe != 2");
+					"Conflicting arguments: standard-lbm-with and a different order-fe");
 		}
 		if (hasArgument("streaming")
 				and (getArgument<string>("streaming") != "sl")) {
-- 
2.43.0


From 2a20dca052cd90d8a035b4a2256d4980e61cb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:07 +0000
Subject: [PATCH 18/68] fix: refuse illegal values of --integrator-id

---
 src/library/natrium/utilities/CommandLineParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 92814ed..20140e9 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -271,6 +271,10 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 		TimeIntegratorName t;
 		DealIntegratorName d;
 		string s;
+		if ((id < 1) or (id > 15)) {
+			throw CommandLineParserException(
+					"--integrator-id had illegal value (allowed values: 1 to 15, see --help)");
+		}
 		CFDSolverUtilities::get_integrator_by_id(id, t, d, s);
 		cfg.setTimeIntegrator(t);
 		cfg.setDealIntegrator(d);
-- 
2.43.0


From bb5019b74c450fb146fb70ee8b15c4fd38fca8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:07 +0000
Subject: [PATCH 19/68] fix: help message of --standard-lbm names the CFL
 number that is used

---
 src/library/natrium/utilities/CommandLineParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 20140e9..77ca899 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -17,7 +17,7 @@ CommandLineParser::CommandLineParser(int argc, char** argv) :
 
 	// define standard arguments that can be used in all scripts to change the solver configuration
 	setFlag("standard-lbm",
-			"sets the order to 2 and cfl to 4*sqrt(2), giving standard lbm on regular grids");
+			"sets the order to 2 and cfl to 2*sqrt(2), giving standard lbm on regular grids");
 	setArgument<int>("standard-lbm-with",
 			"as standard-lbm, but with n-th order calculation of derivatives.");
 	setArgument<int>("order-fe", "order of finite elements");
-- 
2.43.0


From c52eab99cc2396faad9b19ab59b1fcf59a10793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 20/68] fix: velocities of restarted simulations are calculated
 from the loaded populations

---
 src/library/natrium/solver/CFDSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 6965ea1..d808746 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1514,7 +1514,7 @@ void CFDSolver<dim>::calculateDensitiesAndVelocities() {
 		size_t i = *it;
 		double one_by_rho_i = 1.0 / writeable_rho(i);
 		for (size_t j = 0; j < dim; j++) {
-			writeable_u[j](i) = m_velocity[j](i) * one_by_rho_i;
+			writeable_u[j](i) = writeable_u[j](i) * one_by_rho_i;
 		}
 	}
 
-- 
2.43.0


From ce897bcf2105685b5a054f4d1a04f1b5a879b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 21/68] fix: do not relax the populations of a checkpoint a
 second time

---
 src/library/natrium/solver/CFDSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index d808746..68b8749 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -876,7 +876,10 @@ void CFDSolver<dim>::filter() {
 template<size_t dim>
 void CFDSolver<dim>::run() {
 	m_i = m_iterationStart;
-	collide();
+	// the populations of a checkpoint have already been relaxed
+	if (0 == m_iterationStart) {
+		collide();
+	}
 	while (true) {
 		if (stopConditionMet()) {
 			break;
-- 
2.43.0


From 1e498d2f41af2e5fb4adfbe0e140a974c70aac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 22/68] fix: store time and scaling of checkpoints with all
 digits

---
 src/library/natrium/solver/Checkpoint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 8d26035..1ba36d2 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -79,6 +79,8 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 	// write status
 	if (is_MPI_rank_0()) {
 		std::ofstream outfile(m_statusFile.string());
+		// enough digits to resume at the same time with the same scaling
+		outfile.precision(17);
 		outfile << status.iterationNumber << endl;
 		// time
 		outfile << status.time << endl;
-- 
2.43.0


From d884cc9a777ab33c05535cc472bd99081f9c1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 23/68] fix: a checkpoint becomes visible only after it has
 been written completely

---
 src/library/natrium/solver/Checkpoint.cpp | 37 +++++++++++++++--------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 1ba36d2..9de2e76 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -76,19 +76,11 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 		const CheckpointStatus& status) {
 
 	f.updateGhosted();
-	// write status
+	// invalidate an older checkpoint of the same name
 	if (is_MPI_rank_0()) {
-		std::ofstream outfile(m_statusFile.string());
-		// enough digits to resume at the same time with the same scaling
-		outfile.precision(17);
-		outfile << status.iterationNumber << endl;
-		// time
-		outfile << status.time << endl;
-		// stencil scaling
-		outfile << status.stencilScaling << endl;
-		outfile << status.feOrder << endl;
-		outfile.close();
-	} /*if rank 0*/
+		boost::filesystem::remove(m_statusFile);
+	}
+	MPI_sync();
 
 	// write mesh and solution
 	dealii::parallel::distributed::SolutionTransfer<dim, distributed_vector> sol_trans(
@@ -108,6 +100,27 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 				"An error occurred while saving the mesh and distribution functions to checkpoint file."
 						"That's bad news. Make sure that you have writing permissions and that the disk quota is not exceeded.");
 	}
+	// write status; a checkpoint exists as soon as its status file exists.
+	// The file must not be visible before it and the data are complete.
+	MPI_sync();
+	if (is_MPI_rank_0()) {
+		boost::filesystem::path tmp_file(m_statusFile.string() + ".tmp");
+		std::ofstream outfile(tmp_file.string());
+		// enough digits to resume at the same time with the same scaling
+		outfile.precision(17);
+		outfile << status.iterationNumber << endl;
+		// time
+		outfile << status.time << endl;
+		// stencil scaling
+		outfile << status.stencilScaling << endl;
+		outfile << status.feOrder << endl;
+		outfile.close();
+		if (not outfile) {
+			natrium_errorexit(
+					"An error occurred while writing the status file of a checkpoint.");
+		}
+		boost::filesystem::rename(tmp_file, m_statusFile);
+	} /*if rank 0*/
 } /* save */
 
 template<size_t dim>
-- 
2.43.0


From 88fdc85b80ec89c40d893dfa19290f88216c4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 24/68] fix: the checkpoint of iteration 1 was written over the
 most recent checkpoint

---
 src/library/natrium/solver/CFDSolver.cpp      |  3 +
 src/library/natrium/solver/Checkpoint.cpp     | 60 ++++++++++---------
 src/library/natrium/solver/Checkpoint.h       |  6 ++
 .../natrium/solver/CompressibleCFDSolver.h    |  3 +
 4 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 68b8749..3f71e21 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -181,6 +181,9 @@ CFDSolver<dim>::CFDSolver(boost::shared_ptr<SolverConfiguration> configuration,
 	boost::shared_ptr<Checkpoint<dim> > checkpoint;
 	CheckpointStatus checkpoint_status;
 	size_t restart_i = m_configuration->getRestartAtIteration();
+	if (1 == restart_i) {
+		restart_i = Checkpoint<dim>::findMostRecent(checkpoint_dir);
+	}
 	if (0 != restart_i) {
 		checkpoint = boost::make_shared<Checkpoint<dim> >(restart_i,
 				checkpoint_dir);
diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 9de2e76..567e19c 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -24,37 +24,43 @@
 
 namespace natrium {
 
+template<size_t dim>
+size_t Checkpoint<dim>::findMostRecent(boost::filesystem::path checkpoint_dir,
+		bool isG) {
+	size_t it = 1;
+	if (not boost::filesystem::is_directory(checkpoint_dir)) {
+		return it;
+	}
+	const std::string prefix = isG ? "checkpointG_" : "checkpoint_";
+	for (auto& entry : boost::make_iterator_range(
+			boost::filesystem::directory_iterator(checkpoint_dir), { })) {
+		if (entry.path().extension().string() != ".stat") {
+			continue;
+		}
+		const std::string name = entry.path().stem().string();
+		if (name.compare(0, prefix.size(), prefix) != 0) {
+			continue;
+		}
+		const std::string number = name.substr(prefix.size());
+		if (number.empty()
+				or number.find_first_not_of("0123456789")
+						!= std::string::npos) {
+			continue;
+		}
+		const size_t i = std::stoul(number);
+		if (i > it) {
+			it = i;
+		}
+	}
+	LOG(BASIC) << "Reading checkpoint " << it << " automatically." << endl;
+	return it;
+}
+
 template<size_t dim>
 Checkpoint<dim>::Checkpoint(size_t iteration,
 		boost::filesystem::path checkpoint_dir, bool isG) {
     m_isG = isG;
-	size_t it = iteration;
-
-	if (iteration == 1) {
-		// find most recent checkpoint automatically
-		for (auto& entry : boost::make_iterator_range(
-				boost::filesystem::directory_iterator(checkpoint_dir), { })) {
-			std::string this_filename = entry.path().filename().string();
-			if (boost::filesystem::extension(this_filename)
-					!= ".stat") {
-				continue;
-			}
-			if (!isG){
-			boost::replace_all(this_filename, "checkpoint_", "");
-			boost::replace_all(this_filename, ".stat", "");
-            }
-			if (isG)
-            {
-            boost::replace_all(this_filename, "checkpointG_", "");
-            boost::replace_all(this_filename, ".stat", "");
-            }
-			size_t i = std::stoi(this_filename);
-			if (i > it){
-				it = i;
-			}
-		}
-	}
-	LOG(BASIC) << "Reading checkpoint " << it << " auomatically." <<  endl;
+	const size_t it = iteration;
 	std::stringstream status_name;
 	std::stringstream data_name;
     if (!isG) {
diff --git a/src/library/natrium/solver/Checkpoint.h b/src/library/natrium/solver/Checkpoint.h
index 7d2bf23..0775243 100755
--- a/src/library/natrium/solver/Checkpoint.h
+++ b/src/library/natrium/solver/Checkpoint.h
@@ -77,6 +77,12 @@ public:
 	 */
 	Checkpoint(size_t iteration, boost::filesystem::path checkpoint_dir, bool isG=false);
 
+	/**
+	 * @short Find the checkpoint with the highest iteration number in a directory.
+	 * @return the iteration number; 1, if there is no checkpoint with a higher number
+	 */
+	static size_t findMostRecent(boost::filesystem::path checkpoint_dir, bool isG=false);
+
 	/**
 	 * @short Function that determines whether the checkpoint files exist.
 	 * @return boolean
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index f21f94f..2b5bc53 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -110,6 +110,9 @@ public:
         boost::shared_ptr<Checkpoint<dim> > checkpoint;
         CheckpointStatus checkpoint_status;
         size_t restart_i = this->m_configuration->getRestartAtIteration();
+        if (1 == restart_i) {
+            restart_i = Checkpoint<dim>::findMostRecent(checkpoint_dir, true);
+        }
         if (0 != restart_i) {
             checkpoint = boost::make_shared<Checkpoint<dim> >(restart_i,
                     checkpoint_dir, true);
-- 
2.43.0


From c4a02564e2ff18772f26f4da09e7ae6c3c2adcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 25/68] fix: restarting with another stencil scaling keeps
 density, velocity and stresses; restart with stencils that make_stencil does
 not know

---
 src/library/natrium/solver/Checkpoint.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 567e19c..ec098e3 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -336,13 +336,23 @@ void Checkpoint<dim>::load(DistributionFunctions& f,
 
 	}
 
-	// TODO Enable transfer to new scaling
-	LOG(DETAILED) << "Transfer to new scaling (not implemented)" << endl;
 	// transfer to current stencil scaling, if required
-	boost::shared_ptr<Stencil> old_stencil = CFDSolverUtilities::make_stencil(
-			new_stencil->getD(), new_stencil->getQ(), status.stencilScaling);
-	//f.transferFromOtherScaling(*old_stencil, *new_stencil,
-    //dof_handler.locally_owned_dofs());
+	if (fabs(status.stencilScaling - new_stencil->getScaling())
+			> 1e-12 * new_stencil->getScaling()) {
+		LOG(DETAILED) << "Transfer to new scaling" << endl;
+		const StencilType type = new_stencil->getStencilType();
+		// the other stencils do not have a moment basis
+		if ((type != Stencil_D2Q9) and (type != Stencil_D3Q15)
+				and (type != Stencil_D3Q19) and (type != Stencil_D3Q27)) {
+			throw CheckpointException(
+					"Restarting with another scaling is not implemented for this stencil, yet.");
+		}
+		boost::shared_ptr<Stencil> old_stencil =
+				CFDSolverUtilities::make_stencil(new_stencil->getD(),
+						new_stencil->getQ(), status.stencilScaling);
+		f.transferFromOtherScaling(*old_stencil, *new_stencil,
+				dof_handler.locally_owned_dofs());
+	}
 	f.compress(dealii::VectorOperation::insert);
     f.updateGhosted();
 	LOG(DETAILED) << "Restart successful" << endl;
-- 
2.43.0


From 5da1423dcb1c5605df4db9c72be33f6dc92b2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:21 +0000
Subject: [PATCH 26/68] fix: benchmark solvers write the final output

---
 src/library/natrium/solver/BenchmarkCFDSolver.cpp             | 4 ++--
 src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/solver/BenchmarkCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCFDSolver.cpp
index b4a5c97..dcb0348 100644
--- a/src/library/natrium/solver/BenchmarkCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCFDSolver.cpp
@@ -43,8 +43,8 @@ template<size_t dim> BenchmarkCFDSolver<dim>::BenchmarkCFDSolver(
 } /*BenchmarkCFDSolver constructor */
 
 template<size_t dim>
-void BenchmarkCFDSolver<dim>::output(size_t iteration, bool ) {
-	CFDSolver<dim>::output(iteration);
+void BenchmarkCFDSolver<dim>::output(size_t iteration, bool is_final) {
+	CFDSolver<dim>::output(iteration, is_final);
 	// output error table
 	if (not this->getConfiguration()->isSwitchOutputOff()) {
 		if (this->getIteration()
diff --git a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
index e989a13..dbbe02c 100644
--- a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
@@ -40,8 +40,8 @@ namespace natrium {
     } /*BenchmarkCFDSolver constructor */
 
     template<size_t dim>
-    void BenchmarkCompressibleCFDSolver<dim>::output(size_t iteration, bool ) {
-        CompressibleCFDSolver<dim>::output(iteration);
+    void BenchmarkCompressibleCFDSolver<dim>::output(size_t iteration, bool is_final) {
+        CompressibleCFDSolver<dim>::output(iteration, is_final);
         // output error table
         if (not this->getConfiguration()->isSwitchOutputOff()) {
             if (this->getIteration()
-- 
2.43.0


From 9308e05555de401812ea6c906e631b4d010534db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:21 +0000
Subject: [PATCH 27/68] fix: the compressible solver does not write checkpoints
 when output is switched off

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 2b5bc53..1d03fbb 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -554,7 +554,8 @@ void compressibleFilter() {
         }
         // output: checkpoint
         // no output if checkpoint interval > 10^8
-        if (((iteration % this->m_configuration->getOutputCheckpointInterval() == 0)
+        if ((not this->m_configuration->isSwitchOutputOff()) and
+            ((iteration % this->m_configuration->getOutputCheckpointInterval() == 0)
              or is_final)
             and (this->m_configuration->getOutputCheckpointInterval() <= 1e8) and (this->m_iterationStart != this->m_i)) {
 
-- 
2.43.0


From 4276f75c681bb8a2fbee007e8359478cce61cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 28/68] fix: the face search without mapping mistook a face on
 which a path starts for one it crosses

---
 src/library/natrium/advection/SemiLagrangian.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 9be474a..b6ae784 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -727,12 +727,17 @@ int SemiLagrangian<dim>::faceCrossedFirstWithoutMapping(
 		// inserting (1) into (2) gives
 		// => lambda = (p_inside - p) * n / (p_inside - p_outside) * n
 
-		lam = ((p_inside - p) * n) / ((p_inside - p_outside) * n);
-		//cout << i << lam << endl;
-		if (lam < 0) {
+		// only faces towards which the path leads can be crossed
+		// (the path may start on a face without crossing it)
+		if ((p - ci->center()) * n < 0) {
+			n *= -1;
+		}
+		if ((p_outside - p_inside) * n <= 0) {
 			// wrong direction
 			continue;
 		}
+		lam = std::max(0.0,
+				((p_inside - p) * n) / ((p_inside - p_outside) * n));
 		if (lam < lambda_min) {
 			lambda_min = lam;
 			index_min = i;
-- 
2.43.0


From 8a27f302668cef1daaebaf6af13d6e00789eab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 29/68] fix: assembling the semi-Lagrangian operator again
 starts from scratch

---
 src/library/natrium/advection/SemiLagrangian.cpp             | 4 ++++
 src/library/natrium/advection/SemiLagrangian.h               | 1 +
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.h       | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index b6ae784..498395f 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -81,6 +81,10 @@ void SemiLagrangian<dim>::reassemble() {
 	assert(Base::m_systemMatrix.n() != 0);
 	assert(Base::m_systemMatrix.m() != 0);
 
+	// start from scratch
+	Base::m_systemMatrix = 0;
+	m_boundaryHandler.clear();
+
 	fillSparseObject(false); // "false" says that you want to fill the system matrix, not the sparsity pattern
 
 	Base::m_systemMatrix.compress(dealii::VectorOperation::add);
diff --git a/src/library/natrium/advection/SemiLagrangian.h b/src/library/natrium/advection/SemiLagrangian.h
index 09aa337..5b5be6b 100755
--- a/src/library/natrium/advection/SemiLagrangian.h
+++ b/src/library/natrium/advection/SemiLagrangian.h
@@ -175,6 +175,7 @@ public:
 	virtual void setDeltaT(double deltaT) {
 		Base::setDeltaT(deltaT);
 		m_boundaryHandler.setTimeStep(deltaT);
+		m_boundaryHandler.clear();
 		updateSparsityPattern();
 	}
 
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
index d88ce1c..bb19fe4 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
@@ -99,6 +99,11 @@ public:
 		m_timeStep = timeStep;
 	}
 
+	/// forget all hits (before a new assembly)
+	void clear() {
+		m_hitList.clear();
+	}
+
 	size_t n_hits() const {
 		return m_hitList.n_hits();
 	}
-- 
2.43.0


From f0d4e57ba7dbe1fbb201572c6eceb9b4ab603de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 30/68] fix: assembling the discontinuous Galerkin operator
 again starts from scratch

---
 src/library/natrium/advection/SEDGMinLee.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 5d38864..6cd6972 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -96,6 +96,9 @@ void SEDGMinLee<dim>::reassemble() {
 	distributed_sparse_block_matrix& system_matrix = Base::m_systemMatrix;
 	assert(system_matrix.n() != 0);
 	assert(system_matrix.m() != 0);
+// start from scratch
+	system_matrix = 0;
+	m_systemVector = 0;
 /////////////////////////////////
 // Initialize Finite Element ////
 /////////////////////////////////
-- 
2.43.0


From 70008f1ed4602c9e60f6e980b74e51a116730e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 31/68] fix: sign of the neighbor's contribution to the central
 flux

---
 src/library/natrium/advection/SEDGMinLee.cpp             | 2 +-
 src/library/natrium/boundaries/VelocityNeqBounceBack.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 6cd6972..b5dd629 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -517,7 +517,7 @@ void SEDGMinLee<dim>::assembleAndDistributeInternalFace(size_t alpha,
 
 		if (m_useCentralFlux) {
 			cell_entry = 0.5 * prefactor;
-			neighbor_entry = 0.5 * prefactor;
+			neighbor_entry = -0.5 * prefactor;
 
 		} else if (exn < 0) { // otherwise: no contributions
 			cell_entry = prefactor;
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 07174ae..4c03143 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -98,7 +98,7 @@ template<size_t dim> void VelocityNeqBounceBack<dim>::assembleBoundary(
 
 		if (useCentralFlux) {
 			cellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
-			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
+			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = -0.5 * prefactor;
 			cellFaceVector(thisDoF) = -prefactor * stencil.getWeight(alpha)
 					* density * exu / stencil.getSpeedOfSoundSquare();
 		} else if (exn < 0) {
-- 
2.43.0


From bb43892132d5b7908bf4d0028662cf911ba362bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 32/68] fix: the short constructor of SEDGMinLee took the time
 step for the choice of the flux

---
 src/library/natrium/advection/SEDGMinLee.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index b5dd629..ac03661 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -61,7 +61,7 @@ SEDGMinLee<dim>::SEDGMinLee(ProblemDescription<dim>& problem,
 		size_t orderOfFiniteElement, boost::shared_ptr<Stencil> stencil,
 		double delta_t) :
 		SEDGMinLee(problem, orderOfFiniteElement, QGAUSS_LOBATTO,
-				GAUSS_LOBATTO_POINTS, stencil, delta_t, false) {
+				GAUSS_LOBATTO_POINTS, stencil, false, delta_t) {
 
 }
 
-- 
2.43.0


From e2b26bc032dde635321c26a00ca43f538ad67366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 33/68] fix: a boundary collection refuses boundary ids that
 are taken, and stays as it was

---
 .../problemdescription/BoundaryCollection.h   | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/library/natrium/problemdescription/BoundaryCollection.h b/src/library/natrium/problemdescription/BoundaryCollection.h
index c40c90c..698eb65 100644
--- a/src/library/natrium/problemdescription/BoundaryCollection.h
+++ b/src/library/natrium/problemdescription/BoundaryCollection.h
@@ -74,18 +74,15 @@ public:
 	 */
 	void addBoundary(boost::shared_ptr<PeriodicBoundary<dim> > boundary) {
 		assert (boundary->isPeriodic());
-			bool success1 =
-					m_boundaries.insert(
-							std::make_pair(boundary->getBoundaryIndicator1(),
-									boundary)).second;
-			bool success2 =
-					m_boundaries.insert(
-							std::make_pair(boundary->getBoundaryIndicator2(),
-									boundary)).second;
-			if ((not success1) or (not success2)) {
+			if (hasID(boundary->getBoundaryIndicator1())
+					or hasID(boundary->getBoundaryIndicator2())) {
 				throw BoundaryCollectionException(
 						"Boundary could not be inserted. Boundary indicators must be unique.");
 			}
+			m_boundaries.insert(
+					std::make_pair(boundary->getBoundaryIndicator1(), boundary));
+			m_boundaries.insert(
+					std::make_pair(boundary->getBoundaryIndicator2(), boundary));
 			m_periodicBoundaries.insert(
 					std::make_pair(boundary->getBoundaryIndicator1(), boundary));
 			m_periodicBoundaries.insert(
@@ -96,7 +93,12 @@ public:
 
 	void addBoundary(boost::shared_ptr<Boundary<dim> > boundary) {
 		assert (not boundary->isPeriodic()) ;
-		m_boundaries.insert(std::make_pair(boundary->getBoundaryIndicator(), boundary));
+		bool success = m_boundaries.insert(
+				std::make_pair(boundary->getBoundaryIndicator(), boundary)).second;
+		if (not success) {
+			throw BoundaryCollectionException(
+					"Boundary could not be inserted. Boundary indicators must be unique.");
+		}
 	}
 
 	/**
-- 
2.43.0


From 7f47d47638c500b96e86822b91f16e7a2c0c916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 34/68] fix: periodic boundaries: single cells between the two
 sides, any boundary ids, refusal of repeated or differently refined sides

---
 src/library/natrium/advection/SEDGMinLee.cpp  |  2 +-
 .../natrium/advection/SemiLagrangian.cpp      |  8 ++---
 .../natrium/boundaries/PeriodicBoundary.cpp   | 33 +++++++++----------
 .../natrium/boundaries/PeriodicBoundary.h     |  8 +++--
 .../natrium/utilities/DealiiExtensions.cpp    |  8 ++---
 5 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index ac03661..8419918 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -381,7 +381,7 @@ void SEDGMinLee<dim>::assembleAndDistributeLocalFaceMatrices(size_t alpha,
 				typename dealii::DoFHandler<dim>::cell_iterator neighborCell;
 				size_t opposite_face =
 						periodicBoundary->getOppositeCellAtPeriodicBoundary(
-								cell, neighborCell);
+								cell, neighborCell, j);
 				assembleAndDistributeInternalFace(alpha, cell, j, neighborCell,
 						opposite_face, fe_face_values, fe_subface_values,
 						fe_neighbor_face_values, inverse_local_mass_matrix);
diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 498395f..c7a0c5f 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -346,14 +346,14 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 										el.currentCell, face_id));
 						el.currentPoint =
 								periodicBoundary->coordinatesAcrossPeriodicBoundary(
-										p_boundary, el.currentCell);
+										p_boundary, el.currentCell, face_id);
 						el.departurePoint =
 								periodicBoundary->coordinatesAcrossPeriodicBoundary(
-										el.departurePoint, el.currentCell);
+										el.departurePoint, el.currentCell, face_id);
 						const typename dealii::DoFHandler<dim>::active_cell_iterator h =
 								el.currentCell;
 						periodicBoundary->getOppositeCellAtPeriodicBoundary(h,
-								el.currentCell);
+								el.currentCell, face_id);
 
 					} else /* if is not periodic */{
 						// ================================================================================================
@@ -779,7 +779,7 @@ typename dealii::DoFHandler<dim>::cell_iterator SemiLagrangian<dim>::getNeighbor
 			assert(periodicBoundary->isFaceInBoundary(cell, i));
 			typename dealii::DoFHandler<dim>::cell_iterator neighborCell;
 			periodicBoundary->getOppositeCellAtPeriodicBoundary(cell,
-					neighborCell);
+					neighborCell, i);
 			return neighborCell;
 		} else {
 			return cell->get_dof_handler().end();
diff --git a/src/library/natrium/boundaries/PeriodicBoundary.cpp b/src/library/natrium/boundaries/PeriodicBoundary.cpp
index b4bd44e..9282836 100644
--- a/src/library/natrium/boundaries/PeriodicBoundary.cpp
+++ b/src/library/natrium/boundaries/PeriodicBoundary.cpp
@@ -57,24 +57,15 @@ template<size_t dim> PeriodicBoundary<dim>::PeriodicBoundary(
 		throw PeriodicBoundaryNotPossible(
 				"Cell at periodic boundary had neighbor. That is not allowed.");
 	}
-	// check if the boundary has already been created by setting user flags.
-	// Somehow, this test does not work properly. The code crashes without
-	// an error message in case you try to create a single Periodic Boundary
-	// twice. I could not figure out why this does not work, but it should not
-	// be so much of a problem, because normally the boundary collection will
-	// already throw an error if you try to assign a boundary indicator to two
-	// different objects in the boundary collection.
+	// check if the boundary has already been created
 	for (size_t i = 0; i < matched_pairs.size(); i++) {
-		size_t face_nr_1 = matched_pairs.at(i).face_idx[0];
-		size_t face_nr_2 = matched_pairs.at(i).face_idx[1];
-		if ((matched_pairs.at(i).cell[0]->face(face_nr_1)->user_flag_set())
-				or (matched_pairs.at(i).cell[1]->face(face_nr_2)->user_flag_set())) {
+		if (matched_pairs.at(i).cell[0]->has_periodic_neighbor(
+				matched_pairs.at(i).face_idx[0])
+				or matched_pairs.at(i).cell[1]->has_periodic_neighbor(
+						matched_pairs.at(i).face_idx[1])) {
 			throw PeriodicBoundaryNotPossible(
 					"You're trying to create a PeriodicBoundary, where another one "
 							"has already been created. That does not work.");
-		} else {
-			matched_pairs.at(i).cell[0]->face(face_nr_1)->set_user_flag();
-			matched_pairs.at(i).cell[1]->face(face_nr_2)->set_user_flag();
 		}
 	}
 
@@ -149,7 +140,8 @@ template<size_t dim> void PeriodicBoundary<dim>::checkCellMap() {
 
 template<size_t dim> size_t PeriodicBoundary<dim>::getOppositeCellAtPeriodicBoundary(
 		const typename dealii::DoFHandler<dim>::active_cell_iterator & cell,
-		typename dealii::DoFHandler<dim>::cell_iterator & neighborCell) const {
+		typename dealii::DoFHandler<dim>::cell_iterator & neighborCell,
+		size_t face) const {
 
 	if (m_cells.size() == 0) {
 		throw PeriodicBoundaryNotPossible(
@@ -166,7 +158,9 @@ template<size_t dim> size_t PeriodicBoundary<dim>::getOppositeCellAtPeriodicBoun
 	neighborCell = m_doFHandler->begin_active();
 	// return cell and face id
 	FacePair<dim> face_pair = m_cells.at(cell);
-	if (face_pair.cell[0] == cell) {
+	if ((face_pair.cell[0] == cell)
+			and not ((face_pair.cell[1] == cell)
+					and (face_pair.face_idx[1] == face))) {
 		neighborCell = face_pair.cell[1];
 		return face_pair.face_idx[1];
 	} else {
@@ -183,7 +177,8 @@ template<size_t dim> size_t PeriodicBoundary<dim>::getOppositeCellAtPeriodicBoun
 template<size_t dim>
 dealii::Point<dim> PeriodicBoundary<dim>::coordinatesAcrossPeriodicBoundary(
 		const dealii::Point<dim>& p,
-		const typename dealii::DoFHandler<dim>::active_cell_iterator& cell) {
+		const typename dealii::DoFHandler<dim>::active_cell_iterator& cell,
+		size_t face) {
 	//TODO should be inlined
 	assert(m_doFHandler != NULL);
 
@@ -291,7 +286,9 @@ dealii::Point<dim> PeriodicBoundary<dim>::coordinatesAcrossPeriodicBoundary(
 
 	// transform point
 	dealii::Point < dim > result;
-	if (face_pair.cell[0] == cell) {
+	if ((face_pair.cell[0] == cell)
+			and not ((face_pair.cell[1] == cell)
+					and (face_pair.face_idx[1] == face))) {
 		numeric_matrix inv(mdim);
 		inv.invert(matrix);
 		for (size_t i = 0; i < dim; i++) {
diff --git a/src/library/natrium/boundaries/PeriodicBoundary.h b/src/library/natrium/boundaries/PeriodicBoundary.h
index 5c94f9c..508f789 100644
--- a/src/library/natrium/boundaries/PeriodicBoundary.h
+++ b/src/library/natrium/boundaries/PeriodicBoundary.h
@@ -134,12 +134,14 @@ public:
 	 *
 	 * @param[in] cellID a cell ID
 	 * @param[out] neighborCell the desired neighbor cell
+	 * @param[in] face local number of the face; only required if the cell touches both sides of the boundary
 	 *
 	 * @return local face number of cell1, denoting the respective cell number
 	 */
 	size_t getOppositeCellAtPeriodicBoundary(
 			const typename dealii::DoFHandler<dim>::active_cell_iterator & cell,
-			typename dealii::DoFHandler<dim>::cell_iterator & neighborCell) const;
+			typename dealii::DoFHandler<dim>::cell_iterator & neighborCell,
+			size_t face = dealii::numbers::invalid_unsigned_int) const;
 
 	/**
 	 * @short test if a given face belongs to this boundary
@@ -175,10 +177,12 @@ public:
 
 	/**
 	 * Transform a point into its equivalent across the periodic boundary
+	 * @param[in] face local number of the face; only required if the cell touches both sides of the boundary
 	 */
 	dealii::Point<dim> coordinatesAcrossPeriodicBoundary(
 			const dealii::Point<dim>& p,
-			const typename dealii::DoFHandler<dim>::active_cell_iterator& cell);
+			const typename dealii::DoFHandler<dim>::active_cell_iterator& cell,
+			size_t face = dealii::numbers::invalid_unsigned_int);
 	//TODO should be inlined
 
 
diff --git a/src/library/natrium/utilities/DealiiExtensions.cpp b/src/library/natrium/utilities/DealiiExtensions.cpp
index ee7eb72..aa0709c 100644
--- a/src/library/natrium/utilities/DealiiExtensions.cpp
+++ b/src/library/natrium/utilities/DealiiExtensions.cpp
@@ -123,10 +123,10 @@ void make_sparser_flux_sparsity_pattern(const DH &dof,
 							periodic != boundaries.getPeriodicBoundaries().end();
 							periodic++) {
 						if (periodic->second->isFaceInBoundary(cell,
-								this_face->boundary_id())) {
+								face)) {
 							neighbor_face =
 									periodic->second->getOppositeCellAtPeriodicBoundary(
-											cell, neighbor);
+											cell, neighbor, face);
 							// if the face is not really at the boundary: do not consider cell
 							/*test_face =
 							 periodic->second->getOppositeCellAtPeriodicBoundary(
@@ -478,10 +478,10 @@ void make_periodicity_map_dg(const typename DH::cell_iterator &cell_1,
 		// Consequently, opposite cells at periodic boundaries have to have the same
 		// refinement level.
 		if (cell_1->has_children())
-			PeriodicBoundaryNotPossible(
+			throw PeriodicBoundaryNotPossible(
 					"Opposite cells at periodic boundaries have to have the same refinement level.");
 		if (cell_2->has_children())
-			PeriodicBoundaryNotPossible(
+			throw PeriodicBoundaryNotPossible(
 					"Opposite cells at periodic boundaries have to have the same refinement level.");
 
 		// taken from make_periodicity_constraints: make sure faces are not artificial
-- 
2.43.0


From 5ce454313d375c29b6e0bc44b8742b94b95aae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 35/68] fix: prescribed boundary values keep their temperature
 (constructor and copy)

---
 src/library/natrium/boundaries/BoundaryFlags.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryFlags.h b/src/library/natrium/boundaries/BoundaryFlags.h
index c821e97..4b15dc8 100755
--- a/src/library/natrium/boundaries/BoundaryFlags.h
+++ b/src/library/natrium/boundaries/BoundaryFlags.h
@@ -80,6 +80,7 @@ public:
 		m_prescribedValues = other.m_prescribedValues;
 		m_pressure = other.m_pressure;
 		m_velocity = other.m_velocity;
+		m_temperature = other.m_temperature;
 		m_velocityGradient = other.m_velocityGradient;
 	}
 
@@ -143,7 +144,7 @@ public:
         m_velocity = boost::make_shared<BoundaryTools::BoundaryVelocity<dim> >(
                 u);
         m_temperature = boost::make_shared<BoundaryTools::BoundaryTemperature<dim> >(
-                p);
+                T);
     }
 
 	/**
-- 
2.43.0


From 4e97ec6c8a612d16cb77fc82f98641fc4a400d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 36/68] fix: boundary hits are ordered by a strict weak
 ordering of their points

---
 src/library/natrium/boundaries/BoundaryHit.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryHit.h b/src/library/natrium/boundaries/BoundaryHit.h
index cebe408..71f9681 100755
--- a/src/library/natrium/boundaries/BoundaryHit.h
+++ b/src/library/natrium/boundaries/BoundaryHit.h
@@ -94,11 +94,18 @@ public:
 	}
 };
 
+/**
+ * @short Strict weak (lexicographic) ordering of points
+ */
 template<size_t dim>
 struct PointComp {
 	bool operator()(const dealii::Point<dim>& lhs,
 			const dealii::Point<dim>& rhs) const {
-		return lhs.distance(rhs) < 1e-10;
+		for (size_t i = 0; i < dim; i++) {
+			if (lhs[i] != rhs[i])
+				return lhs[i] < rhs[i];
+		}
+		return false;
 	}
 };
 
-- 
2.43.0


From 6ed6605e524a166011621b12209c5c48be4263be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 37/68] fix: semi-Lagrangian walls evaluate their velocity at
 the hit point in real coordinates

---
 src/library/natrium/boundaries/FEBoundaryValues.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/boundaries/FEBoundaryValues.h b/src/library/natrium/boundaries/FEBoundaryValues.h
index 415c4dd..cad6140 100755
--- a/src/library/natrium/boundaries/FEBoundaryValues.h
+++ b/src/library/natrium/boundaries/FEBoundaryValues.h
@@ -225,8 +225,9 @@ public:
 		return result;
 	}
 
+	/// the q_point-th hit point (in real coordinates)
 	const dealii::Point<dim>& getPoint(size_t q_point){
-		return m_feValues.get_quadrature().point(q_point);
+		return m_feValues.quadrature_point(q_point);
 	}
 
 	const GlobalBoundaryData& getData() const {
@@ -236,7 +237,8 @@ public:
 private:
 
 	dealii::UpdateFlags getFEValuesFlags(BoundaryFlags& flags) {
-		dealii::UpdateFlags result = dealii::update_values;
+		dealii::UpdateFlags result = dealii::update_values
+				| dealii::update_quadrature_points;
 		if (boundary_drho_dt & flags) {
 			result |= dealii::update_gradients;
 		}
-- 
2.43.0


From e678bcc780d29943a2321d9e4f70d2ee351168cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 38/68] fix: semi-Lagrangian walls evaluate their velocity at
 the time of the hit, which lies in the current step

---
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index e6335e4..80061c8 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -90,7 +90,7 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
 		for (point_it = cell_hits.begin(); point_it != point_end;
 				++point_it) {
 			const HitListAtPoint<dim> & point_hits = point_it->second;
-			// calculate values at points
+			// calculate values at points (t is the start of the step)
 			fe_b_values.reinit(q_point);
 
 			// apply boundaries at hits
@@ -100,7 +100,7 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
 				assert (m_boundaries.getBoundary(hit.getBoundaryId())->isSLSupported());
 				 m_boundaries.getBoundary(hit.getBoundaryId())->calculateBoundaryValues( fe_b_values,
 								q_point, hit.getDestination(),
-								hit.getDtHit(), t);
+								hit.getDtHit(), t + m_timeStep);
 			} /* for all hits */
 			q_point ++;
 		} /* for all points */
-- 
2.43.0


From 1858722a53be5317059463df93547d6ba20b5fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 39/68] fix: walls that are hit by a path that has been
 reflected before act on the direction that leaves them

---
 src/library/natrium/advection/SemiLagrangian.cpp      |  2 ++
 src/library/natrium/advection/SemiLagrangian.h        | 11 +++++++++++
 src/library/natrium/advection/SemiLagrangianTools.h   |  8 +++++---
 .../natrium/boundaries/SLEquilibriumBoundary.h        |  8 ++++----
 .../boundaries/SemiLagrangianBoundaryHandler.cpp      |  2 +-
 .../natrium/boundaries/VelocityNeqBounceBack.cpp      |  4 ++--
 6 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index c7a0c5f..1e5c623 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -360,6 +360,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 						// ================================= VelocityNeqBounceBack ========================================
 						// ================================================================================================
 						if (is_velocity_neq_bb(Base::getBoundaries()->getBoundary(bi)->getBoundaryName())) {
+							el.destination.outgoing = outgoingDirection(el);
 							el.currentDirection =
 									Base::m_stencil->getIndexOfOppositeDirection(
 											el.currentDirection);
@@ -410,6 +411,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 							// ================================================================================================
 							if (not sparsity_pattern) {
 								el.currentPoint = p_boundary;
+								el.destination.outgoing = outgoingDirection(el);
 								m_boundaryHandler.addHit(el, bi);
 							}
 							not_found.pop();
diff --git a/src/library/natrium/advection/SemiLagrangian.h b/src/library/natrium/advection/SemiLagrangian.h
index 5b5be6b..3c19af8 100755
--- a/src/library/natrium/advection/SemiLagrangian.h
+++ b/src/library/natrium/advection/SemiLagrangian.h
@@ -87,6 +87,17 @@ private:
 	 */
 	void updateSparsityPattern();
 
+	/**
+	 * @short direction of the distribution function that leaves the boundary, when the path of el has reached it.
+	 * 		  (After a do-nothing boundary, the distribution function is taken from the opposite side.)
+	 */
+	size_t outgoingDirection(const LagrangianPathTracker<dim>& el) const {
+		return el.hit_do_nothing ?
+				Base::m_stencil->getIndexOfOppositeDirection(
+						el.currentDirection) :
+				el.currentDirection;
+	}
+
 public:
 
 	/// constructor
diff --git a/src/library/natrium/advection/SemiLagrangianTools.h b/src/library/natrium/advection/SemiLagrangianTools.h
index 9170211..d8ca7b3 100755
--- a/src/library/natrium/advection/SemiLagrangianTools.h
+++ b/src/library/natrium/advection/SemiLagrangianTools.h
@@ -35,12 +35,14 @@ public:
 
 struct LagrangianPathDestination {
 	size_t index;
-	size_t direction; // in case of a boundary: the outgoing direction
+	size_t direction; // the direction of the distribution function at the destination
+	size_t outgoing; // in case of a boundary: the direction that leaves the boundary at the hit (differs from direction, when the path has been reflected before)
 	LagrangianPathDestination(size_t i, size_t alpha) :
-			index(i), direction(alpha) {
+			index(i), direction(alpha), outgoing(alpha) {
 	}
 	LagrangianPathDestination(const LagrangianPathDestination& other) :
-			index(other.index), direction(other.direction) {
+			index(other.index), direction(other.direction), outgoing(
+					other.outgoing) {
 	}
 };
 
diff --git a/src/library/natrium/boundaries/SLEquilibriumBoundary.h b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
index a0714ca..2e9baa0 100755
--- a/src/library/natrium/boundaries/SLEquilibriumBoundary.h
+++ b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
@@ -98,10 +98,10 @@ public:
         const double temperature = m_temperature;
         const double density = rho;
         double feq;
-        const double weight =  stencil.getWeight(destination.direction);
+        const double weight =  stencil.getWeight(destination.outgoing);
         std::array<double,dim> e_vel ={0.0};
         for (size_t i = 0; i < dim; i++) {
-            e_vel[i] = stencil.getDirection(destination.direction)(i);
+            e_vel[i] = stencil.getDirection(destination.outgoing)(i);
         }
 
         // calculate vector entry
@@ -111,12 +111,12 @@ public:
 
         // calculate scalar product
         for (size_t i = 0; i < dim; i++) {	// TODO efficient multiplication
-            exu += u[i] * stencil.getDirection(destination.direction)(i);
+            exu += u[i] * stencil.getDirection(destination.outgoing)(i);
             uxu += u[i] * u[i];
         }
 
 
-        double to_add = 2 * stencil.getWeight(destination.direction)
+        double to_add = 2 * stencil.getWeight(destination.outgoing)
                         * rho * exu / stencil.getSpeedOfSoundSquare();
 
 
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index 80061c8..2433102 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -90,7 +90,7 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
 		for (point_it = cell_hits.begin(); point_it != point_end;
 				++point_it) {
 			const HitListAtPoint<dim> & point_hits = point_it->second;
-			// calculate values at points (t is the start of the step)
+			// calculate values at points
 			fe_b_values.reinit(q_point);
 
 			// apply boundaries at hits
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 4c03143..814de62 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -172,12 +172,12 @@ void VelocityNeqBounceBack<dim>::calculateBoundaryValues(
 
 	// calculate scalar product
 	for (size_t i = 0; i < dim; i++) {	// TODO efficient multiplication
-		exu += u[i] * stencil.getDirection(destination.direction)(i);
+		exu += u[i] * stencil.getDirection(destination.outgoing)(i);
 		uxu += u[i] * u[i];
 	}
 
 
-	double to_add = 2 * stencil.getWeight(destination.direction)
+	double to_add = 2 * stencil.getWeight(destination.outgoing)
 			* rho * exu / stencil.getSpeedOfSoundSquare();
 
 	/*
-- 
2.43.0


From 02ffba6abd8ec040f8ce56dec81f4dbc12538e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 40/68] fix: do-nothing boundaries restart the path at its
 start, in the cell and direction it started with

---
 src/library/natrium/advection/SemiLagrangian.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 1e5c623..a59eb73 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -245,6 +245,9 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 				}
 			}
 
+			// start point of the current path
+			dealii::Point<dim> path_start;
+
 			// -- Recursively follow Lagrangian paths ---
 			// while there are points that have not been found, yet
 			while (not not_found.empty()) {
@@ -252,6 +255,9 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 				//			"Assembly: follow paths");
 				LagrangianPathTracker<dim>& el = not_found.front();
 				el.lifeTimeCounter++;
+				if (el.lifeTimeCounter == 1) {
+					path_start = el.currentPoint;
+				}
 				// check if el is running into Nirvana (which can happen, e.g., at domain corners)
 				if (el.lifeTimeCounter > 50) {
 					// write '1' on diagonal (i.e., do not change this distribution function during streaming step)
@@ -394,12 +400,12 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
                         else if (is_do_nothing_bb(Base::getBoundaries()->getBoundary(bi)->getBoundaryName())) {
 
                             // Go back to start and follow the opposite direction to find the departure point
-                            el.currentPoint = el.departurePoint - minus_dtealpha.at(el.currentDirection);
-
-                            el.departurePoint = el.currentPoint - minus_dtealpha.at(el.currentDirection);
+                            el.currentCell = cell;
+                            el.currentPoint = path_start;
+                            el.departurePoint = el.currentPoint - minus_dtealpha.at(el.destination.direction);
                             el.currentDirection =
                                     Base::m_stencil->getIndexOfOppositeDirection(
-                                            el.currentDirection);
+                                            el.destination.direction);
                             el.hit_do_nothing = true;
                         }
 
-- 
2.43.0


From 75c76f9980eafc5075bae02f7bf3d32baf85fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 41/68] fix: paths that are trapped in a corner (or restarted
 at a do-nothing boundary) leave no boundary hits behind

---
 src/library/natrium/advection/SemiLagrangian.cpp | 10 ++++++++--
 src/library/natrium/advection/SemiLagrangian.h   |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index a59eb73..0622777 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -247,6 +247,8 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 
 			// start point of the current path
 			dealii::Point<dim> path_start;
+			// boundary hits of the current path (only used, when the path comes to an end)
+			std::vector<std::pair<LagrangianPathTracker<dim>, size_t> > path_hits;
 
 			// -- Recursively follow Lagrangian paths ---
 			// while there are points that have not been found, yet
@@ -257,6 +259,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 				el.lifeTimeCounter++;
 				if (el.lifeTimeCounter == 1) {
 					path_start = el.currentPoint;
+					path_hits.clear();
 				}
 				// check if el is running into Nirvana (which can happen, e.g., at domain corners)
 				if (el.lifeTimeCounter > 50) {
@@ -336,6 +339,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 					} else {
 						it->second.push_back(el);
 					}
+					addHits(path_hits);
 					not_found.pop();
 
 					// ================================================================================================
@@ -390,7 +394,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 												* distance / vel_direction;
 							}
 							if (not sparsity_pattern) {
-								m_boundaryHandler.addHit(el, bi);
+								path_hits.push_back(std::make_pair(el, bi));
 							}
 
 						}
@@ -407,6 +411,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
                                     Base::m_stencil->getIndexOfOppositeDirection(
                                             el.destination.direction);
                             el.hit_do_nothing = true;
+                            path_hits.clear();
                         }
 
 
@@ -418,7 +423,8 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 							if (not sparsity_pattern) {
 								el.currentPoint = p_boundary;
 								el.destination.outgoing = outgoingDirection(el);
-								m_boundaryHandler.addHit(el, bi);
+								path_hits.push_back(std::make_pair(el, bi));
+								addHits(path_hits);
 							}
 							not_found.pop();
 
diff --git a/src/library/natrium/advection/SemiLagrangian.h b/src/library/natrium/advection/SemiLagrangian.h
index 3c19af8..4cddebc 100755
--- a/src/library/natrium/advection/SemiLagrangian.h
+++ b/src/library/natrium/advection/SemiLagrangian.h
@@ -98,6 +98,14 @@ private:
 				el.currentDirection;
 	}
 
+	/// pass the boundary hits of a path to the boundary handler
+	void addHits(
+			const std::vector<std::pair<LagrangianPathTracker<dim>, size_t> >& hits) {
+		for (size_t i = 0; i < hits.size(); i++) {
+			m_boundaryHandler.addHit(hits.at(i).first, hits.at(i).second);
+		}
+	}
+
 public:
 
 	/// constructor
-- 
2.43.0


From 1e9822c5fbaed9bcba49967dcc5956c40376ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 42/68] fix: semi-Lagrangian boundary conditions are applied in
 an order that does not lose contributions at nodes with several kinds of
 walls

---
 .../SemiLagrangianBoundaryHandler.cpp         | 24 ++++++++---
 .../SemiLagrangianBoundaryHandler.h           | 41 ++++++++++++++++---
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index 2433102..f1de41d 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -18,7 +18,10 @@ void SemiLagrangianBoundaryHandler<dim>::addHit(
 	assert(m_boundaries.hasID(boundary_id));
 	assert(m_boundaries.getBoundary(boundary_id)->isSLSupported());
 	// check if cell is already there
-	m_hitList.addHit(BoundaryHit<dim>(tracker, m_stencil, boundary_id, m_timeStep));
+	m_hitLists.at(
+			hitListNumber(
+					m_boundaries.getBoundary(boundary_id)->getBoundaryName())).addHit(
+			BoundaryHit<dim>(tracker, m_stencil, boundary_id, m_timeStep));
 	// TODO deal with corner nodes. Each boundary hit could be given prescribed values of multiple boundaries.
 }
 
@@ -41,9 +44,17 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
 
     template<size_t dim>
     void SemiLagrangianBoundaryHandler<dim>::operate(GlobalBoundaryData g_data, double t){
+	for (const HitList<dim>& list : m_hitLists) {
+		operate(list, g_data, t);
+	}
+}
+
+    template<size_t dim>
+    void SemiLagrangianBoundaryHandler<dim>::operate(const HitList<dim>& hit_list,
+		const GlobalBoundaryData& g_data, double t){
 	std::vector<dealii::Point<dim> > local_hit_points;
-	typename HitList<dim>::iterator cell_it = m_hitList.begin();
-	typename HitList<dim>::iterator cell_end = m_hitList.end();
+	typename HitList<dim>::const_iterator cell_it = hit_list.begin();
+	typename HitList<dim>::const_iterator cell_end = hit_list.end();
 	for (; cell_it != cell_end; ++cell_it) {
 		// i.e., FOR ALL CELLS
 
@@ -115,8 +126,11 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
         const double temperature = 1.0;
 
         std::vector<dealii::Point<dim> > local_hit_points;
-        typename HitList<dim>::iterator cell_it = m_hitList.begin();
-        typename HitList<dim>::iterator cell_end = m_hitList.end();
+        // (equilibrium boundaries only)
+        const HitList<dim>& hit_list = m_hitLists.at(
+                hitListNumber(VELOCITY_EQUILIBRIUM_BOUNDARY));
+        typename HitList<dim>::const_iterator cell_it = hit_list.begin();
+        typename HitList<dim>::const_iterator cell_end = hit_list.end();
         for (; cell_it != cell_end; ++cell_it) {
             // i.e., FOR ALL CELLS
 
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
index bb19fe4..5945dd0 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
@@ -8,7 +8,9 @@
 #ifndef LIBRARY_NATRIUM_BOUNDARIES_SEMILAGRANGIANBOUNDARYHANDLER_H_
 #define LIBRARY_NATRIUM_BOUNDARIES_SEMILAGRANGIANBOUNDARYHANDLER_H_
 
+#include <array>
 #include <map>
+#include <set>
 #include <utility>
 
 #include "deal.II/dofs/dof_handler.h"
@@ -38,8 +40,25 @@ template<size_t dim>
 class SemiLagrangianBoundaryHandler {
 private:
 
-	/// list of boundary hit points
-	HitList<dim> m_hitList;
+	/// lists of boundary hit points, in the order in which they have to be applied:
+	/// 	0: boundaries that set a distribution function
+	/// 	1: boundaries that add to a distribution function
+	/// 	2: boundaries that need other distribution functions of the same node
+	/// 	3: boundaries that need all distribution functions of the same node
+	std::array<HitList<dim>, 4> m_hitLists;
+
+	/// the list for the hits at a boundary
+	static size_t hitListNumber(BoundaryName name) {
+		if (name == THERMAL_BB)
+			return 3;
+		if (name == FIRST_ORDER_BB)
+			return 2;
+		return is_velocity_neq_bb(name) ? 1 : 0;
+	}
+
+	/// apply the boundary conditions of one of the lists
+	void operate(const HitList<dim>& hit_list, const GlobalBoundaryData& g_data,
+			double t);
 
 	/// dt
 	double m_timeStep;
@@ -101,15 +120,27 @@ public:
 
 	/// forget all hits (before a new assembly)
 	void clear() {
-		m_hitList.clear();
+		for (HitList<dim>& list : m_hitLists) {
+			list.clear();
+		}
 	}
 
 	size_t n_hits() const {
-		return m_hitList.n_hits();
+		size_t result = 0;
+		for (const HitList<dim>& list : m_hitLists) {
+			result += list.n_hits();
+		}
+		return result;
 	}
 
 	size_t n_cells() const {
-		return m_hitList.n_cells();
+		std::set<typename dealii::DoFHandler<dim>::active_cell_iterator> cells;
+		for (const HitList<dim>& list : m_hitLists) {
+			for (const auto& cell_hits : list) {
+				cells.insert(cell_hits.first);
+			}
+		}
+		return cells.size();
 	}
 }
 ;
-- 
2.43.0


From 49c4ea7e22e32f76b75caba88f54ff7ba1a49a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 43/68] fix: first-order bounce-back on both sides of a node
 kept nothing of the distribution functions

---
 .../SemiLagrangianBoundaryHandler.cpp         | 21 +++++++++++++++++++
 .../SemiLagrangianBoundaryHandler.h           |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index f1de41d..02f852e 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -22,6 +22,12 @@ void SemiLagrangianBoundaryHandler<dim>::addHit(
 			hitListNumber(
 					m_boundaries.getBoundary(boundary_id)->getBoundaryName())).addHit(
 			BoundaryHit<dim>(tracker, m_stencil, boundary_id, m_timeStep));
+	if (m_boundaries.getBoundary(boundary_id)->getBoundaryName()
+			== FIRST_ORDER_BB) {
+		m_firstOrderBounceBack.insert(
+				std::make_pair(tracker.destination.index,
+						tracker.destination.direction));
+	}
 	// TODO deal with corner nodes. Each boundary hit could be given prescribed values of multiple boundaries.
 }
 
@@ -107,6 +113,21 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
 			// apply boundaries at hits
 			for (size_t i = 0; i < point_hits.n_hits(); i++){
 				const BoundaryHit<dim>& hit = point_hits.at(i);
+				// first-order bounce-back on both sides (e.g. in corners):
+				// no distribution function arrives that could be bounced back; leave it as it is
+				const LagrangianPathDestination& destination =
+						hit.getDestination();
+				if (m_boundaries.getBoundary(hit.getBoundaryId())->getBoundaryName()
+						== FIRST_ORDER_BB
+						and m_firstOrderBounceBack.count(
+								std::make_pair(destination.index,
+										m_stencil.getIndexOfOppositeDirection(
+												destination.direction)))) {
+					g_data.m_fnew.at(destination.direction)(destination.index) =
+							g_data.m_fold.at(destination.direction)(
+									destination.index);
+					continue;
+				}
 				// calculate new distribution functions at hits
 				assert (m_boundaries.getBoundary(hit.getBoundaryId())->isSLSupported());
 				 m_boundaries.getBoundary(hit.getBoundaryId())->calculateBoundaryValues( fe_b_values,
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
index 5945dd0..c084baf 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
@@ -47,6 +47,9 @@ private:
 	/// 	3: boundaries that need all distribution functions of the same node
 	std::array<HitList<dim>, 4> m_hitLists;
 
+	/// all distribution functions (dof, direction) at first-order bounce-back walls
+	std::set<std::pair<size_t, size_t> > m_firstOrderBounceBack;
+
 	/// the list for the hits at a boundary
 	static size_t hitListNumber(BoundaryName name) {
 		if (name == THERMAL_BB)
@@ -123,6 +126,7 @@ public:
 		for (HitList<dim>& list : m_hitLists) {
 			list.clear();
 		}
+		m_firstOrderBounceBack.clear();
 	}
 
 	size_t n_hits() const {
-- 
2.43.0


From 094c7fe62ab78ed7f634ebd3ec2b1ebbc7af8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 44/68] fix: mean velocity and entropy are integrals of the
 finite element fields

---
 src/library/natrium/solver/PhysicalProperties.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/solver/PhysicalProperties.cpp b/src/library/natrium/solver/PhysicalProperties.cpp
index 952b13d..a94f08d 100644
--- a/src/library/natrium/solver/PhysicalProperties.cpp
+++ b/src/library/natrium/solver/PhysicalProperties.cpp
@@ -325,7 +325,7 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 
 // Integrate ux over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values | dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -347,9 +347,11 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 			feCellValues.reinit(cell);
 			for (size_t q = 0; q < n_q_points; q++) {
 				for (size_t i = 0; i < dofs_per_cell; i++) {
-					result += ux(localDoFIndices.at(i)) * feCellValues.JxW(q);
-					area += feCellValues.JxW(q);
+					result += ux(localDoFIndices.at(i))
+							* feCellValues.shape_value(i, q)
+							* feCellValues.JxW(q);
 				}
+				area += feCellValues.JxW(q);
 			}
 		} /* if is locally owned */
 	} /* for all cells */
@@ -370,7 +372,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 
 	// Integrate rho over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values | dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -397,6 +399,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 						// atGhosted gives a vector that also contains the ghost elements
 						result -= f.atGhosted(j)(local_i)
 								* log(f.atGhosted(j)(local_i) / weights.at(j))
+								* feCellValues.shape_value(i, q)
 								* feCellValues.JxW(q);
 					}
 				}
-- 
2.43.0


From 599ee5db0231d328ca87329ea4740e26d4d57b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 45/68] fix: the maximal velocity is the maximum of the
 euclidean norm

---
 src/library/natrium/solver/CFDSolver.h | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.h b/src/library/natrium/solver/CFDSolver.h
index f2d7e84..c105fd1 100644
--- a/src/library/natrium/solver/CFDSolver.h
+++ b/src/library/natrium/solver/CFDSolver.h
@@ -277,18 +277,8 @@ public:
 		return m_advectionOperator->getNumberOfDoFs();
 	}
 	double getMaxVelocityNorm() const {
-		double max = m_velocity.at(0).linfty_norm();
-		double comp2 = m_velocity.at(1).linfty_norm();
-		if (comp2 > max) {
-			max = comp2;
-		}
-		double comp3 = 0;
-		if (dim == 3)
-			comp3 = m_velocity.at(2).linfty_norm();
-		if (comp3 > max) {
-			max = comp3;
-		}
-		return max;
+		return Math::maxVelocityNorm(m_velocity,
+				m_advectionOperator->getLocallyOwnedDofs());
 	}
 
 	double getMaxDensityDeviationFrom(double referenceDensity) const {
-- 
2.43.0


From 037a7691ca011f6d6ba1ce201626b2e9c52a263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 46/68] fix: legends of the turbulence tables name the columns
 of the tables

---
 .../dataprocessors/CompressibleTurbulenceStats.cpp        | 8 +++++++-
 .../natrium/dataprocessors/GlobalTurbulenceStats.cpp      | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
index a9faf73..30cc560 100644
--- a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
@@ -54,12 +54,18 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
                            << m_legendFilename << endl;
             std::ofstream legend_file(m_legendFilename, std::fstream::out);
 
-            int k = 0;
+            int k = 1;
+            legend_file << k << "  iteration" << endl;
+            k++;
+            legend_file << k << "  time" << endl;
+            k++;
             legend_file << k << "  <dilatation>" << endl;
             k++;
             legend_file << k << "  <solenoidal>" << endl;
             k++;
             legend_file << k << "  maxMach" << endl;
+            k++;
+            legend_file << k << "  totalEnergy" << endl;
             legend_file.close();
 
         } /* is_MPI_rank 0 */
diff --git a/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp b/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
index 95b2ceb..6d3fe18 100755
--- a/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
@@ -90,7 +90,7 @@ void GlobalTurbulenceStats<dim>::printHeaderLine() {
 
 		// write legend file
 		legend_file << "1  iteration" << endl;
-		legend_file << "3  time" << endl;
+		legend_file << "2  time" << endl;
 		size_t k = 3;
 		for (size_t i = 0; i < m_nofObservables; i++) {
 			legend_file << k << "  < " << m_names.at(i) << " >" << endl;
-- 
2.43.0


From 631bea4715723e55fce6f30e887326ca3b20aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 47/68] fix: total energy and Mach number of the compressible
 statistics

---
 .../natrium/dataprocessors/CompressibleTurbulenceStats.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
index 30cc560..2bdd83f 100644
--- a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
@@ -125,6 +125,7 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
         double solenoidal = 0.0;
         double globalMach = 0.0;
         double totalEnergy = 0.0;
+        const double cs2 = this->m_solver.getStencil()->getSpeedOfSoundSquare();
 
         uxs.resize(n_q_points);
         uys.resize(n_q_points);
@@ -167,7 +168,6 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
                     for (size_t q = 0; q < n_q_points; q++) {
                         /*	for (size_t i = 0; i < dofs_per_cell; i++) {*/
                         //dof_ind = local_indices.at(i);
-                        totalEnergy += Ts.at(q) * weights.at(q);
                         double sunderland_factor = 1.402*pow(Ts.at(q),1.5) / (Ts.at(q) + 0.40417);
                         // add to energies and enstrophies
 
@@ -189,8 +189,11 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
                         double u_magnitude = uxs.at(q)*uxs.at(q)+uys.at(q)*uys.at(q);
                             if (3 == dim)
                                 u_magnitude+=uzs.at(q)*uzs.at(q);
+                        // kinetic and internal energy
+                        totalEnergy += rhos.at(q) * (0.5 * u_magnitude
+                                + cs2 * Ts.at(q) / (m_gamma - 1.0)) * weights.at(q);
                         u_magnitude=sqrt(u_magnitude);
-                        double localMach = u_magnitude/sqrt(m_gamma*Ts.at(q));
+                        double localMach = u_magnitude/sqrt(m_gamma*Ts.at(q)*cs2);
                         if (localMach > globalMach)
                             globalMach=localMach;
 
-- 
2.43.0


From d0e517b97fa16dba2f8fa43ba2fa44eb04f8723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 48/68] fix: ghosted distribution functions are up to date
 after initialization

---
 src/library/natrium/solver/CFDSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 3f71e21..ed5949f 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1351,6 +1351,9 @@ void CFDSolver<dim>::initializeDistributions() {
 
 	m_time = t0;
 
+	// communicate
+	m_f.updateGhosted();
+
 	LOG(BASIC) << "Initialize distribution functions: done." << endl;
 }
 
-- 
2.43.0


From 64c3f946d9989576676eef07b217f7056e9bfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 49/68] fix: compressible statistics belong to the iteration
 they are written for

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 1d03fbb..a637206 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -1026,9 +1026,6 @@ void compressibleFilter() {
             this->stream();
             gStream();
             compressibleFilter();
-            if (this->m_configuration->isOutputCompressibleTurbulenceStatistics()) {
-                this->m_compressibleTurbulenceStats->apply();
-            }
             if(this->m_i==200) {
 
 
@@ -1038,6 +1035,10 @@ void compressibleFilter() {
 
             this->collide();
 
+            if (this->m_configuration->isOutputCompressibleTurbulenceStatistics()) {
+                this->m_compressibleTurbulenceStats->apply();
+            }
+
             for (size_t i = 0; i < this->m_dataProcessors.size(); i++) {
                 this->m_dataProcessors.at(i)->apply();
             }
-- 
2.43.0


From 617eb2ae6b6bd62e1306279f371c7b3ecbe3bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 50/68] fix: is_angle_small converts degrees to radians

---
 src/library/natrium/utilities/Math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/Math.h b/src/library/natrium/utilities/Math.h
index 0f9e11b..0c6c810 100644
--- a/src/library/natrium/utilities/Math.h
+++ b/src/library/natrium/utilities/Math.h
@@ -64,7 +64,7 @@ inline bool is_angle_small(dealii::Tensor<1, 2> vector1,
 		return (vector1 * vector2 / (vector1.norm() * vector2.norm()) > 0.99);
 	} else {
 		return (vector1 * vector2 / (vector1.norm() * vector2.norm())
-				> cos(thresholdDegrees / PI * 180));
+				> cos(thresholdDegrees * PI / 180));
 	}
 } /* is_angle_small */
 
-- 
2.43.0


From 3e9a164f1f27be8185fbb8fdf8d293304f52592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 51/68] fix: initialization by gradients sets the viscous
 stress at every node

---
 src/library/natrium/solver/CFDSolver.cpp | 38 +++++++++++++++++-------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index ed5949f..0391627 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1148,17 +1148,19 @@ void CFDSolver<dim>::initializeDistributions() {
 
     case GRADIENTS: {
         LOG(BASIC) << "Initialize with velocity gradients" << endl;
-        const dealii::UpdateFlags update_flags = dealii::update_values | dealii::update_gradients
-                                                 | dealii::update_JxW_values;
+        const dealii::UpdateFlags update_flags = dealii::update_values | dealii::update_gradients;
         const dealii::DoFHandler<dim> & dof_handler =
                 *(getAdvectionOperator()->getDoFHandler());
+        // evaluate at the nodes, in the order of the degrees of freedom
+        const dealii::Quadrature<dim> support_points(
+                getAdvectionOperator()->getFe()->get_unit_support_points());
         dealii::FEValues<dim> fe_values(this->getAdvectionOperator()->getMapping(),
                 *(this->getAdvectionOperator()->getFe()),
-                *(this->getAdvectionOperator()->getQuadrature()),
+                support_points,
                 update_flags);
         size_t dofs_per_cell =
                 getAdvectionOperator()->getFe()->dofs_per_cell;
-        size_t n_q_points = getAdvectionOperator()->getQuadrature()->size();
+        size_t n_q_points = support_points.size();
 
         std::vector<double> uxs;
         std::vector<double> uys;
@@ -1199,16 +1201,28 @@ void CFDSolver<dim>::initializeDistributions() {
             }
         }
 
+        const double delta_t = m_timeIntegrator->getTimeStepSize();
+        const double tau = BGKStandard::calculateRelaxationParameter(
+                m_problemDescription->getViscosity(), delta_t, *m_stencil) + 0.5;
+
+        // the gradients of continuous elements jump at nodes that cells share: take the mean
+        std::map<dealii::types::global_dof_index, size_t> n_cells;
         typename dealii::DoFHandler<dim>::active_cell_iterator cell =
                 dof_handler.begin_active(), endc = dof_handler.end();
         for (; cell != endc; ++cell) {
-            if (cell->is_locally_owned()) {
-
+            if (not cell->is_artificial()) {
                 cell->get_dof_indices(local_indices);
+                for (size_t q = 0; q < dofs_per_cell; q++) {
+                    n_cells[local_indices[q]]++;
+                }
+            }
+        }
+
+        for (cell = dof_handler.begin_active(); cell != endc; ++cell) {
+            if (not cell->is_artificial()) {
 
-                // get averages
+                cell->get_dof_indices(local_indices);
                 fe_values.reinit(cell);
-                const std::vector<double> &weights = fe_values.get_JxW_values();
 
                 // calculate gradients (for w and strain rate)
                 fe_values.get_function_gradients(u_local.at(0), ux_gradients);
@@ -1222,12 +1236,14 @@ void CFDSolver<dim>::initializeDistributions() {
                 fe_values.get_function_values(rho_local, rhos);
 
                 for (size_t q = 0; q < n_q_points; q++) {
-                    double dx = 1.0; //cell->minimum_vertex_distance()/ m_configuration->getSedgOrderOfFiniteElement();
-                    double tau = getTau() + 0.5;
+                    if (not locally_owned_dofs.is_element(local_indices[q])) {
+                        continue;
+                    }
                     double Pi_1[dim][dim] = {{0.0}};
                     for (int a = 0; a < dim; a++) {
                         for (int b = 0; b < dim; b++) {
-                            Pi_1[a][b] = -1.0 * tau * rhos.at(q) / m_stencil->getSpeedOfSoundSquare() * dx;
+                            Pi_1[a][b] = -1.0 * tau * rhos.at(q) / m_stencil->getSpeedOfSoundSquare() * delta_t
+                                         / n_cells[local_indices[q]];
                         }
                     }
 
-- 
2.43.0


From 37f89bfa415cbfd3d8f19a60dd37efe3571292b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 52/68] fix: collisions use the time step of adaptive time
 integrators

---
 src/library/natrium/solver/CFDSolver.cpp           | 6 ++----
 src/library/natrium/solver/CompressibleCFDSolver.h | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 0391627..5fc132f 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -821,10 +821,8 @@ void CFDSolver<dim>::collide() {
 		CFDSolverUtilities::getWriteableDensity(writeable_rho, m_density,
 				m_advectionOperator->getLocallyOwnedDofs());
 
-		double delta_t = CFDSolverUtilities::calculateTimestep<dim>(
-					*(m_problemDescription->getMesh()),
-					m_configuration->getSedgOrderOfFiniteElement(), *m_stencil,
-					m_configuration->getCFL());
+		// adaptive time integrators change the time step
+		double delta_t = m_timeIntegrator->getTimeStepSize();
 
 
 // TODO member function collisionModel
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index a637206..0c667b2 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -760,10 +760,8 @@ void compressibleFilter() {
                     this->getAdvectionOperator()->getLocallyOwnedDofs());
 
 
-			double delta_t = CFDSolverUtilities::calculateTimestep<dim>(
-						*(this->getProblemDescription()->getMesh()),
-						this->getConfiguration()->getSedgOrderOfFiniteElement(), *(this->m_stencil),
-						this->getConfiguration()->getCFL());
+			// adaptive time integrators change the time step
+			double delta_t = this->m_timeIntegrator->getTimeStepSize();
 
 
 
-- 
2.43.0


From df431e855c6bd6af033cadb05c9156f25987ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 53/68] fix: the default CFL limits of embedded time
 integrators are not swapped

---
 src/library/natrium/solver/SolverConfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index 18b6a0b..f586eac 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -107,9 +107,9 @@ SolverConfiguration::SolverConfiguration() {
 			declare_entry("Refinement parameter", "0.8",
 					dealii::Patterns::Double(0, 1),
 					"Parameter for the embedded deal.II methods. This parameter is the factor (<1) by which the time step is multiplied when the time stepping must be refined.");
-			declare_entry("Minimum CFL", "10", dealii::Patterns::Double(),
+			declare_entry("Minimum CFL", "0.05", dealii::Patterns::Double(),
 					"Parameter for the embedded deal.II methods. Smallest CFL allowed.");
-			declare_entry("Maximum CFL", "0.05", dealii::Patterns::Double(),
+			declare_entry("Maximum CFL", "10", dealii::Patterns::Double(),
 					"Parameter for the embedded deal.II methods. Largest CFL allowed.");
 			declare_entry("Refinement tolerance", "1e-8",
 					dealii::Patterns::Double(),
-- 
2.43.0


From 87553122e2fa196c68d6486f2d0d9ddd9eaa672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:26 +0000
Subject: [PATCH 54/68] fix: the Prandtl number scales the relaxation of the
 heat flux in thermal units

---
 .../natrium/collision_advanced/AuxiliaryCollisionFunctions.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
index 648da1d..02964d3 100644
--- a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
+++ b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
@@ -509,7 +509,7 @@ inline void calculateGeqFromFeq(const std::array<double, T_Q>& feq,std::array<do
         for (size_t a = 0; a < T_D; a++) {
             for (size_t i = 0; i < T_Q; i++) {
                 gStar[i] += p.weight[i] * (centeredFluxTensorG[a] * p.e[i][a]) /
-                                    p.temperature;
+                                    p.cs2;
                     }
                 }
             }
-- 
2.43.0


From ae28ceda49073ae495122dab2497273273dfb1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:26 +0000
Subject: [PATCH 55/68] fix: restarts of the compressible solver continue with
 the saved distribution functions

---
 src/library/natrium/solver/Checkpoint.h       |  7 ++++++
 .../natrium/solver/CompressibleCFDSolver.h    | 22 +++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.h b/src/library/natrium/solver/Checkpoint.h
index 0775243..f7566db 100755
--- a/src/library/natrium/solver/Checkpoint.h
+++ b/src/library/natrium/solver/Checkpoint.h
@@ -121,6 +121,13 @@ public:
 			AdvectionOperator<dim>& advection, string directory, CheckpointStatus& status);
 	virtual ~Checkpoint();
 
+	/**
+	 * @short How many times the mesh was refined by the last load() of distribution functions f.
+	 */
+	static int getNumberOfRefinements() {
+		return m_numberOfRefinements;
+	}
+
 	const boost::filesystem::path& getDataFile() const {
 		return m_dataFile;
 	}
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 0c667b2..0e09a75 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -82,7 +82,7 @@ public:
                 for (size_t i = 0; i < this->m_stencil->getQ(); i++) {
                     double sum = 0.0;
                     for (size_t a = 0; a < dim; a++) {
-                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i));
+                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it));
                     }
                     temperature += sum * this->m_f.at(i)(*it) / this->getStencil()->getSpeedOfSoundSquare() +
                             m_g.at(i)(*it);
@@ -134,6 +134,14 @@ public:
                        this->getAdvectionOperator()->getLocallyOwnedDofs(),
                        this->getAdvectionOperator()->getLocallyRelevantDofs(),
                        MPI_COMM_WORLD, (SEDG == this->m_configuration->getAdvectionScheme()));
+            if (0 == Checkpoint<dim>::getNumberOfRefinements()) {
+                checkpoint->load(m_g, *(this->m_problemDescription), *(this->m_advectionOperator),
+                                 checkpoint_status);
+                m_g.updateGhosted();
+                return true;
+            }
+
+            // the mesh is finer than before: reconstruct g from f
             dealii::IndexSet::ElementIterator it(
                     this->m_advectionOperator->getLocallyOwnedDofs().begin());
             dealii::IndexSet::ElementIterator end(
@@ -149,6 +157,9 @@ public:
                             vel[a]+=this->m_stencil->getDirection(i)(a)/scaling *this->m_f.at(i)(*it);
                         }
                     }
+                    for (size_t a = 0; a < dim; a++) {
+                        vel[a] /= density;
+                    }
 
 
                         double temperature = 0.0;
@@ -170,9 +181,6 @@ public:
                 }
             }
 
-           // checkpoint->load(m_g, *(this->m_problemDescription), *(this->m_advectionOperator),
-            //                 checkpoint_status);
-
         }
         m_g.updateGhosted();
         return 0 != restart_i;
@@ -1008,11 +1016,11 @@ void compressibleFilter() {
     void run()
     {
         this->m_i = this->m_iterationStart;
-        if(this->m_i<=1) {
+        // a restarted simulation continues with the populations of the checkpoint
+        if(this->m_iterationStart == 0) {
             initializeDistributions();
-
+            collide();
         }
-        collide();
             while (true) {
             if (this->stopConditionMet()) {
                 break;
-- 
2.43.0


From bbe61ac2d24148d17eea73865cd8cea17693109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 56/68] fix: the analytic Taylor-Green vortex decays and
 travels correctly for domains other than 2 pi

---
 .../natrium/benchmarks/TaylorGreenVortex2D.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/benchmarks/TaylorGreenVortex2D.cpp b/src/library/natrium/benchmarks/TaylorGreenVortex2D.cpp
index 2306c19..2fbeade 100644
--- a/src/library/natrium/benchmarks/TaylorGreenVortex2D.cpp
+++ b/src/library/natrium/benchmarks/TaylorGreenVortex2D.cpp
@@ -36,12 +36,15 @@ TaylorGreenVortex2D::~TaylorGreenVortex2D() {
 double TaylorGreenVortex2D::AnalyticVelocity::value(const dealii::Point<2>& x,
 		const unsigned int component) const {
 	assert(component < 2);
+	// wave number
+	const double k = (2*M_PI)/m_flow->m_L;
+	const double phase_x = k * (x(0) - m_flow->getHorizontalVelocity() * this->get_time());
+	const double phase_y = k * x(1);
+	const double decay = exp(-2 * m_flow->getViscosity() * k * k * this->get_time());
 	if (component == 0) {
-		return m_flow->getHorizontalVelocity() + sin(x(0)*(2*M_PI)/m_flow->m_L - m_flow->getHorizontalVelocity() * this->get_time()) * cos(x(1)*(2*M_PI)/m_flow->m_L)
-				* exp(-2 * m_flow->getViscosity() * this->get_time()*(2*M_PI)/m_flow->m_L);
+		return m_flow->getHorizontalVelocity() + sin(phase_x) * cos(phase_y) * decay;
 	} else {
-		return -cos(x(0)*(2*M_PI)/m_flow->m_L - m_flow->getHorizontalVelocity() * this->get_time()) * sin(x(1)*(2*M_PI)/m_flow->m_L)
-				* exp(-2 * m_flow->getViscosity() * this->get_time()*(2*M_PI)/m_flow->m_L);
+		return -cos(phase_x) * sin(phase_y) * decay;
 	}
 	return 0;
 }
@@ -51,8 +54,11 @@ double TaylorGreenVortex2D::AnalyticDensity::value(const dealii::Point<2>& x,
 	assert (component == 0);
 	if (m_flow->m_analyticInit) {
 		double rho0 = 1;
-		double p = rho0 / 4. * (cos(2 * (x(0)*(2*M_PI)/m_flow->m_L - m_flow->getHorizontalVelocity() * this->get_time())) + cos(2 * x(1)*(2*M_PI)/m_flow->m_L))
-				* exp(-4 * m_flow->getViscosity() * this->get_time()*(2*M_PI)/m_flow->m_L);
+		const double k = (2*M_PI)/m_flow->m_L;
+		const double phase_x = k * (x(0) - m_flow->getHorizontalVelocity() * this->get_time());
+		const double phase_y = k * x(1);
+		double p = rho0 / 4. * (cos(2 * phase_x) + cos(2 * phase_y))
+				* exp(-4 * m_flow->getViscosity() * k * k * this->get_time());
 		return rho0 + p / (m_flow->m_cs * m_flow->m_cs);
 	} else {
 		return 1.0;
-- 
2.43.0


From b46a3314bc1d56288718eaaa9119ba8b283efa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 57/68] fix: Couette flow 3D: plates at distance one,
 unstructured mesh keeps its third coordinate

---
 src/library/natrium/benchmarks/CouetteFlow3D.cpp | 3 ++-
 src/library/natrium/benchmarks/CouetteFlow3D.h   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/benchmarks/CouetteFlow3D.cpp b/src/library/natrium/benchmarks/CouetteFlow3D.cpp
index 0528446..298944e 100644
--- a/src/library/natrium/benchmarks/CouetteFlow3D.cpp
+++ b/src/library/natrium/benchmarks/CouetteFlow3D.cpp
@@ -108,7 +108,8 @@ double CouetteFlow3D::AnalyticVelocity::value(const dealii::Point<3>& x,
 		// the analytic solution is given by an asymptotic series
 		double t = this->get_time();
 		double U = m_benchmark->getCharacteristicVelocity();
-		double L = m_benchmark->getCharacteristicLength();
+		// distance of the plates; the domain is [0,L] x [0,1] x [0,1]
+		const double L = 1.0;
 		double t0 = m_benchmark->getStartTime();
 		double nu = m_benchmark->getViscosity();
 
diff --git a/src/library/natrium/benchmarks/CouetteFlow3D.h b/src/library/natrium/benchmarks/CouetteFlow3D.h
index 72f922f..b4142c3 100644
--- a/src/library/natrium/benchmarks/CouetteFlow3D.h
+++ b/src/library/natrium/benchmarks/CouetteFlow3D.h
@@ -96,7 +96,7 @@ private:
 	  dealii::Point<3> operator() (const dealii::Point<3> &in) const
 	  {
 	    return dealii::Point<3> (in(0),
-	                     trans(in(1)));
+	                     trans(in(1)), in(2));
 	  }
 	};
 
-- 
2.43.0


From 571d4faa2168c4256d4b9976cba8077a13919e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 58/68] fix: Couette flow 2D: unstructured mesh fills domains
 of any size

---
 src/library/natrium/benchmarks/CouetteFlow2D.cpp | 2 +-
 src/library/natrium/benchmarks/CouetteFlow2D.h   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/benchmarks/CouetteFlow2D.cpp b/src/library/natrium/benchmarks/CouetteFlow2D.cpp
index 1c565e5..6104580 100644
--- a/src/library/natrium/benchmarks/CouetteFlow2D.cpp
+++ b/src/library/natrium/benchmarks/CouetteFlow2D.cpp
@@ -47,7 +47,7 @@ void CouetteFlow2D::transform(Mesh<2>& mesh){
 
 	// transform grid
 	if (m_isUnstructured) {
-		dealii::GridTools::transform(UnstructuredGridFunc(), mesh);
+		dealii::GridTools::transform(UnstructuredGridFunc(getCharacteristicLength()), mesh);
 	}
 
 	std::ofstream out("grid-couette.eps");
diff --git a/src/library/natrium/benchmarks/CouetteFlow2D.h b/src/library/natrium/benchmarks/CouetteFlow2D.h
index 3df525e..3269268 100644
--- a/src/library/natrium/benchmarks/CouetteFlow2D.h
+++ b/src/library/natrium/benchmarks/CouetteFlow2D.h
@@ -81,8 +81,12 @@ private:
 	 * @short function to generate the unstructured mesh grid
 	 */
 	struct UnstructuredGridFunc {
+		double m_L;
+		UnstructuredGridFunc(double L) :
+				m_L(L) {
+		}
 		double trans(const double y) const {
-			return std::tanh(4 * (y - 0.5)) / tanh(2) / 2 + 0.5;
+			return m_L * (std::tanh(4 * (y / m_L - 0.5)) / tanh(2) / 2 + 0.5);
 		}
 		dealii::Point<2> operator()(const dealii::Point<2> &in) const {
 			return dealii::Point<2>(in(0), trans(in(1)));
-- 
2.43.0


From ec6bcac0a45c3e6df3d0ce14542d8d560a54d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 59/68] Revert "fix: Couette flow 2D: unstructured mesh fills
 domains of any size"

This reverts commit 571d4faa2168c4256d4b9976cba8077a13919e00.
---
 src/library/natrium/benchmarks/CouetteFlow2D.cpp | 2 +-
 src/library/natrium/benchmarks/CouetteFlow2D.h   | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/benchmarks/CouetteFlow2D.cpp b/src/library/natrium/benchmarks/CouetteFlow2D.cpp
index 6104580..1c565e5 100644
--- a/src/library/natrium/benchmarks/CouetteFlow2D.cpp
+++ b/src/library/natrium/benchmarks/CouetteFlow2D.cpp
@@ -47,7 +47,7 @@ void CouetteFlow2D::transform(Mesh<2>& mesh){
 
 	// transform grid
 	if (m_isUnstructured) {
-		dealii::GridTools::transform(UnstructuredGridFunc(getCharacteristicLength()), mesh);
+		dealii::GridTools::transform(UnstructuredGridFunc(), mesh);
 	}
 
 	std::ofstream out("grid-couette.eps");
diff --git a/src/library/natrium/benchmarks/CouetteFlow2D.h b/src/library/natrium/benchmarks/CouetteFlow2D.h
index 3269268..3df525e 100644
--- a/src/library/natrium/benchmarks/CouetteFlow2D.h
+++ b/src/library/natrium/benchmarks/CouetteFlow2D.h
@@ -81,12 +81,8 @@ private:
 	 * @short function to generate the unstructured mesh grid
 	 */
 	struct UnstructuredGridFunc {
-		double m_L;
-		UnstructuredGridFunc(double L) :
-				m_L(L) {
-		}
 		double trans(const double y) const {
-			return m_L * (std::tanh(4 * (y / m_L - 0.5)) / tanh(2) / 2 + 0.5);
+			return std::tanh(4 * (y - 0.5)) / tanh(2) / 2 + 0.5;
 		}
 		dealii::Point<2> operator()(const dealii::Point<2> &in) const {
 			return dealii::Point<2>(in(0), trans(in(1)));
-- 
2.43.0


From de41a3daaa2078b535d54492d2048728d269c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 60/68] Revert "fix: Couette flow 3D: plates at distance one,
 unstructured mesh keeps its third coordinate"

This reverts commit b46a3314bc1d56288718eaaa9119ba8b283efa51.
---
 src/library/natrium/benchmarks/CouetteFlow3D.cpp | 3 +--
 src/library/natrium/benchmarks/CouetteFlow3D.h   | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/benchmarks/CouetteFlow3D.cpp b/src/library/natrium/benchmarks/CouetteFlow3D.cpp
index 298944e..0528446 100644
--- a/src/library/natrium/benchmarks/CouetteFlow3D.cpp
+++ b/src/library/natrium/benchmarks/CouetteFlow3D.cpp
@@ -108,8 +108,7 @@ double CouetteFlow3D::AnalyticVelocity::value(const dealii::Point<3>& x,
 		// the analytic solution is given by an asymptotic series
 		double t = this->get_time();
 		double U = m_benchmark->getCharacteristicVelocity();
-		// distance of the plates; the domain is [0,L] x [0,1] x [0,1]
-		const double L = 1.0;
+		double L = m_benchmark->getCharacteristicLength();
 		double t0 = m_benchmark->getStartTime();
 		double nu = m_benchmark->getViscosity();
 
diff --git a/src/library/natrium/benchmarks/CouetteFlow3D.h b/src/library/natrium/benchmarks/CouetteFlow3D.h
index b4142c3..72f922f 100644
--- a/src/library/natrium/benchmarks/CouetteFlow3D.h
+++ b/src/library/natrium/benchmarks/CouetteFlow3D.h
@@ -96,7 +96,7 @@ private:
 	  dealii::Point<3> operator() (const dealii::Point<3> &in) const
 	  {
 	    return dealii::Point<3> (in(0),
-	                     trans(in(1)), in(2));
+	                     trans(in(1)));
 	  }
 	};
 
-- 
2.43.0


From 1b6fba13ddac7669e18b13a9c73a6fb9f1cd6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 61/68] Revert "fix: the analytic Taylor-Green vortex decays
 and travels correctly for domains other than 2 pi"

This reverts commit bbe61ac2d24148d17eea73865cd8cea17693109b.
---
 .../natrium/benchmarks/TaylorGreenVortex2D.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/library/natrium/benchmarks/TaylorGreenVortex2D.cpp b/src/library/natrium/benchmarks/TaylorGreenVortex2D.cpp
index 2fbeade..2306c19 100644
--- a/src/library/natrium/benchmarks/TaylorGreenVortex2D.cpp
+++ b/src/library/natrium/benchmarks/TaylorGreenVortex2D.cpp
@@ -36,15 +36,12 @@ TaylorGreenVortex2D::~TaylorGreenVortex2D() {
 double TaylorGreenVortex2D::AnalyticVelocity::value(const dealii::Point<2>& x,
 		const unsigned int component) const {
 	assert(component < 2);
-	// wave number
-	const double k = (2*M_PI)/m_flow->m_L;
-	const double phase_x = k * (x(0) - m_flow->getHorizontalVelocity() * this->get_time());
-	const double phase_y = k * x(1);
-	const double decay = exp(-2 * m_flow->getViscosity() * k * k * this->get_time());
 	if (component == 0) {
-		return m_flow->getHorizontalVelocity() + sin(phase_x) * cos(phase_y) * decay;
+		return m_flow->getHorizontalVelocity() + sin(x(0)*(2*M_PI)/m_flow->m_L - m_flow->getHorizontalVelocity() * this->get_time()) * cos(x(1)*(2*M_PI)/m_flow->m_L)
+				* exp(-2 * m_flow->getViscosity() * this->get_time()*(2*M_PI)/m_flow->m_L);
 	} else {
-		return -cos(phase_x) * sin(phase_y) * decay;
+		return -cos(x(0)*(2*M_PI)/m_flow->m_L - m_flow->getHorizontalVelocity() * this->get_time()) * sin(x(1)*(2*M_PI)/m_flow->m_L)
+				* exp(-2 * m_flow->getViscosity() * this->get_time()*(2*M_PI)/m_flow->m_L);
 	}
 	return 0;
 }
@@ -54,11 +51,8 @@ double TaylorGreenVortex2D::AnalyticDensity::value(const dealii::Point<2>& x,
 	assert (component == 0);
 	if (m_flow->m_analyticInit) {
 		double rho0 = 1;
-		const double k = (2*M_PI)/m_flow->m_L;
-		const double phase_x = k * (x(0) - m_flow->getHorizontalVelocity() * this->get_time());
-		const double phase_y = k * x(1);
-		double p = rho0 / 4. * (cos(2 * phase_x) + cos(2 * phase_y))
-				* exp(-4 * m_flow->getViscosity() * k * k * this->get_time());
+		double p = rho0 / 4. * (cos(2 * (x(0)*(2*M_PI)/m_flow->m_L - m_flow->getHorizontalVelocity() * this->get_time())) + cos(2 * x(1)*(2*M_PI)/m_flow->m_L))
+				* exp(-4 * m_flow->getViscosity() * this->get_time()*(2*M_PI)/m_flow->m_L);
 		return rho0 + p / (m_flow->m_cs * m_flow->m_cs);
 	} else {
 		return 1.0;
-- 
2.43.0


From 22f11d83db0a4a48343294e3dfc734b855c50f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 62/68] fix: processes without degrees of freedom take part in
 the collision

---
 src/library/natrium/collision_advanced/CollisionOperator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionOperator.h b/src/library/natrium/collision_advanced/CollisionOperator.h
index 09a6801..d773203 100644
--- a/src/library/natrium/collision_advanced/CollisionOperator.h
+++ b/src/library/natrium/collision_advanced/CollisionOperator.h
@@ -103,7 +103,7 @@ public:
 
 		}
 
-        if (1e-10 >= genData.density) {
+        if (length > 0 and 1e-10 >= genData.density) {
             throw DensityZeroException(
                     "Density too small in collision. Decrease time step size.");
         }
@@ -215,7 +215,7 @@ public:
 
 		}
 
-        if (1e-10 >= genData.density) {
+        if (length > 0 and 1e-10 >= genData.density) {
             throw DensityZeroException(
                     "Density too small in collision. Decrease time step size.");
         }
-- 
2.43.0


From 993f30b8299ca33aa9d1659a82af0aff42d22217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 63/68] fix: only the first process opens the error tables

---
 src/library/natrium/solver/CompressibleErrorStats.cpp | 8 ++++++--
 src/library/natrium/solver/ErrorStats.cpp             | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/solver/CompressibleErrorStats.cpp b/src/library/natrium/solver/CompressibleErrorStats.cpp
index 49877c4..fb35972 100644
--- a/src/library/natrium/solver/CompressibleErrorStats.cpp
+++ b/src/library/natrium/solver/CompressibleErrorStats.cpp
@@ -35,11 +35,15 @@ namespace natrium {
 
         // create file (if necessary)
         if (m_solver->getIterationStart() > 0) {
-            m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+            if (is_MPI_rank_0()) {
+                m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
                                                                  std::fstream::out | std::fstream::app);
+            }
         } else {
-            m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+            if (is_MPI_rank_0()) {
+                m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
                                                                  std::fstream::out);
+            }
             printHeaderLine();
         }
         MPI_sync();
diff --git a/src/library/natrium/solver/ErrorStats.cpp b/src/library/natrium/solver/ErrorStats.cpp
index 80ad3fd..dbbb76e 100644
--- a/src/library/natrium/solver/ErrorStats.cpp
+++ b/src/library/natrium/solver/ErrorStats.cpp
@@ -30,11 +30,15 @@ ErrorStats<dim>::ErrorStats(BenchmarkCFDSolver<dim> * cfdsolver,
 
 	// create file (if necessary)
 	if (m_solver->getIterationStart() > 0) {
-		m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+		if (is_MPI_rank_0()) {
+			m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
 				std::fstream::out | std::fstream::app);
+		}
 	} else {
-		m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+		if (is_MPI_rank_0()) {
+			m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
 				std::fstream::out);
+		}
 		printHeaderLine();
 	}
 	MPI_sync();
-- 
2.43.0


From af05eac6c17b25a63e5d727725d26c473d2dfd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 64/68] fix: implicit time integrators reinitialize their
 matrix on all processes or none

---
 .../natrium/timeintegration/DealIIWrapper.cpp  |  6 ++++--
 .../natrium/timeintegration/ThetaMethod.cpp    | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index aeadade..6962039 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -426,8 +426,10 @@ distributed_block_vector natrium::DealIIWrapper<distributed_sparse_block_matrix,
 	distributed_block_vector result = f;
 
 	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption()
-			!= m_systemMatrix->memory_consumption()) {
+	const bool new_pattern = m_tmpMatrix.memory_consumption()
+			!= m_systemMatrix->memory_consumption();
+	// all processes have to reinitialize the matrix if one of them has to
+	if (dealii::Utilities::MPI::max((int) new_pattern, MPI_COMM_WORLD)) {
 		size_t n_blocks = m_systemMatrix->n_block_rows();
 		assert(
 				m_systemMatrix->n_block_cols()
diff --git a/src/library/natrium/timeintegration/ThetaMethod.cpp b/src/library/natrium/timeintegration/ThetaMethod.cpp
index e70e3d1..dec718e 100644
--- a/src/library/natrium/timeintegration/ThetaMethod.cpp
+++ b/src/library/natrium/timeintegration/ThetaMethod.cpp
@@ -77,7 +77,10 @@ template<> double ThetaMethod<distributed_sparse_matrix, distributed_vector>::st
 	reinitVector(m_tmpSystemVector, f);
 	// check equality of sparsity patterns
 	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption() != systemMatrix.memory_consumption()) {
+	const bool new_pattern = m_tmpMatrix.memory_consumption()
+			!= systemMatrix.memory_consumption();
+	// all processes have to reinitialize the matrix if one of them has to
+	if (dealii::Utilities::MPI::max((int) new_pattern, MPI_COMM_WORLD)) {
 		m_tmpMatrix.copy_from(systemMatrix);
 	}
 
@@ -94,7 +97,8 @@ template<> double ThetaMethod<distributed_sparse_matrix, distributed_vector>::st
 	// I-theta*dt*A
 	m_tmpMatrix *= (-m_theta);
 	for (size_t i = 0; i < m_tmpMatrix.n(); i++) {
-		m_tmpMatrix.add(i, i, 1.0);
+		if (m_tmpMatrix.in_local_range(i))
+			m_tmpMatrix.add(i, i, 1.0);
 	}
 	// (I-theta*dt*A)f(t) + dt*A*f(t) + dt*b
 	{
@@ -182,9 +186,12 @@ template<> double ThetaMethod<distributed_sparse_block_matrix,
 
 	reinitVector(m_tmpSystemVector, f);
 	// check equality of sparsity patterns
-	if ((m_tmpMatrix.n_block_rows() != systemMatrix.n_block_rows())
+	const bool new_pattern = (m_tmpMatrix.n_block_rows()
+			!= systemMatrix.n_block_rows())
 			or (m_tmpMatrix.memory_consumption()
-					!= systemMatrix.memory_consumption())) {
+					!= systemMatrix.memory_consumption());
+	// all processes have to reinitialize the matrix if one of them has to
+	if (dealii::Utilities::MPI::max((int) new_pattern, MPI_COMM_WORLD)) {
 		size_t n_blocks = systemMatrix.n_block_rows();
 		assert(systemMatrix.n_block_cols() == systemMatrix.n_block_rows());
 		m_tmpMatrix.reinit(n_blocks, n_blocks);
@@ -216,7 +223,8 @@ template<> double ThetaMethod<distributed_sparse_block_matrix,
 	m_tmpMatrix *= (-m_theta);
 	for (size_t I = 0; I < m_tmpMatrix.n_block_cols(); I++) {
 		for (size_t i = 0; i < m_tmpMatrix.block(I, I).n(); i++) {
-			m_tmpMatrix.block(I, I).add(i, i, 1.0);
+			if (m_tmpMatrix.block(I, I).in_local_range(i))
+				m_tmpMatrix.block(I, I).add(i, i, 1.0);
 		}
 	}
 
-- 
2.43.0


From 72a5e672fd117036210931c306a105051e7a321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 65/68] fix: the maximal density deviation is taken over all
 processes

---
 src/library/natrium/solver/CFDSolver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.h b/src/library/natrium/solver/CFDSolver.h
index c105fd1..f70b48f 100644
--- a/src/library/natrium/solver/CFDSolver.h
+++ b/src/library/natrium/solver/CFDSolver.h
@@ -283,13 +283,14 @@ public:
 
 	double getMaxDensityDeviationFrom(double referenceDensity) const {
 		double maxdev = 0.0;
-		for (size_t i = 0; i < getNumberOfDoFs(); i++) {
+		//for all degrees of freedom on current processor
+		for (size_t i : m_advectionOperator->getLocallyOwnedDofs()) {
 			double dev = fabs(m_density(i) - referenceDensity);
 			if (dev > maxdev) {
 				maxdev = dev;
 			}
 		}
-		return maxdev;
+		return dealii::Utilities::MPI::max(maxdev, MPI_COMM_WORLD);
 	}
 
 	size_t getIterationStart() const {
-- 
2.43.0


From 0bc2439fd2bf7582a2ed38127b165f6958413256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 66/68] fix: regularization schemes that are not implemented
 are refused

---
 .../natrium/dataprocessors/PseudoEntropicStabilizer.h        | 5 +++++
 src/library/natrium/solver/CFDSolver.cpp                     | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/library/natrium/dataprocessors/PseudoEntropicStabilizer.h b/src/library/natrium/dataprocessors/PseudoEntropicStabilizer.h
index 43794b3..3fbcf38 100755
--- a/src/library/natrium/dataprocessors/PseudoEntropicStabilizer.h
+++ b/src/library/natrium/dataprocessors/PseudoEntropicStabilizer.h
@@ -41,6 +41,11 @@ public:
 		DataProcessor<dim>(solver),
 		m_withE(with_e) {
 		LOG(BASIC) << "Starting pseudo-entropic stabilizer." << endl;
+		const StencilType stencil = solver.getStencil()->getStencilType();
+		if (not ((Stencil_D2Q9 == stencil)
+				or ((Stencil_D3Q19 == stencil) and (not with_e))))
+			throw NotImplementedException(
+					"The pseudo-entropic stabilizer is not implemented for this stencil.");
 
 	}
 
diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 5fc132f..212c896 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -619,6 +619,9 @@ CFDSolver<dim>::CFDSolver(boost::shared_ptr<SolverConfiguration> configuration,
 				boost::make_shared<PseudoEntropicStabilizer<dim> >(*this,
 						true));
 		LOG(BASIC) << "Using Pseudo-Entropic Stabilizer." << endl;
+	} else if (configuration->getRegularizationScheme() != NO_REGULARIZATION) {
+		throw CFDSolverException(
+				"The chosen regularization scheme is not implemented.");
 	}
 
 	// print out memory requirements of single components
-- 
2.43.0


From 5599c58b934d97a73d8a41032f8b5bc641c240d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 67/68] fix: boundary conditions get the viscosity of the
 problem

---
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.cpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index 02f852e..39eb1cd 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -35,7 +35,8 @@ template<size_t dim>
 void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
 		const DistributionFunctions& f_old, double t) {
 
-    GlobalBoundaryData g_data(f_old, f_new, m_stencil, 0.1, m_timeStep);
+    GlobalBoundaryData g_data(f_old, f_new, m_stencil,
+			m_problem.getViscosity(), m_timeStep);
     operate(g_data,t);
 }
 
@@ -43,7 +44,8 @@ template<size_t dim>
 void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
                                                const DistributionFunctions& f_old, DistributionFunctions& g, double t) {
 
-    GlobalBoundaryData g_data(f_old, f_new, g, m_stencil, 0.1, m_timeStep);
+    GlobalBoundaryData g_data(f_old, f_new, g, m_stencil,
+			m_problem.getViscosity(), m_timeStep);
     operate(g_data,t);
 }
 
-- 
2.43.0


From d3f7512b5a97fb77e17fac1263510a602228160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:13 +0000
Subject: [PATCH 68/68] fix: points across a periodic boundary are right for
 cells that are rotated against each other

---
 .../natrium/boundaries/PeriodicBoundary.cpp   | 89 +------------------
 1 file changed, 4 insertions(+), 85 deletions(-)

diff --git a/src/library/natrium/boundaries/PeriodicBoundary.cpp b/src/library/natrium/boundaries/PeriodicBoundary.cpp
index 9282836..6cf530e 100644
--- a/src/library/natrium/boundaries/PeriodicBoundary.cpp
+++ b/src/library/natrium/boundaries/PeriodicBoundary.cpp
@@ -184,72 +184,8 @@ dealii::Point<dim> PeriodicBoundary<dim>::coordinatesAcrossPeriodicBoundary(
 
 	// get face ids and cell iterators
 	FacePair<dim> face_pair = m_cells.at(cell);
-	std::bitset<3> orientation = face_pair.orientation;
-
-	// determine how cell[0]->face[0]->vertex(i) is transformed into cell[1]->face[1]->vertex(j)
-
-	// relative orientation of face0 with respect to face1; see documentation of dealii::GridTools::orthogonal_equality()
-	size_t face1_to_face0_vertex[dealii::GeometryInfo<dim>::vertices_per_face];
-	if (3 == dim) {
-		size_t h[dealii::GeometryInfo<dim>::vertices_per_face];
-		face1_to_face0_vertex[0] = 0;
-		face1_to_face0_vertex[1] = 1;
-		face1_to_face0_vertex[2] = 2;
-		face1_to_face0_vertex[3] = 3;
-		if (orientation[0]) {
-			//face_orientation
-			face1_to_face0_vertex[0] = 0;
-			face1_to_face0_vertex[1] = 2;
-			face1_to_face0_vertex[2] = 1;
-			face1_to_face0_vertex[3] = 3;
-		}
-		if (orientation[1]) {
-			// face flip
-			h[0] = face1_to_face0_vertex[0];
-			h[1] = face1_to_face0_vertex[1];
-			h[2] = face1_to_face0_vertex[2];
-			h[3] = face1_to_face0_vertex[3];
-			for (size_t i = 0; i < 4; i++) {
-				if (0 == h[i])
-					face1_to_face0_vertex[i] = 3;
-				if (1 == h[i])
-					face1_to_face0_vertex[i] = 2;
-				if (2 == h[i])
-					face1_to_face0_vertex[i] = 1;
-				if (3 == h[i])
-					face1_to_face0_vertex[i] = 0;
-			}
-		}
-		if (orientation[2]) {
-			// face flip
-			h[0] = face1_to_face0_vertex[0];
-			h[1] = face1_to_face0_vertex[1];
-			h[2] = face1_to_face0_vertex[2];
-			h[3] = face1_to_face0_vertex[3];
-			for (size_t i = 0; i < 4; i++) {
-				if (0 == h[i])
-					face1_to_face0_vertex[i] = 1;
-				if (1 == h[i])
-					face1_to_face0_vertex[i] = 3;
-				if (2 == h[i])
-					face1_to_face0_vertex[i] = 0;
-				if (3 == h[i])
-					face1_to_face0_vertex[i] = 2;
-			}
-		}
-	} else {
-		assert(2 == dim);
-		face1_to_face0_vertex[0] = 0;
-		face1_to_face0_vertex[1] = 1;
-		// in 2D: face orientation = true; face_rotation = false
-		if (orientation[1]) {
-			// face flip
-			face1_to_face0_vertex[0] = 1;
-			face1_to_face0_vertex[1] = 0;
-		}
-	}
-
-	// calculate offset (face1->face0)
+	// calculate offset (face1->face0) from the centers of the faces, because
+	// the order of the vertices differs if the cells are rotated against each other
 	const size_t mdim = dim;
 	numeric_matrix matrix( mdim );
 	matrix(0,0) = 1;
@@ -263,26 +199,9 @@ dealii::Point<dim> PeriodicBoundary<dim>::coordinatesAcrossPeriodicBoundary(
 	for (size_t i = 0; i < dim; i++) {
 		for (size_t j = 0; j < dim; j++)
 			offset[i] += matrix(i, j)
-					* face_pair.cell[0]->face(face_pair.face_idx[0])->vertex(
-							face1_to_face0_vertex[0])[j];
-		offset[i] -= face_pair.cell[1]->face(face_pair.face_idx[1])->vertex(0)[i];
-	}
-
-#ifdef DEBUG
-	// check whether the same offset applies to all other vertices
-	for (size_t i = 0; i < dealii::GeometryInfo<dim>::vertices_per_face;
-			i++) {
-		dealii::Tensor<1, dim> offset_test;
-		for (size_t i = 0; i < dim; i++) {
-			for (size_t j = 0; j < dim; j++)
-			offset_test[i] += matrix(i,j) * face_pair.cell[0]->face(face_pair.face_idx[0])->vertex(
-					face1_to_face0_vertex[0])[j];
-			offset_test[i] -= face_pair.cell[1]->face(face_pair.face_idx[1])->vertex(0)[i];
-		}
-		offset_test -= offset;
-		assert(offset_test.norm_square() < 1e-15);
+					* face_pair.cell[0]->face(face_pair.face_idx[0])->center()[j];
+		offset[i] -= face_pair.cell[1]->face(face_pair.face_idx[1])->center()[i];
 	}
-#endif
 
 	// transform point
 	dealii::Point < dim > result;
-- 
2.43.0

