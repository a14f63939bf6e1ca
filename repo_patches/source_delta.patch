From 605650667b7c2ed1ed27ebd2b7b30a50d8e6e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 01/58] fix: report failed writes and truncated files in the
 state loggers

saveState ignored every I/O error, so a full disk lost the logged state
silently, and readState returned whatever was in memory for a missing or
truncated file.
---
 src/common/data_logging.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/common/data_logging.hpp b/src/common/data_logging.hpp
index c9afab9..7c95504 100644
--- a/src/common/data_logging.hpp
+++ b/src/common/data_logging.hpp
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <filesystem>
 #include <fstream>
+#include <stdexcept>
 #include <string>
 #include <variant>
 
@@ -40,6 +41,11 @@ public:
       {
          file << data[i] << "\n";
       }
+      file.close();
+      if (!file)
+      {
+         throw std::runtime_error("ASCIILogger: failed to write " + filename);
+      }
    }
 
    static void readState(const std::string &fieldname,
@@ -55,12 +61,21 @@ public:
 
       int size = 0;
       infile >> size;
+      if (!infile || size < 0)
+      {
+         throw std::runtime_error("ASCIILogger: failed to read " + filename);
+      }
 
       state.SetSize(size);
       for (int i = 0; i < size; ++i)
       {
          infile >> state(i);
       }
+      // every line ends with a newline, without it the file was cut short
+      if (infile.get() != '\n')
+      {
+         throw std::runtime_error("ASCIILogger: failed to read " + filename);
+      }
    }
 
 private:
@@ -87,6 +102,11 @@ public:
       file.write(reinterpret_cast<const char *>(&size), sizeof(int));  // NOLINT
       file.write(reinterpret_cast<const char *>(data),                 // NOLINT
                  std::streamsize(size * sizeof(double)));
+      file.close();
+      if (!file)
+      {
+         throw std::runtime_error("BinaryLogger: failed to write " + filename);
+      }
    }
 
    static void readState(const std::string &fieldname,
@@ -101,10 +121,18 @@ public:
       infile.read(reinterpret_cast<char *>(&time), sizeof(double));  // NOLINT
       int size = 0;
       infile.read(reinterpret_cast<char *>(&size), sizeof(int));  // NOLINT
+      if (!infile || size < 0)
+      {
+         throw std::runtime_error("BinaryLogger: failed to read " + filename);
+      }
       state.SetSize(size);
       auto *data = state.GetData();
       infile.read(reinterpret_cast<char *>(data),  // NOLINT
                   std::streamsize(size * sizeof(double)));
+      if (!infile)
+      {
+         throw std::runtime_error("BinaryLogger: failed to read " + filename);
+      }
    }
 
 private:
-- 
2.43.0


From 1d3fdca440c4f4d8687ecee5514ba59669f92924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 02/58] fix: measure the line search merit function over all
 ranks

Phi used the norm of the local part of the residual, so in parallel the
ranks of a RelaxedNewton solve took different steps, and different numbers
of residual evaluations, which are collective.
---
 src/common/linesearch.cpp     | 22 ++++++++++++++++++----
 src/common/linesearch.hpp     |  5 ++++-
 src/common/relaxed_newton.cpp |  2 +-
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 2d3cd77..fb778cd 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -51,6 +51,18 @@ double cubic_interp(double phi0,
    }
 }
 
+/// inner product of vectors distributed over \a comm (null if they are not)
+double innerProduct(MPI_Comm comm, const mfem::Vector &x, const mfem::Vector &y)
+{
+   return comm == MPI_COMM_NULL ? x * y : mfem::InnerProduct(comm, x, y);
+}
+
+/// l2 norm of a vector distributed over \a comm (null if it is not)
+double norm(MPI_Comm comm, const mfem::Vector &x)
+{
+   return comm == MPI_COMM_NULL ? x.Norml2() : sqrt(innerProduct(comm, x, x));
+}
+
 }  // namespace
 
 namespace miso
@@ -110,18 +122,20 @@ Phi::Phi(std::function<void(const mfem::Vector &x, mfem::Vector &res)> calcRes,
          const mfem::Vector &state,
          const mfem::Vector &descent_dir,
          mfem::Vector &residual,
-         mfem::Operator &jac)
+         mfem::Operator &jac,
+         MPI_Comm comm)
  : calcRes(std::move(calcRes)),
    state(state),
    descent_dir(descent_dir),
    scratch(state.Size()),
    residual(residual),
-   phi0(residual.Norml2()),
+   comm(comm),
+   phi0(norm(comm, residual)),
    dphi0(
        [&]()
        {
           jac.Mult(descent_dir, scratch);
-          return -(scratch * residual) / phi0;
+          return -innerProduct(comm, scratch, residual) / phi0;
           //  return -phi0;
        }())
 { }
@@ -132,7 +146,7 @@ double Phi::operator()(double alpha)
    add(state, -alpha, descent_dir, scratch);
 
    calcRes(scratch, residual);
-   return residual.Norml2();
+   return norm(comm, residual);
 }
 
 }  // namespace miso
diff --git a/src/common/linesearch.hpp b/src/common/linesearch.hpp
index 049f787..d1130b6 100644
--- a/src/common/linesearch.hpp
+++ b/src/common/linesearch.hpp
@@ -41,7 +41,8 @@ public:
        const mfem::Vector &state,
        const mfem::Vector &descent_dir,
        mfem::Vector &residual,
-       mfem::Operator &jac);
+       mfem::Operator &jac,
+       MPI_Comm comm = MPI_COMM_NULL);
 
    double operator()(double alpha);
 
@@ -51,6 +52,8 @@ private:
    const mfem::Vector &descent_dir;
    mfem::Vector scratch;
    mfem::Vector &residual;
+   /// communicator the vectors are distributed over (null if they are not)
+   MPI_Comm comm;
 
 public:
    const double phi0;
diff --git a/src/common/relaxed_newton.cpp b/src/common/relaxed_newton.cpp
index 111e7b3..8c62c0d 100644
--- a/src/common/relaxed_newton.cpp
+++ b/src/common/relaxed_newton.cpp
@@ -78,7 +78,7 @@ double RelaxedNewton::ComputeScalingFactor(const mfem::Vector &x,
       }
    };
 
-   Phi phi(calcRes, x, c, r, *grad);
+   Phi phi(calcRes, x, c, r, *grad, GetComm());
 
    return ls->search(phi, phi.phi0, phi.dphi0, 1.0);
 }
-- 
2.43.0


From 9cf5ab377b21fc5b5616507e8b7a61cb9814c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 03/58] fix: do not accept a line search step whose merit
 function is NaN

A NaN compares false, so a step into a region where the residual cannot be
evaluated was accepted, and the interpolants then produced NaN steps.
---
 src/common/linesearch.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index fb778cd..5d47ba7 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <functional>
 
 #include "mfem.hpp"
@@ -80,7 +81,8 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
    int iter = 0;
    // std::cout << "linesearch iter 0: phi(0) = " << phi0
    //           << ", dphi(0)/dalpha = " << dphi0 << "\n";
-   while (phi2 > phi0 + mu * alpha2 * dphi0)
+   // negated so that a NaN phi2 counts as a failure to decrease
+   while (!(phi2 <= phi0 + mu * alpha2 * dphi0))
    {
       iter += 1;
       // std::cout << "linesearch iter " << iter << ": alpha = " << alpha2
@@ -104,6 +106,11 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
       {
          alpha_tmp = cubic_interp(phi0, dphi0, phi1, alpha1, phi2, alpha2);
       }
+      if (!std::isfinite(alpha_tmp))
+      {
+         // phi was not finite, so neither is its interpolant
+         alpha_tmp = alpha2 * rho_lo;
+      }
       alpha1 = alpha2;
       phi1 = phi2;
 
-- 
2.43.0


From fe8d6c525373468df5666434141acfcb75b729a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 04/58] fix: do not accept an inexact Newton step whose
 residual is NaN

---
 src/common/inexact_newton.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index 0e3bdfd..f2c0e56 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -38,7 +38,8 @@ double InexactNewton::ComputeStepSize(const Vector &x,
 
    // Globalization start from here.
    int itt = 0;
-   while (err_new > (1 - t * (1 - theta)) * norm)
+   // negated so that a NaN err_new counts as a failure to decrease
+   while (!(err_new <= (1 - t * (1 - theta)) * norm))
    {
       double p1 = 0.5 * err_new * err_new;
       // Quadratic interpolation between [0,1]
-- 
2.43.0


From 41630ef43c8957cdb90f63da449fb33238a7455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 05/58] fix: sign of the line search step when the cubic term
 vanishes

The minimiser of phi0 + dphi0 * alpha + b * alpha^2 is -dphi0 / (2 * b); the
negative step was then clipped to the smallest one allowed.
---
 src/common/linesearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 5d47ba7..3055d66 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -41,7 +41,7 @@ double cubic_interp(double phi0,
 
    if (abs(a) < std::numeric_limits<double>::epsilon())
    {
-      return dphi0 / (2 * b);
+      return -dphi0 / (2 * b);
    }
    else
    {
-- 
2.43.0


From 549375e38e03cad476c94749959c3462f0f1d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 06/58] fix: use the projector's quadrature rule for its mesh
 sensitivities

The forward operators are assembled with the given rule, but the mesh
sensitivity integrators used their own defaults, so the derivative with
respect to the mesh nodes was inconsistent on curved and non-affine elements.
---
 src/utils/irrotational_projector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/irrotational_projector.cpp b/src/utils/irrotational_projector.cpp
index fb59dca..6ba3331 100644
--- a/src/utils/irrotational_projector.cpp
+++ b/src/utils/irrotational_projector.cpp
@@ -42,8 +42,10 @@ IrrotationalProjector::IrrotationalProjector(ParFiniteElementSpace &h1_fes,
    auto &mesh_fes = *x_nodes.ParFESpace();
    mesh_sens.Update(&mesh_fes);
 
+   diff_mesh_sens->SetIntRule(ir);
    mesh_sens.AddDomainIntegrator(diff_mesh_sens);
 
+   div_mesh_sens->SetIntRule(ir);
    mesh_sens.AddDomainIntegrator(div_mesh_sens);
 }
 
-- 
2.43.0


From f34c40ec44a5103966fceb0d3e991ea22277b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 07/58] fix: evaluate the time-dependent residual at the
 nonlinear solver's iterate

The residual ignored the iterate and used the time derivative it was last
given through setInputs.  That is the storage Newton updates in place, but
not the trial points of a line search, so relaxed Newton never moved.
---
 src/common/ode.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index f4a4a82..b3985cc 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -48,6 +48,20 @@ void addJacobians(mfem::Operator &A,
 
 }  // namespace miso
 
+namespace
+{
+/// \brief Makes `state_dot` refer to the time derivative in `inputs`, if any
+/// \note The unknown of the (implicit) system is the time derivative, so the
+/// nonlinear solver passes its iterates, and the trial points of a line
+/// search, using the key "state".
+void setStateDot(const miso::MISOInputs &inputs, mfem::Vector &state_dot)
+{
+   const auto *key = inputs.count("state_dot") != 0 ? "state_dot" : "state";
+   miso::setVectorFromInputs(inputs, key, state_dot);
+}
+
+}  // namespace
+
 namespace miso
 {
 int getSize(const TimeDependentResidual &residual)
@@ -99,6 +113,7 @@ void evaluate(TimeDependentResidual &residual,
    auto &dt = residual.dt;
    auto &state = residual.state;
    auto &state_dot = residual.state_dot;
+   setStateDot(inputs, state_dot);
    auto &work = residual.work;
    if (dt == 0.0)
    {
@@ -128,6 +143,7 @@ mfem::Operator &getJacobian(TimeDependentResidual &residual,
 
    auto &state = residual.state;
    auto &state_dot = residual.state_dot;
+   setStateDot(inputs, state_dot);
    auto &work = residual.work;
    add(state, dt, state_dot, work);
    MISOInputs input{{"state", work}};
-- 
2.43.0


From 51c83312574ca7873490f64e33e3c539ec21d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 08/58] fix: log the final state under its own step number

The terminal hook was called with the number of the last step, so the final
state replaced the logged state that step started from (after a single step,
the initial state).
---
 src/common/abstract_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index c756032..50476a0 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -109,6 +109,7 @@ void AbstractSolver2::solveForState(const MISOInputs &inputs,
          ode->step(state, t, dt);
          if (iterationExit(ti, t, t_final, dt, state))
          {
+            ++ti;  // the final state is the one after step `ti`
             break;
          }
       }
-- 
2.43.0


From f0a397feaa65794c5b9c816b569a5e055a44512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 09/58] fix: log the initial state at the initial time

---
 src/common/abstract_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 50476a0..7d5e5a0 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -516,13 +516,14 @@ void AbstractSolver2::vectorJacobianProduct(const mfem::Vector &res_bar,
 
 void AbstractSolver2::initialHook(const mfem::Vector &state)
 {
+   auto t_initial = options["time-dis"]["t-initial"].get<double>();
    for (auto &pair : loggers)
    {
       auto &logger = pair.first;
       auto &options = pair.second;
       if (options.initial_state)
       {
-         logState(logger, state, "state", 0, 0.0, rank);
+         logState(logger, state, "state", 0, t_initial, rank);
       }
    }
 }
-- 
2.43.0


From 2bb3c6fb6e835e6a2008a90793ade903b4a8ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:10 +0000
Subject: [PATCH 10/58] fix: size StateIntegrator's shape vector for the
 element

---
 src/physics/mfem_common_integ.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 77259cd..3698853 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -302,6 +302,7 @@ double StateIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
+   shape.SetSize(el.GetDof());
    double fun = 0.0;
    for (int i = 0; i < ir->GetNPoints(); ++i)
    {
@@ -321,6 +322,7 @@ void StateIntegrator::AssembleElementVector(const mfem::FiniteElement &el,
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
+   shape.SetSize(el.GetDof());
    elfun_bar.SetSize(elfun.Size());
    elfun_bar = 0.0;
    for (int i = 0; i < ir->GetNPoints(); ++i)
-- 
2.43.0


From fdbd6f41515c52fcac01c19b0d2dc1e33ff5208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 11/58] fix: shift the aggregate functional by the global
 maximum

---
 src/physics/common_outputs.cpp |  4 +++-
 src/physics/common_outputs.hpp | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index 0804a0e..99e6705 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -197,7 +197,9 @@ IEAggregateFunctional::IEAggregateFunctional(
     mfem::ParFiniteElementSpace &fes,
     std::map<std::string, FiniteElementState> &fields,
     const nlohmann::json &options)
- : numerator(fes, fields, options.value("state", "state")),
+ : state_name(options.value("state", "state")),
+   comm(fes.GetComm()),
+   numerator(fes, fields, options.value("state", "state")),
    denominator(fes, fields, options.value("state", "state"))
 {
    auto rho = options.value("rho", 1.0);
diff --git a/src/physics/common_outputs.hpp b/src/physics/common_outputs.hpp
index 7a91fd9..be15213 100644
--- a/src/physics/common_outputs.hpp
+++ b/src/physics/common_outputs.hpp
@@ -291,9 +291,15 @@ public:
                             const MISOInputs &inputs)
    {
       mfem::Vector state;
-      setVectorFromInputs(inputs, "state", state);
+      setVectorFromInputs(inputs, output.state_name, state);
+      /// the shift must be the same on every rank: it only cancels in the ratio
+      /// of the (globally reduced) integrals if they all use the same value
       double true_max = state.Max();
-      setInputs(output, {{"true_max", true_max}});
+      MPI_Allreduce(
+          MPI_IN_PLACE, &true_max, 1, MPI_DOUBLE, MPI_MAX, output.comm);
+      const MISOInputs max_input{{"true_max", true_max}};
+      setInputs(output.numerator, max_input);
+      setInputs(output.denominator, max_input);
 
       double num = calcOutput(output.numerator, inputs);
       double denom = calcOutput(output.denominator, inputs);
@@ -318,6 +324,8 @@ public:
                          const nlohmann::json &options);
 
 private:
+   std::string state_name;
+   MPI_Comm comm;
    FunctionalOutput numerator;
    FunctionalOutput denominator;
    MISOInputs const *inputs = nullptr;
-- 
2.43.0


From 8cd54174f390e66905be40e5e7a8d7d5812bb062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 12/58] fix: copy the thermal load instead of modifying the
 caller's vector

---
 src/physics/thermal/thermal_residual.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/thermal/thermal_residual.cpp b/src/physics/thermal/thermal_residual.cpp
index c2a1ebc..6909b69 100644
--- a/src/physics/thermal/thermal_residual.cpp
+++ b/src/physics/thermal/thermal_residual.cpp
@@ -23,7 +23,7 @@ void setInputs(ThermalResidual &residual, const miso::MISOInputs &inputs)
 
    setInputs(residual.res, inputs);
 
-   setVectorFromInputs(inputs, "thermal_load", residual.load);
+   setVectorFromInputs(inputs, "thermal_load", residual.load, true);
    if (residual.load.Size() != 0)
    {
       residual.load.SetSubVector(residual.res.getEssentialDofs(), 0.0);
-- 
2.43.0


From d87d5390b9aa551a1f0223d2027d20ec3c385383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 13/58] fix: accumulate the thermal load products and skip
 fixed unknowns

---
 src/physics/thermal/thermal_residual.cpp | 10 ++++++----
 src/physics/thermal/thermal_residual.hpp |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/physics/thermal/thermal_residual.cpp b/src/physics/thermal/thermal_residual.cpp
index 6909b69..457b535 100644
--- a/src/physics/thermal/thermal_residual.cpp
+++ b/src/physics/thermal/thermal_residual.cpp
@@ -105,8 +105,9 @@ void jacobianVectorProduct(ThermalResidual &residual,
       // term Therefore derivative of residual w/r/t thermal_load is negative
       // identity matrix (represented as negative of input vector in matrix-free
       // form)
-      res_dot = 0.0;
-      res_dot.Add(-1.0, wrt_dot);
+      residual.scratch = wrt_dot;
+      residual.scratch.SetSubVector(residual.res.getEssentialDofs(), 0.0);
+      res_dot.Add(-1.0, residual.scratch);
       return;
    }
    // if wrt starts with prefix "temperature"
@@ -141,8 +142,9 @@ void vectorJacobianProduct(ThermalResidual &residual,
       // term Therefore derivative of residual w/r/t thermal_load is negative
       // identity matrix (represented as negative of input vector in matrix-free
       // form)
-      wrt_bar = 0.0;
-      wrt_bar.Add(-1.0, res_bar);
+      residual.scratch = res_bar;
+      residual.scratch.SetSubVector(residual.res.getEssentialDofs(), 0.0);
+      wrt_bar.Add(-1.0, residual.scratch);
       return;
    }
    // if wrt starts with prefix "temperature"
diff --git a/src/physics/thermal/thermal_residual.hpp b/src/physics/thermal/thermal_residual.hpp
index c248df3..1accb22 100644
--- a/src/physics/thermal/thermal_residual.hpp
+++ b/src/physics/thermal/thermal_residual.hpp
@@ -93,6 +93,7 @@ private:
 
    /// Right-hand-side load vector to apply to residual
    mfem::Vector load;
+   mfem::Vector scratch;
 
    /// preconditioner for inverting residual's state Jacobian
    std::unique_ptr<mfem::Solver> prec;
-- 
2.43.0


From 9d9bf1eeaa25c35c25e11d3e51a878830dd04441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 14/58] fix: set boundary values collectively in
 MISONonlinearForm::evaluate

---
 src/physics/miso_nonlinearform.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index ed6284f..9485c89 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -68,18 +68,15 @@ void evaluate(MISONonlinearForm &form,
    setVectorFromInputs(inputs, "state", state, false, true);
    form.nf.Mult(state, res_vec);
 
-   const auto &ess_tdof_list = form.getEssentialDofs();
-   if (ess_tdof_list.Size() == 0)
-   {
-      return;
-   }
-
    if (auto bc_iter = form.nf_fields.find("dirichlet_bc");
        bc_iter != form.nf_fields.end())
    {
+      /// collective: ranks without essential dofs must take part too
       auto &dirichlet_bc = bc_iter->second;
       dirichlet_bc.setTrueVec(form.scratch);
 
+      const auto &ess_tdof_list = form.getEssentialDofs();
+
       for (int i = 0; i < ess_tdof_list.Size(); ++i)
       {
          res_vec(ess_tdof_list[i]) =
-- 
2.43.0


From 658b17d4d17c0650ef33bc7c9d24f4ac898aa30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 15/58] fix: reassemble the Jacobian at the inputs given to
 linearize and the adjoint setup

---
 src/physics/miso_nonlinearform.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 9485c89..f17086a 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -89,14 +89,8 @@ void linearize(MISONonlinearForm &form, const MISOInputs &inputs)
 {
    std::cout << "In linearize!\n";
    setInputs(form, inputs);
-   if (form.jac.Ptr() == nullptr)
-   {
-      getJacobian(form, inputs, "state");
-   }
-   if (form.jac_trans == nullptr)
-   {
-      getJacobianTranspose(form, inputs, "state");
-   }
+   getJacobian(form, inputs, "state");
+   getJacobianTranspose(form, inputs, "state");
 }
 
 mfem::Operator &getJacobian(MISONonlinearForm &form,
@@ -161,6 +155,8 @@ void setUpAdjointSystem(MISONonlinearForm &form,
 {
    // std::cout << "Setting up adjoint system!\n";
 
+   /// the stored Jacobian may be from different inputs
+   getJacobian(form, inputs, "state");
    auto &jac_trans = getJacobianTranspose(form, inputs, "state");
    adj_solver.SetOperator(jac_trans);
 
-- 
2.43.0


From 888de71a96e9a4759170f493cfd729bbfa8a7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 16/58] fix: tell scalar and field inputs apart by type, not by
 local size

---
 src/common/abstract_solver.cpp   | 16 +++++++++++++++-
 src/common/functional_output.cpp |  6 ++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 7d5e5a0..29448ea 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -374,6 +374,20 @@ void AbstractSolver2::calcOutputPartial(const std::string &of,
    }
 }
 
+/// A rank may own a single entry of a field, so the size of the vector alone
+/// does not tell whether @a wrt is a scalar
+static bool isScalarInput(const MISOInputs &inputs,
+                          const std::string &wrt,
+                          const mfem::Vector &wrt_bar)
+{
+   auto input = inputs.find(wrt);
+   if (input == inputs.end())
+   {
+      return wrt_bar.Size() == 1;
+   }
+   return std::holds_alternative<double>(input->second);
+}
+
 void AbstractSolver2::outputJacobianVectorProduct(const std::string &of,
                                                   const MISOInputs &inputs,
                                                   const mfem::Vector &wrt_dot,
@@ -419,7 +433,7 @@ void AbstractSolver2::outputVectorJacobianProduct(const std::string &of,
       }
       auto &output = output_iter->second;
       setInputs(output, inputs);
-      if (wrt_bar.Size() == 1)
+      if (isScalarInput(inputs, wrt, wrt_bar))
       {
          wrt_bar(0) += miso::vectorJacobianProduct(output, out_bar, wrt);
       }
diff --git a/src/common/functional_output.cpp b/src/common/functional_output.cpp
index 158e5dc..fb848bb 100644
--- a/src/common/functional_output.cpp
+++ b/src/common/functional_output.cpp
@@ -104,13 +104,15 @@ double jacobianVectorProduct(FunctionalOutput &output,
    }
    else
    {
-      if (wrt_dot.Size() == 1)
+      auto wrt_key = wrt.substr(0, wrt.find(':'));
+      /// not decided by the size of wrt_dot: a rank may own a single entry of
+      /// a field
+      if (output.output_sens.count(wrt) == 0)
       {
          Vector state;
          output.func_fields->at("state").setTrueVec(state);
          const auto &state_gf = output.func_fields->at("state").gridFunc();
 
-         auto wrt_key = wrt.substr(0, wrt.find(':'));
          // output.scratch(0) =
          // output.output_scalar_sens.at(wrt).GetEnergy(state);
          // TODO: need to confirm what OpenMDAO expects in terms of parallel
-- 
2.43.0


From f5c8da5ec865e8d2db4a2084760b8637338c69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 17/58] fix: linearize the current load at the given inputs

---
 src/physics/electromagnetics/magnetostatic_residual.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index 5817318..428fe19 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -122,6 +122,8 @@ void evaluate(MagnetostaticResidual &residual,
 
 void linearize(MagnetostaticResidual &residual, const miso::MISOInputs &inputs)
 {
+   /// the load's sensitivities are evaluated at the linearization point as well
+   setInputs(residual, inputs);
    linearize(residual.res, inputs);
 }
 
-- 
2.43.0


From fec55aac9acba0a044a2c705e1622cb712ab8f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 18/58] fix: do not use the 2D current coefficient in 3D
 problems

---
 src/physics/electromagnetics/magnetostatic_residual.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index 428fe19..f0ba60d 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -174,7 +174,8 @@ void jacobianVectorProduct(MagnetostaticResidual &residual,
                            mfem::Vector &res_dot)
 {
    // if wrt starts with prefix "current_density:"
-   if (wrt.rfind("current_density:", 0) == 0)
+   if (residual.current_coeff != nullptr &&
+       wrt.rfind("current_density:", 0) == 0)
    {
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
@@ -200,7 +201,8 @@ double vectorJacobianProduct(MagnetostaticResidual &residual,
                              const std::string &wrt)
 {
    // if wrt starts with prefix "current_density:"
-   if (wrt.rfind("current_density:", 0) == 0)
+   if (residual.current_coeff != nullptr &&
+       wrt.rfind("current_density:", 0) == 0)
    {
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
-- 
2.43.0


From 1e055bee07d2360b398034e9ba7b3bdabf4c4f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 19/58] fix: use the load's quadrature rule for its mesh
 sensitivity

---
 src/physics/mfem_common_integ.cpp | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 3698853..eb6e391 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -3157,27 +3157,8 @@ void DomainLFIntegratorMeshRevSens::AssembleRHSElementVect(
    const IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = [&]()
-      {
-         if (el.Space() == FunctionSpace::Pk)
-         {
-            return 2 * el.GetOrder() - 2;
-         }
-         else
-         {
-            // order = 2*el.GetOrder() - 2;  // <-- this seems to work fine too
-            return 2 * el.GetOrder() + el.GetDim() - 1;
-         }
-      }();
-
-      if (el.Space() == FunctionSpace::rQk)
-      {
-         ir = &RefinedIntRules.Get(el.GetGeomType(), order);
-      }
-      else
-      {
-         ir = &IntRules.Get(el.GetGeomType(), order);
-      }
+      /// must be the rule the primal DomainLFIntegrator uses
+      ir = &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() - 2);
    }
 
    auto &alpha = integ.alpha;
-- 
2.43.0


From 46799195c6c6a4a265094e96863fbf5a7fae272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 20/58] fix: map face nodes to boundary element nodes in mesh
 sensitivities

---
 src/physics/thermal/thermal_integ.cpp | 42 +++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 04c0f4e..2fadc42 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -5,6 +5,34 @@
 #include "thermal_integ.hpp"
 #include "utils.hpp"
 
+namespace
+{
+/// The dofs of a face transformation are those of the mesh face, which may be
+/// oriented differently from the boundary element that lies on it.
+/// \param[in] mesh - the mesh whose nodes describe the boundary element
+/// \param[in] element - boundary element number
+/// \param[out] perm - perm[j] is the boundary element's local index of the
+/// face's j-th node
+void getFaceToBdrElementMap(const mfem::Mesh &mesh,
+                            int element,
+                            mfem::Array<int> &perm)
+{
+   const auto &mesh_fes = *mesh.GetNodalFESpace();
+   mfem::Array<int> bdr_dofs;
+   mfem::Array<int> face_dofs;
+   mesh_fes.GetBdrElementDofs(element, bdr_dofs);
+   const int face = mesh.GetBdrElementEdgeIndex(element);
+   mesh_fes.GetFaceDofs(face, face_dofs);
+
+   perm.SetSize(face_dofs.Size());
+   for (int j = 0; j < face_dofs.Size(); ++j)
+   {
+      perm[j] = bdr_dofs.Find(face_dofs[j]);
+   }
+}
+
+}  // anonymous namespace
+
 namespace miso
 {
 void TestBCIntegrator::AssembleFaceVector(
@@ -1520,6 +1548,10 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
    auto &h = integ.h;
    auto &theta_f = integ.theta_f;
 
+   mfem::Array<int> face_to_bdr;
+   getFaceToBdrElementMap(
+       *state.FESpace()->GetMesh(), element, face_to_bdr);
+
    mesh_coords_bar.SetSize(mesh_ndof * space_dim);
    mesh_coords_bar = 0.0;
    for (int i = 0; i < ir->GetNPoints(); i++)
@@ -1563,7 +1595,8 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
       {
          for (int k = 0; k < space_dim; ++k)
          {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
+            mesh_coords_bar(k * mesh_ndof + face_to_bdr[j]) +=
+                PointMat_bar(k, j);
          }
       }
    }
@@ -1836,6 +1869,10 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
    auto &alpha = integ.alpha;
    auto &flux = integ.flux;
 
+   mfem::Array<int> face_to_bdr;
+   getFaceToBdrElementMap(
+       *state.FESpace()->GetMesh(), element, face_to_bdr);
+
    mesh_coords_bar.SetSize(mesh_ndof * space_dim);
    mesh_coords_bar = 0.0;
    for (int i = 0; i < ir->GetNPoints(); i++)
@@ -1877,7 +1914,8 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
       {
          for (int k = 0; k < space_dim; ++k)
          {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
+            mesh_coords_bar(k * mesh_ndof + face_to_bdr[j]) +=
+                PointMat_bar(k, j);
          }
       }
    }
-- 
2.43.0


From ac4cc52fe76730a9b6bba14931ea62b96e9349f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 21/58] fix: move the neighbouring elements together with the
 mesh

---
 src/physics/finite_element_state.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/physics/finite_element_state.hpp b/src/physics/finite_element_state.hpp
index 68c4230..915d3b1 100644
--- a/src/physics/finite_element_state.hpp
+++ b/src/physics/finite_element_state.hpp
@@ -33,6 +33,14 @@ public:
    void distributeSharedDofs(const mfem::Vector &true_vec) override
    {
       gridFunc().SetFromTrueDofs(true_vec);
+
+      /// if this field holds the mesh's nodes, the neighboring elements across
+      /// shared faces have moved as well
+      auto &mesh = *gridFunc().ParFESpace()->GetParMesh();
+      if (mesh.GetNodes() == &gridFunc())
+      {
+         mesh.ExchangeFaceNbrNodes();
+      }
    }
 
    /// \brief Set the true vector from the grid function values
-- 
2.43.0


From c021154cfd7e5f97c0ee95e53535d0ef31f0b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 22/58] fix: refuse an inverted mesh on every rank

---
 src/physics/pde_solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/physics/pde_solver.cpp b/src/physics/pde_solver.cpp
index 991f102..cf8dad8 100644
--- a/src/physics/pde_solver.cpp
+++ b/src/physics/pde_solver.cpp
@@ -521,6 +521,9 @@ void PDESolver::initialHook(const mfem::Vector &state)
 {
    AbstractSolver2::initialHook(state);
    int inverted_elems = mesh().CheckElementOrientation(false);
+   /// an inverted element on any rank must stop every rank
+   MPI_Allreduce(
+       MPI_IN_PLACE, &inverted_elems, 1, MPI_INT, MPI_SUM, mesh().GetComm());
    if (inverted_elems > 0)
    {
       mesh().PrintVTU("inverted_mesh", mfem::VTKFormat::BINARY, true);
-- 
2.43.0


From 4bcf827b484d7065def07acd1db5ea6c70493cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 23/58] fix: sum of operators with a zero coefficient or of
 rectangular operators

---
 src/common/matrix_operators.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 6412dac..f9af4b4 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -38,16 +38,8 @@ void SumOfOperators::Add(double alpha,
 
 void SumOfOperators::Mult(const Vector &x, Vector &y) const
 {
-   y.SetSize(x.Size());
+   y.SetSize(height);
    const double zero = 1e-16;
-   if (fabs(a) > zero)
-   {
-      oper_a->Mult(x, work_vec);
-      if (fabs(a - 1.0) > zero)
-      {
-         work_vec *= a;
-      }
-   }
    if (fabs(b) > zero)
    {
       oper_b->Mult(x, y);
@@ -56,7 +48,20 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          y *= b;
       }
    }
-   y += work_vec;
+   else
+   {
+      y = 0.0;
+   }
+   if (fabs(a) > zero)
+   {
+      work_vec.SetSize(height);
+      oper_a->Mult(x, work_vec);
+      if (fabs(a - 1.0) > zero)
+      {
+         work_vec *= a;
+      }
+      y += work_vec;
+   }
 }
 
 JacobianFree::JacobianFree(MISOResidual &residual)
-- 
2.43.0


From 8da7f82ed89ce2fdd066335bd9707d49ca4d80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 24/58] fix: SumOfOperators::Add refuses operators of different
 sizes

---
 src/common/matrix_operators.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index f9af4b4..f6b0b4f 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -34,6 +34,13 @@ void SumOfOperators::Add(double alpha,
    b = beta;
    oper_a = &oper1;
    oper_b = &oper2;
+   if ((oper_a->Height() != oper_b->Height()) ||
+       (oper_a->Width() != oper_b->Width()))
+   {
+      throw MISOException("SumOfOperators: Operator sizes are incompatible!\n");
+   }
+   height = oper1.Height();
+   width = oper1.Width();
 }
 
 void SumOfOperators::Mult(const Vector &x, Vector &y) const
-- 
2.43.0


From 2608ca75a0eec317bcf6b860acf3368466403eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 25/58] fix: Jacobian-free product with a zero scaling

---
 src/common/matrix_operators.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index f6b0b4f..a6e5e02 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -115,6 +115,10 @@ void JacobianFree::Mult(const mfem::Vector &x, mfem::Vector &y) const
          y *= scale;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    if (explicit_part)
    {
       // Include contribution from explicit operator, if necessary
-- 
2.43.0


From 851246239960ddb2b43d8685e58bb5145d6e3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 26/58] fix: bisection with a root at an end of the bracket or
 a function that is not a number

---
 src/utils/utils.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 4c345f1..5587d51 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -294,9 +294,17 @@ double bisection(const std::function<double(double)> &func,
 {
    double fl = func(xl);
    double fr = func(xr);
-   if (fl * fr > 0.0)
+   if (fl == 0.0)
    {
-      cerr << "bisection: func(xl)*func(xr) is positive." << endl;
+      return xl;
+   }
+   if (fr == 0.0)
+   {
+      return xr;
+   }
+   if (!(fl * fr < 0.0))
+   {
+      cerr << "bisection: func(xl)*func(xr) is not negative." << endl;
       throw(-1);
    }
    double xm = 0.5 * (xl + xr);
@@ -323,7 +331,7 @@ double bisection(const std::function<double(double)> &func,
       xm = 0.5 * (xl + xr);
       fm = func(xm);
    }
-   if (iter >= maxiter)
+   if (iter >= maxiter || std::isnan(fm))
    {
       cerr << "bisection: failed to find a solution in maxiter." << endl;
       throw(-1);
-- 
2.43.0


From 740bfb1cd7f6e2c6a74523c79a1a1b9d6d89630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 27/58] fix: secant reports that it did not converge

---
 src/utils/utils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 5587d51..9d3af4b 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -363,7 +363,9 @@ double secant(const std::function<double(double)> &func,
    x = x2;
    f = f2;
    int iter = 0;
-   while ((fabs(f) > ftol) && (iter < maxiter))
+   bool converged = fabs(f) <= ftol;
+   while (!converged && (iter < maxiter) && std::isfinite(f1) &&
+          std::isfinite(f2))
    {
       ++iter;
       try
@@ -371,10 +373,8 @@ double secant(const std::function<double(double)> &func,
          double dx = f2 * (x2 - x1) / (f2 - f1);
          x -= dx;
          f = func(x);
-         if (fabs(dx) < xtol)
-         {
-            break;
-         }
+         converged = std::isfinite(x) && std::isfinite(f) &&
+                     ((fabs(f) <= ftol) || (fabs(dx) < xtol));
          x1 = x2;
          f1 = f2;
          x2 = x;
@@ -385,9 +385,9 @@ double secant(const std::function<double(double)> &func,
          cerr << "secant: " << exception.what() << endl;
       }
    }
-   if (iter > maxiter)
+   if (!converged)
    {
-      throw MISOException("secant: maximum number of iterations exceeded");
+      throw MISOException("secant: failed to find a solution in maxiter");
    }
    return x;
 }
-- 
2.43.0


From 509e4044dd93d25e6c830abc0e5c11cb139918c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 28/58] fix: BoundaryEntropy uses the pressure of the
 conservative variables

---
 src/physics/fluidflow/euler_integ_def.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_integ_def.hpp b/src/physics/fluidflow/euler_integ_def.hpp
index 6a8f8f8..5c0518e 100644
--- a/src/physics/fluidflow/euler_integ_def.hpp
+++ b/src/physics/fluidflow/euler_integ_def.hpp
@@ -971,7 +971,10 @@ double BoundaryEntropy<dim, entvar>::calcBndryFun(const mfem::Vector &x,
 {
    // evaluate the entropy, then return the scaled value
    double S = entropy<double, dim, entvar>(q.GetData());
-   double press = pressure<double, dim>(q.GetData());
+   // the pressure is a function of the conservative variables
+   mfem::Vector qcons(q.Size());
+   calcConservativeVars<double, dim, entvar>(q.GetData(), qcons.GetData());
+   double press = pressure<double, dim>(qcons.GetData());
    S += euler::rho_ref*(press - euler::press_ref)/euler::press_ref;
    double scale = control_scale(len_scale, x_actuator, x);
    double dA = sqrt(dot<double, dim>(dir.GetData(), dir.GetData()));
-- 
2.43.0


From 4c9872c198c62e75ffb4a6606480486d6a82b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 29/58] fix: a step at constant CFL number does not pass the
 final time

---
 src/physics/fluidflow/flow_solver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/flow_solver.cpp b/src/physics/fluidflow/flow_solver.cpp
index 7888757..63a1598 100644
--- a/src/physics/fluidflow/flow_solver.cpp
+++ b/src/physics/fluidflow/flow_solver.cpp
@@ -153,8 +153,13 @@ double FlowSolver<dim, entvar>::calcStepSize(int iter,
    // here we call the FlowResidual method for the min time step, which needs
    // the current state; this is provided by the state field of PDESolver,
    // which we access with getState()
-   return getConcrete<FlowResidual<dim, entvar>>(*spatial_res)
-       .minCFLTimeStep(cfl, getState().gridFunc());
+   double dt = getConcrete<FlowResidual<dim, entvar>>(*spatial_res)
+                   .minCFLTimeStep(cfl, getState().gridFunc());
+   if (options["time-dis"].value("exact-t-final", true))
+   {
+      dt = min(dt, t_final - t);
+   }
+   return dt;
 }
 
 template <int dim, bool entvar>
-- 
2.43.0


From 17e68a8dba479bfda614d8526af521a6f93d9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 30/58] fix: the step at constant CFL number follows from the
 current state

---
 src/physics/fluidflow/flow_solver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/flow_solver.cpp b/src/physics/fluidflow/flow_solver.cpp
index 63a1598..a70b4af 100644
--- a/src/physics/fluidflow/flow_solver.cpp
+++ b/src/physics/fluidflow/flow_solver.cpp
@@ -151,10 +151,12 @@ double FlowSolver<dim, entvar>::calcStepSize(int iter,
    // Otherwise, use a constant CFL condition
    auto cfl = options["time-dis"]["cfl"];
    // here we call the FlowResidual method for the min time step, which needs
-   // the current state; this is provided by the state field of PDESolver,
-   // which we access with getState()
+   // the current state; the state field of PDESolver cannot provide it, since
+   // it holds the state the residual was last evaluated at
+   ParGridFunction current(getState().gridFunc());
+   current.SetFromTrueDofs(state);
    double dt = getConcrete<FlowResidual<dim, entvar>>(*spatial_res)
-                   .minCFLTimeStep(cfl, getState().gridFunc());
+                   .minCFLTimeStep(cfl, current);
    if (options["time-dis"].value("exact-t-final", true))
    {
       dt = min(dt, t_final - t);
-- 
2.43.0


From b698fa6a3a8ae8bdc4c9c53484157cb8306c265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 31/58] fix: the entropy change is evaluated at the time of the
 stage

---
 src/physics/fluidflow/flow_residual.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/flow_residual.cpp b/src/physics/fluidflow/flow_residual.cpp
index 6576d21..2bf4637 100644
--- a/src/physics/fluidflow/flow_residual.cpp
+++ b/src/physics/fluidflow/flow_residual.cpp
@@ -450,12 +450,12 @@ double FlowResidual<dim, entvar>::calcEntropyChange_(const MISOInputs &inputs)
    setVectorFromInputs(inputs, "state", x, false, true);
    Vector dxdt;
    setVectorFromInputs(inputs, "state_dot", dxdt, false, true);
-   double dt = NAN;
    double time = NAN;
    setValueFromInputs(inputs, "time", time, true);
-   setValueFromInputs(inputs, "dt", dt, true);
 
-   auto form_inputs = MISOInputs({{"state", x}, {"time", time + dt}});
+   // `state` and `time` are already those of the stage (the ODE sets the time
+   // before it evaluates a stage), so "dt" must not be added again
+   auto form_inputs = MISOInputs({{"state", x}, {"time", time}});
    return calcFormOutput(res, form_inputs);
 
    // ParGridFunction state(&fes), dstate(&fes);
-- 
2.43.0


From 3fac1d9ac7f75d0b8ced30f4843635727fc99671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 32/58] fix: every rank distributes the inputs of an L2
 transfer operator

---
 src/utils/l2_transfer_operator.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utils/l2_transfer_operator.hpp b/src/utils/l2_transfer_operator.hpp
index 38de4c7..9e4a6d7 100644
--- a/src/utils/l2_transfer_operator.hpp
+++ b/src/utils/l2_transfer_operator.hpp
@@ -112,15 +112,16 @@ protected:
 
 inline void setInputs(L2TransferOperator &output, const MISOInputs &inputs)
 {
+   /// distributing is collective: a rank may own no entries of a field
    mfem::Vector state_tv;
    setVectorFromInputs(inputs, "state", state_tv);
-   if (state_tv.Size() > 0)
+   if (inputs.count("state") != 0)
    {
       output.state.distributeSharedDofs(state_tv);
    }
    mfem::Vector mesh_coords_tv;
    setVectorFromInputs(inputs, "mesh_coords", mesh_coords_tv);
-   if (mesh_coords_tv.Size() > 0)
+   if (inputs.count("mesh_coords") != 0)
    {
       output.mesh_coords.distributeSharedDofs(mesh_coords_tv);
    }
@@ -203,15 +204,16 @@ public:
 inline void setInputs(L2CurlMagnitudeProjection &output,
                       const MISOInputs &inputs)
 {
+   /// distributing is collective: a rank may own no entries of a field
    mfem::Vector state_tv;
    setVectorFromInputs(inputs, "state", state_tv);
-   if (state_tv.Size() > 0)
+   if (inputs.count("state") != 0)
    {
       output.state.distributeSharedDofs(state_tv);
    }
    mfem::Vector mesh_coords_tv;
    setVectorFromInputs(inputs, "mesh_coords", mesh_coords_tv);
-   if (mesh_coords_tv.Size() > 0)
+   if (inputs.count("mesh_coords") != 0)
    {
       output.mesh_coords.distributeSharedDofs(mesh_coords_tv);
    }
@@ -249,15 +251,16 @@ inline void vectorJacobianProduct(L2CurlProjection &output,
 
 inline void setInputs(L2CurlProjection &output, const MISOInputs &inputs)
 {
+   /// distributing is collective: a rank may own no entries of a field
    mfem::Vector state_tv;
    setVectorFromInputs(inputs, "state", state_tv);
-   if (state_tv.Size() > 0)
+   if (inputs.count("state") != 0)
    {
       output.state.distributeSharedDofs(state_tv);
    }
    mfem::Vector mesh_coords_tv;
    setVectorFromInputs(inputs, "mesh_coords", mesh_coords_tv);
-   if (mesh_coords_tv.Size() > 0)
+   if (inputs.count("mesh_coords") != 0)
    {
       output.mesh_coords.distributeSharedDofs(mesh_coords_tv);
    }
-- 
2.43.0


From 442f584597d3b92ddc544dd6f2a9e9748ce46b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 33/58] fix: the Lp error of one component uses the absolute
 error

---
 src/physics/finite_element_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/finite_element_state.cpp b/src/physics/finite_element_state.cpp
index 7646152..bc86cd1 100644
--- a/src/physics/finite_element_state.cpp
+++ b/src/physics/finite_element_state.cpp
@@ -285,7 +285,7 @@ double calcLpError(const FiniteElementState &state,
       {
          const auto &ip = ir->IntPoint(j);
          T->SetIntPoint(&ip);
-         double ip_error = loc_errs(j);
+         double ip_error = fabs(loc_errs(j));
          if (p < mfem::infinity())
          {
             ip_error = pow(ip_error, p);
-- 
2.43.0


From 414b864579f7da46455eee8f3b69b28d38c3470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 34/58] fix: the 2D flux density is the curl of the vector
 potential

---
 src/utils/l2_transfer_operator.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/l2_transfer_operator.cpp b/src/utils/l2_transfer_operator.cpp
index f35f7a0..396d3a0 100644
--- a/src/utils/l2_transfer_operator.cpp
+++ b/src/utils/l2_transfer_operator.cpp
@@ -372,6 +372,8 @@ public:
             mfem::DenseMatrix tmp(
                 curlshape_dFt.GetData(), space_dim * state_dof, 1);
             scratch.GradToCurl(tmp);
+            /// the curl of a field along z is (d/dy, -d/dx)
+            curlshape_dFt.Neg();
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -432,6 +434,8 @@ public:
             mfem::DenseMatrix tmp(
                 curlshape_dFt.GetData(), space_dim * state_dof, 1);
             scratch.GradToCurl(tmp);
+            /// the curl of a field along z is (d/dy, -d/dx)
+            curlshape_dFt.Neg();
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -536,6 +540,8 @@ public:
             mfem::DenseMatrix tmp(
                 curlshape_dFt.GetData(), space_dim * state_dof, 1);
             scratch.GradToCurl(tmp);
+            /// the curl of a field along z is (d/dy, -d/dx)
+            curlshape_dFt.Neg();
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -611,11 +617,10 @@ public:
             MultVWt(el_state, curl_vec_bar, curlshape_dFt_bar);
 
             /// mfem::DenseMatrix tmp(curlshape_dFt.GetData(), space_dim *
-            /// state_dof, 1); scratch.GradToCurl(tmp);
+            /// state_dof, 1); scratch.GradToCurl(tmp); curlshape_dFt.Neg();
             mfem::DenseMatrix tmp(
                 scratch_bar.GetData(), space_dim * state_dof, 1);
             curlshape_dFt_bar.GradToCurl(tmp);
-            scratch_bar *= -1.0;
 
             /// Mult(curlshape, trans.AdjugateJacobian(), scratch);
             double adj_bar_buffer[9] = {};
-- 
2.43.0


From 4f3ae5333a16b2d7c6f0c5abe5fe39234fcdf2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 35/58] fix: the state of the mesh warper is numbered like the
 nodes of the mesh

---
 src/utils/mesh_warper/mesh_warper.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/utils/mesh_warper/mesh_warper.cpp b/src/utils/mesh_warper/mesh_warper.cpp
index 18e6ebe..807151f 100644
--- a/src/utils/mesh_warper/mesh_warper.cpp
+++ b/src/utils/mesh_warper/mesh_warper.cpp
@@ -248,22 +248,20 @@ MeshWarper::MeshWarper(MPI_Comm incomm,
  : AbstractSolver2(incomm, solver_options),
    mesh_(constructMesh(comm, options["mesh"], std::move(smesh), true))
 {
-   auto num_states = mesh().SpaceDimension();
+   auto &mesh_gf = *dynamic_cast<mfem::ParGridFunction *>(mesh().GetNodes());
+   auto *mesh_fespace = mesh_gf.ParFESpace();
 
-   FiniteElementState state(mesh(), options["space-dis"], num_states, "state");
+   /// the state is the new coordinates of the nodes, so that its dofs have to
+   /// be those of the mesh's nodes (in the same order)
+   FiniteElementState state(mesh(), *mesh_fespace, "state");
    fields.emplace("state", std::move(state));
 
-   FiniteElementState adjoint(
-       mesh(), options["space-dis"], num_states, "adjoint");
+   FiniteElementState adjoint(mesh(), *mesh_fespace, "adjoint");
    fields.emplace("adjoint", std::move(adjoint));
 
-   FiniteElementDual residual(
-       mesh(), options["space-dis"], num_states, "residual");
+   FiniteElementDual residual(mesh(), *mesh_fespace, "residual");
    duals.emplace("residual", std::move(residual));
 
-   auto &mesh_gf = *dynamic_cast<mfem::ParGridFunction *>(mesh().GetNodes());
-   auto *mesh_fespace = mesh_gf.ParFESpace();
-
    /// create new state vector copying the mesh's fe space
    fields.emplace(std::piecewise_construct,
                   std::forward_as_tuple("mesh_coords"),
-- 
2.43.0


From 1b83af02fd77c9aee3380dfe1c904a6c19c4cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:20 +0000
Subject: [PATCH 36/58] fix: core loss coefficients of a component with a
 single attribute

---
 src/physics/electromagnetics/cal2_ke_coefficient.cpp | 4 ++--
 src/physics/electromagnetics/cal2_kh_coefficient.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index a7d7070..75db13f 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index 029cf72..aba0ae7 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
-- 
2.43.0


From 3b9daadbf4cd7db2a4e1f4c612ce6949c4c4e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:20 +0000
Subject: [PATCH 37/58] fix: forward derivative of mass with respect to the
 fill factor

---
 src/physics/common_outputs.cpp | 17 +++++++++++++++++
 src/physics/common_outputs.hpp |  5 +----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index 99e6705..9bf750d 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -31,6 +31,23 @@ VolumeFunctional::VolumeFunctional(
    }
 }
 
+double jacobianVectorProduct(MassFunctional &output,
+                             const mfem::Vector &wrt_dot,
+                             const std::string &wrt)
+{
+   if (wrt == "fill_factor")
+   {
+      *output.rho_ptr = output.drho_df.get();
+      const double out_dot = jacobianVectorProduct(output.output, wrt_dot, wrt);
+      *output.rho_ptr = output.rho.get();
+      return out_dot;
+   }
+   else
+   {
+      return jacobianVectorProduct(output.output, wrt_dot, wrt);
+   }
+}
+
 double vectorJacobianProduct(MassFunctional &output,
                              const mfem::Vector &out_bar,
                              const std::string &wrt)
diff --git a/src/physics/common_outputs.hpp b/src/physics/common_outputs.hpp
index be15213..aada7e4 100644
--- a/src/physics/common_outputs.hpp
+++ b/src/physics/common_outputs.hpp
@@ -89,10 +89,7 @@ public:
 
    friend double jacobianVectorProduct(MassFunctional &output,
                                        const mfem::Vector &wrt_dot,
-                                       const std::string &wrt)
-   {
-      return jacobianVectorProduct(output.output, wrt_dot, wrt);
-   }
+                                       const std::string &wrt);
 
    friend double vectorJacobianProduct(MassFunctional &output,
                                        const mfem::Vector &out_bar,
-- 
2.43.0


From c8066af76f76a8a714116ebc7da94e4c60011213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 38/58] fix: a rank owning one entry of a distributed output

---
 src/common/abstract_solver.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 29448ea..3471e5e 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -303,6 +303,15 @@ double AbstractSolver2::calcOutput(const std::string &output,
    }
 }
 
+/// A rank may own a single entry of a distributed output, so the local size
+/// alone does not tell whether the output is a scalar
+static bool isScalarOutput(MPI_Comm comm, const mfem::Vector &out_vec)
+{
+   int size = out_vec.Size();
+   MPI_Allreduce(MPI_IN_PLACE, &size, 1, MPI_INT, MPI_MAX, comm);
+   return size == 1;
+}
+
 void AbstractSolver2::calcOutput(const std::string &output,
                                  const MISOInputs &inputs,
                                  mfem::Vector &out_vec)
@@ -315,7 +324,7 @@ void AbstractSolver2::calcOutput(const std::string &output,
          throw MISOException("Did not find " + output + " in output map!\n");
       }
       setInputs(output_iter->second, inputs);
-      if (out_vec.Size() == 1)
+      if (isScalarOutput(comm, out_vec))
       {
          out_vec(0) = miso::calcOutput(output_iter->second, inputs);
       }
@@ -403,7 +412,7 @@ void AbstractSolver2::outputJacobianVectorProduct(const std::string &of,
       }
       auto &output = output_iter->second;
       setInputs(output, inputs);
-      if (out_dot.Size() == 1)
+      if (isScalarOutput(comm, out_dot))
       {
          out_dot(0) += miso::jacobianVectorProduct(output, wrt_dot, wrt);
       }
-- 
2.43.0


From 013bdc33a639de2f39410dac52aa1c6b1c0cefa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 39/58] fix: winding volume sensitivity is summed over the
 ranks

---
 src/physics/electromagnetics/electromag_outputs.cpp | 10 ++++++++--
 src/physics/electromagnetics/electromag_outputs.hpp |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 8266cd0..03a4331 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -615,6 +615,8 @@ void vectorJacobianProduct(DCLossDistribution &output,
 
       double volume_bar =
           vectorJacobianProduct(output.output, out_bar, "winding_volume");
+      MPI_Allreduce(
+          MPI_IN_PLACE, &volume_bar, 1, MPI_DOUBLE, MPI_SUM, output.comm);
       mfem::Vector vol_bar_vec(&volume_bar, 1);
       vectorJacobianProduct(output.volume, vol_bar_vec, wrt, wrt_bar);
    }
@@ -629,7 +631,8 @@ DCLossDistribution::DCLossDistribution(
     StateCoefficient &sigma,
     const nlohmann::json &options)
  : output(fields.at("temperature").space(), fields, "thermal_adjoint"),
-   volume(fields, options)
+   volume(fields, options),
+   comm(fields.at("temperature").space().GetComm())
 {
    auto &temp = fields.at("temperature");
 
@@ -1534,6 +1537,8 @@ void vectorJacobianProduct(ACLossDistribution &output,
 
       double volume_bar =
           vectorJacobianProduct(output.output, out_bar, "winding_volume");
+      MPI_Allreduce(
+          MPI_IN_PLACE, &volume_bar, 1, MPI_DOUBLE, MPI_SUM, output.comm);
       mfem::Vector vol_bar_vec(&volume_bar, 1);
       vectorJacobianProduct(output.volume, vol_bar_vec, wrt, wrt_bar);
    }
@@ -1548,7 +1553,8 @@ ACLossDistribution::ACLossDistribution(
     StateCoefficient &sigma,
     const nlohmann::json &options)
  : output(fields.at("temperature").space(), fields, "thermal_adjoint"),
-   volume(fields, options)
+   volume(fields, options),
+   comm(fields.at("temperature").space().GetComm())
 {
    auto &peak_flux = fields.at("peak_flux");
    auto &temp = fields.at("temperature");
diff --git a/src/physics/electromagnetics/electromag_outputs.hpp b/src/physics/electromagnetics/electromag_outputs.hpp
index 2fd6dec..a8c57a2 100644
--- a/src/physics/electromagnetics/electromag_outputs.hpp
+++ b/src/physics/electromagnetics/electromag_outputs.hpp
@@ -336,6 +336,8 @@ private:
    MISOLinearForm output;
    VolumeFunctional volume;
 
+   MPI_Comm comm;
+
    MISOInputs const *inputs = nullptr;
 };
 
@@ -441,6 +443,8 @@ private:
    MISOLinearForm output;
    VolumeFunctional volume;
 
+   MPI_Comm comm;
+
    MISOInputs const *inputs = nullptr;
 };
 
-- 
2.43.0


From ef60d2648e83574b2d01d5ad7d89068cb8540117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 40/58] fix: forward derivative of the AC loss with respect to
 frequency

---
 src/physics/electromagnetics/electromag_outputs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 03a4331..85e0ad8 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -752,7 +752,7 @@ double jacobianVectorProduct(ACLossFunctional &output,
       //                      pow(output.radius, 4) *
       //                      pow(2 * M_PI * output.freq, 2) / 8.0;
       double strand_loss_dot = 2 * sigma_b2 * output.stack_length * M_PI *
-                               pow(output.radius, 3) * output.freq *
+                               pow(output.radius, 4) * output.freq *
                                pow(2 * M_PI, 2) / 8.0 * wrt_dot(0);
 
       double num_strands =
-- 
2.43.0


From 0ed1a0fc496a988b3c1cff3b20a9d5a802f48050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 41/58] fix: heat source derivatives use the winding volume of
 their own inputs

---
 src/physics/electromagnetics/electromag_outputs.cpp | 8 ++------
 src/physics/electromagnetics/electromag_outputs.hpp | 4 ++++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 85e0ad8..0c0b8e1 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -579,9 +579,7 @@ void calcOutput(DCLossDistribution &output,
                 const MISOInputs &inputs,
                 mfem::Vector &out_vec)
 {
-   auto winding_volume = calcOutput(output.volume, inputs);
-   setInputs(output.output, {{"winding_volume", winding_volume}});
-   setInputs(output.output, inputs);
+   setInputs(output, inputs);
    out_vec = 0.0;
    addLoad(output.output, out_vec);
 }
@@ -1501,9 +1499,7 @@ void calcOutput(ACLossDistribution &output,
                 const MISOInputs &inputs,
                 mfem::Vector &out_vec)
 {
-   auto winding_volume = calcOutput(output.volume, inputs);
-   setInputs(output.output, {{"winding_volume", winding_volume}});
-   setInputs(output.output, inputs);
+   setInputs(output, inputs);
    out_vec = 0.0;
    addLoad(output.output, out_vec);
 }
diff --git a/src/physics/electromagnetics/electromag_outputs.hpp b/src/physics/electromagnetics/electromag_outputs.hpp
index a8c57a2..cf60069 100644
--- a/src/physics/electromagnetics/electromag_outputs.hpp
+++ b/src/physics/electromagnetics/electromag_outputs.hpp
@@ -302,6 +302,8 @@ public:
       output.inputs = &inputs;
       setInputs(output.output, inputs);
       setInputs(output.volume, inputs);
+      auto winding_volume = calcOutput(output.volume, inputs);
+      setInputs(output.output, {{"winding_volume", winding_volume}});
    }
 
    friend inline double calcOutput(DCLossDistribution &output,
@@ -409,6 +411,8 @@ public:
       output.inputs = &inputs;
       setInputs(output.output, inputs);
       setInputs(output.volume, inputs);
+      auto winding_volume = calcOutput(output.volume, inputs);
+      setInputs(output.output, {{"winding_volume", winding_volume}});
    }
 
    friend inline double calcOutput(ACLossDistribution &output,
-- 
2.43.0


From 716e494c5be3bb0b87597fd2bcb88048c6c50bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 42/58] fix: force and torque displacements on nodes shared
 between ranks

---
 .../electromagnetics/electromag_outputs.cpp   | 58 +++++++++++++++----
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 0c0b8e1..99de8ec 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -19,6 +19,52 @@
 
 #include "electromag_outputs.hpp"
 
+namespace
+{
+/// Project @a coeff onto the elements with attributes @a attrs, including the
+/// dofs they share with elements on other ranks; @a v is zero everywhere else
+void projectOnAttributes(mfem::ParGridFunction &v,
+                         mfem::VectorCoefficient &coeff,
+                         const std::unordered_set<int> &attrs)
+{
+   v = 0.0;
+   for (const auto &attr : attrs)
+   {
+      v.ProjectCoefficient(coeff, attr);
+   }
+
+   auto &fes = *v.ParFESpace();
+   mfem::Array<int> set_by(fes.GetVSize());
+   set_by = 0;
+   mfem::Array<int> vdofs;
+   for (int i = 0; i < fes.GetNE(); ++i)
+   {
+      if (attrs.count(fes.GetAttribute(i)) == 0)
+      {
+         continue;
+      }
+      fes.GetElementVDofs(i, vdofs);
+      for (int vdof : vdofs)
+      {
+         set_by[vdof] = 1;
+      }
+   }
+
+   auto &gcomm = fes.GroupComm();
+   gcomm.Reduce<int>(set_by, mfem::GroupCommunicator::Sum);
+   gcomm.Bcast(set_by);
+   gcomm.Reduce<double>(v.GetData(), mfem::GroupCommunicator::Sum);
+   gcomm.Bcast<double>(v.GetData());
+   for (int i = 0; i < set_by.Size(); ++i)
+   {
+      if (set_by[i] > 1)
+      {
+         v(i) /= set_by[i];
+      }
+   }
+}
+}  // anonymous namespace
+
 namespace miso
 {
 
@@ -32,11 +78,7 @@ void setOptions(ForceFunctional &output, const nlohmann::json &options)
        mfem::Vector(axis.data(), space_dim));
 
    auto &v = output.fields.at("vforce").gridFunc();
-   v = 0.0;
-   for (const auto &attr : attrs)
-   {
-      v.ProjectCoefficient(axis_vector, attr);
-   }
+   projectOnAttributes(v, axis_vector, attrs);
 }
 
 void setOptions(TorqueFunctional &output, const nlohmann::json &options)
@@ -75,11 +117,7 @@ void setOptions(TorqueFunctional &output, const nlohmann::json &options)
        });
 
    auto &v = output.fields.at("vtorque").gridFunc();
-   v = 0.0;
-   for (const auto &attr : attrs)
-   {
-      v.ProjectCoefficient(v_vector, attr);
-   }
+   projectOnAttributes(v, v_vector, attrs);
 }
 
 double calcOutput(DCLossFunctional &output, const MISOInputs &inputs)
-- 
2.43.0


From 0fe6c9c30601a358d768c7624145ad4ada0fac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 43/58] fix: flow Jacobian is taken at the inputs given

---
 src/physics/fluidflow/flow_residual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/fluidflow/flow_residual.cpp b/src/physics/fluidflow/flow_residual.cpp
index 2bf4637..4ef5ab4 100644
--- a/src/physics/fluidflow/flow_residual.cpp
+++ b/src/physics/fluidflow/flow_residual.cpp
@@ -432,6 +432,7 @@ mfem::Operator &FlowResidual<dim, entvar>::getJacobian_(
     const MISOInputs &inputs,
     const string &wrt)
 {
+   setInputs(res, inputs);
    return getJacobian(res, inputs, wrt);
 }
 
-- 
2.43.0


From 15a8bb03da128240ec688e1b19c2e310113ea344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 44/58] fix: current density sensitivities leave out the
 magnets' load

---
 .../magnetostatic_residual.cpp                 | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index f0ba60d..4cc5b44 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -180,12 +180,15 @@ void jacobianVectorProduct(MagnetostaticResidual &residual,
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
 
-      MISOInputs inputs{{wrt, 1.0}};
-      setInputs(*residual.current_coeff, inputs);
-
+      /// the load need not be due to the current alone (e.g. magnets)
       residual.scratch.SetSize(res_dot.Size());
       residual.scratch = 0.0;
       addLoad(*residual.load, residual.scratch);
+      residual.scratch.Neg();
+
+      MISOInputs inputs{{wrt, 1.0}};
+      setInputs(*residual.current_coeff, inputs);
+      addLoad(*residual.load, residual.scratch);
       residual.current_coeff->resetCurrentDensityFromCache();
 
       residual.scratch.SetSubVector(residual.res.getEssentialDofs(), 0.0);
@@ -207,12 +210,15 @@ double vectorJacobianProduct(MagnetostaticResidual &residual,
       residual.current_coeff->cacheCurrentDensity();
       residual.current_coeff->zeroCurrentDensity();
 
-      MISOInputs inputs{{wrt, 1.0}};
-      setInputs(*residual.current_coeff, inputs);
-
+      /// the load need not be due to the current alone (e.g. magnets)
       residual.scratch.SetSize(res_bar.Size());
       residual.scratch = 0.0;
       addLoad(*residual.load, residual.scratch);
+      residual.scratch.Neg();
+
+      MISOInputs inputs{{wrt, 1.0}};
+      setInputs(*residual.current_coeff, inputs);
+      addLoad(*residual.load, residual.scratch);
       residual.current_coeff->resetCurrentDensityFromCache();
 
       residual.scratch.SetSubVector(residual.res.getEssentialDofs(), 0.0);
-- 
2.43.0


From 6ab3438702ea201a4df269234019d1ac5a975ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:57 +0000
Subject: [PATCH 45/58] fix: stator currents refer to the inputs, not to
 expired locals

---
 src/physics/electromagnetics/current_source_functions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 596a771..6b1da0c 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -729,9 +729,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          if (source == "cwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
@@ -764,9 +764,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          else if (source == "ccwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
-- 
2.43.0


From 5510af18b94c7332d2b092e64781074e215ac7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:57 +0000
Subject: [PATCH 46/58] fix: restore cached current densities by group

---
 src/physics/electromagnetics/current_source_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 6b1da0c..368ab04 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -664,9 +664,9 @@ void CurrentDensityCoefficient::zeroCurrentDensity()
 
 void CurrentDensityCoefficient::resetCurrentDensityFromCache()
 {
-   for (auto &[group, value] : cached_inputs)
+   for (auto &[group, coeff] : group_map)
    {
-      group_map.at(group).constant = value;
+      coeff.constant = cached_inputs.at(group);
    }
 }
 
-- 
2.43.0


From 3fca3e78f6b360da4f99561c4de37b589fa29b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:36 +0000
Subject: [PATCH 47/58] fix: the control loop stays open until it is closed

setInputs closed the loop again whenever the inputs did not mention
"closed-loop", which is so in every evaluation during a time march.
---
 src/physics/fluidflow/flow_control_residual.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 5d8b8d4..99b4f76 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -63,16 +63,11 @@ void setInputs(ControlResidual &residual, const MISOInputs &inputs)
    setValueFromInputs(inputs, "eta", residual.eta);
    setValueFromInputs(inputs, "beta", residual.beta);
    setValueFromInputs(inputs, "target-entropy", residual.target_entropy);
-   double closed_double = 1.0;
+   // the loop stays open or closed until the input changes it
+   double closed_double = residual.closed_loop ? 1.0 : 0.0;
    setValueFromInputs(inputs, "closed-loop", closed_double);
-   if (fabs(closed_double) < numeric_limits<double>::epsilon())
-   {
-      residual.closed_loop = false;
-   }
-   else
-   {
-      residual.closed_loop = true;
-   }
+   residual.closed_loop =
+       !(fabs(closed_double) < numeric_limits<double>::epsilon());
 
    // if (residual.rank == 0)
    // {
-- 
2.43.0


From 5bf6582474b2db082aa4fd9ebda0b86a371dd034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 48/58] fix: the actuator position is copied, not referred to

The position given in the inputs of a march is used until it changes, also
after the vector it was passed in is gone.
---
 src/physics/fluidflow/euler_integ.hpp           | 4 ++--
 src/physics/fluidflow/flow_control_residual.cpp | 2 +-
 src/physics/fluidflow/navier_stokes_integ.hpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/fluidflow/euler_integ.hpp b/src/physics/fluidflow/euler_integ.hpp
index f28d4d0..9acb5ca 100644
--- a/src/physics/fluidflow/euler_integ.hpp
+++ b/src/physics/fluidflow/euler_integ.hpp
@@ -592,7 +592,7 @@ public:
    friend void setInputs(ControlBC &integ, const miso::MISOInputs &inputs)
    {
       setValueFromInputs(inputs, "control", integ.control);
-      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator);
+      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator, true);
    }
 
 private:
@@ -919,7 +919,7 @@ public:
    /// \param[in] inputs - holds the actuator position
    friend void setInputs(BoundaryEntropy &integ, const miso::MISOInputs &inputs)
    {
-      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator);
+      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator, true);
    }
 
 private:
diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 99b4f76..c84e2ee 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -346,7 +346,7 @@ void FlowControlResidual<dim, entvar>::setInputs_(const MISOInputs &inputs)
    }
    setInputs(control_res, control_inputs);
    setInputs(flow_res, flow_inputs);
-   setVectorFromInputs(inputs, "x-actuator", x_actuator);
+   setVectorFromInputs(inputs, "x-actuator", x_actuator, true);
 }
 
 template <int dim, bool entvar>
diff --git a/src/physics/fluidflow/navier_stokes_integ.hpp b/src/physics/fluidflow/navier_stokes_integ.hpp
index 5c0867a..a24cef7 100644
--- a/src/physics/fluidflow/navier_stokes_integ.hpp
+++ b/src/physics/fluidflow/navier_stokes_integ.hpp
@@ -1203,7 +1203,7 @@ public:
                          const miso::MISOInputs &inputs)
    {
       setValueFromInputs(inputs, "control", integ.control);
-      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator);
+      setVectorFromInputs(inputs, "x-actuator", integ.x_actuator, true);
    }
 
 private:
-- 
2.43.0


From b00a42eec3e5118c2b7096f54c8531f01f01da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 49/58] fix: without an actuator position the boundary terms
 keep theirs

An empty position was passed to the boundary integrators, which then read
beyond it.
---
 src/physics/fluidflow/flow_control_residual.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index c84e2ee..7632cda 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -361,8 +361,11 @@ void FlowControlResidual<dim, entvar>::evaluate_(const MISOInputs &inputs,
    // double time = std::get<double>(inputs.at("time"));
 
    // get the coupling variables/outputs
-   auto flow_inputs =
-       MISOInputs({{"state", flow_ref}, {"x-actuator", x_actuator}});
+   auto flow_inputs = MISOInputs({{"state", flow_ref}});
+   if (x_actuator.Size() > 0)
+   {
+      flow_inputs.emplace("x-actuator", x_actuator);
+   }
    double bndry_ent = calcOutput(boundary_entropy, flow_inputs);
    auto control_inputs =
        MISOInputs({{"state", control_ref}, {"boundary-entropy", bndry_ent}});
@@ -404,8 +407,11 @@ double FlowControlResidual<dim, entvar>::calcEntropyChange_(
 
    // get the control velocity; for this we need the boundary entropy at the
    // new state, so compute that first
-   auto flow_inputs =
-       MISOInputs({{"state", flow_ref}, {"x-actuator", x_actuator}});
+   auto flow_inputs = MISOInputs({{"state", flow_ref}});
+   if (x_actuator.Size() > 0)
+   {
+      flow_inputs.emplace("x-actuator", x_actuator);
+   }
    double bndry_ent = calcOutput(boundary_entropy, flow_inputs);
    auto control_inputs =
        MISOInputs({{"state", control_ref}, {"boundary-entropy", bndry_ent}});
-- 
2.43.0


From f11fd3878a4c8421a1e4f130f146a402572b46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 50/58] fix: a controlled flow at constant CFL number does not
 pass the final time

---
 src/physics/fluidflow/flow_control_solver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index 92b9ba7..6d9d89f 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -352,8 +352,13 @@ double FlowControlSolver<dim, entvar>::calcStepSize(int iter,
    extractStates(state, control_state, flow_state);
    FiniteElementState &flow_field = fields.at("flow_state");
    flow_field.distributeSharedDofs(flow_state);
-   return getConcrete<ResType>(*spatial_res)
-       .minCFLTimeStep(cfl, flow_field.gridFunc());
+   double dt = getConcrete<ResType>(*spatial_res)
+                   .minCFLTimeStep(cfl, flow_field.gridFunc());
+   if (options["time-dis"].value("exact-t-final", true))
+   {
+      dt = min(dt, t_final - t);
+   }
+   return dt;
 }
 
 template <int dim, bool entvar>
-- 
2.43.0


From 1f7a7aef815694bacb6562e732bce07513fa3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 51/58] fix: the output histories of a second march are written

The streams of the first march, closed at its end, were kept.
---
 src/physics/fluidflow/flow_control_solver.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index 6d9d89f..877a4f3 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -281,9 +281,8 @@ void FlowControlSolver<dim, entvar>::initialHook(const mfem::Vector &state)
             string output_filename =
                 pair.first + "-" + std::to_string(sample) + ".txt";
             remove(output_filename.c_str());
-            output_log.emplace(pair.first,
-                               ofstream(output_filename, fstream::app));
-            // output_log[pair.first].open(output_filenam, fstream::app);
+            // a march before this one has closed its streams
+            output_log[pair.first] = ofstream(output_filename, fstream::app);
             output_log[pair.first] << setprecision(16);
          }
       }
-- 
2.43.0


From 6476b52b05b1964542d1ac51d88e53cc6b2253b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 52/58] fix: output histories of a controlled flow use the
 actuator position

The outputs evaluated at each time step were not told the position of
the actuator, so the logged boundary entropy was that of the default
position, not the one that drives the controller.
---
 .../fluidflow/flow_control_residual.hpp        |  3 +++
 src/physics/fluidflow/flow_control_solver.cpp  |  6 +++---
 src/physics/fluidflow/flow_control_solver.hpp  | 18 ++++++++++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_residual.hpp b/src/physics/fluidflow/flow_control_residual.hpp
index 280ec05..058b110 100644
--- a/src/physics/fluidflow/flow_control_residual.hpp
+++ b/src/physics/fluidflow/flow_control_residual.hpp
@@ -294,6 +294,9 @@ public:
       flow_res.getFreeStreamState(qfar);
    }
 
+   /// Position of the actuator; empty if none was provided as an input
+   const mfem::Vector &getActuatorPosition() const { return x_actuator; }
+
 private:
    /// print object
    std::ostream &out;
diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index 877a4f3..ce3b06a 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -270,7 +270,7 @@ void FlowControlSolver<dim, entvar>::initialHook(const mfem::Vector &state)
          }
          else
          {
-            inputs = MISOInputs({{"time", t0}, {"state", flow_state}});
+            inputs = flowOutputInputs(t0, flow_state);
          }
          double fun = miso::calcOutput(pair.second, inputs);
          *out << "\t" << pair.first << " = " << fun << endl;
@@ -314,7 +314,7 @@ void FlowControlSolver<dim, entvar>::iterationHook(int iter,
          }
          else
          {
-            inputs = MISOInputs({{"time", t}, {"state", flow_state}});
+            inputs = flowOutputInputs(t, flow_state);
          }
          double fun = miso::calcOutput(pair.second, inputs);
          if (rank == 0)
@@ -403,7 +403,7 @@ void FlowControlSolver<dim, entvar>::terminalHook(int iter,
          }
          else
          {
-            inputs = MISOInputs({{"time", t_final}, {"state", flow_state}});
+            inputs = flowOutputInputs(t_final, flow_state);
          }
          double fun = miso::calcOutput(pair.second, inputs);
          if (rank == 0)
diff --git a/src/physics/fluidflow/flow_control_solver.hpp b/src/physics/fluidflow/flow_control_solver.hpp
index f3a51dc..c2b6ea0 100644
--- a/src/physics/fluidflow/flow_control_solver.hpp
+++ b/src/physics/fluidflow/flow_control_solver.hpp
@@ -77,6 +77,24 @@ private:
           .extractStates(state, control_state, flow_state);
    }
 
+   /// Helper function that collects the inputs of an output that depends on
+   /// the flow only
+   /// \param[in] time - the current time
+   /// \param[in] flow_state - the current flow state
+   /// \returns inputs that refer to `flow_state`, and to the position of the
+   /// actuator if there is one
+   MISOInputs flowOutputInputs(double time, const mfem::Vector &flow_state) const
+   {
+      auto inputs = MISOInputs({{"time", time}, {"state", flow_state}});
+      const auto &x_actuator =
+          getConcrete<ResType>(*spatial_res).getActuatorPosition();
+      if (x_actuator.Size() > 0)
+      {
+         inputs.emplace("x-actuator", x_actuator);
+      }
+      return inputs;
+   }
+
    /// Constructs the mesh member based on c preprocesor defs
    /// \param[in] smesh - if provided, defines the mesh for the problem
    std::unique_ptr<mfem::ParMesh> constructMesh(
-- 
2.43.0


From 476fc48663c4178de17eba85127b412a822a95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:46 +0000
Subject: [PATCH 53/58] fix: mesh derivative of a weak boundary value uses the
 rule of its residual

---
 src/physics/electromagnetics/electromag_integ.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index e9988ca..1744e7a 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -746,7 +746,17 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    const mfem::IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * el.GetOrder();
+      int order = [&]()
+      {
+         if (el.Space() == mfem::FunctionSpace::Pk)
+         {
+            return 2 * el.GetOrder();
+         }
+         else
+         {
+            return 2 * el.GetOrder() + el.GetDim();
+         }
+      }();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From efebca62941b08f426763a573e8982abc1b44cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:46 +0000
Subject: [PATCH 54/58] fix: mesh derivative of a weak boundary value uses the
 dofs of the mesh face

---
 src/physics/electromagnetics/electromag_integ.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 1744e7a..d68c340 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -691,7 +691,11 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    }
 
    dof_tr = mesh_fes.GetElementVDofs(trans.Elem1->ElementNo, vdofs);
-   mesh_fes.GetBdrElementVDofs(trans.ElementNo, vdofs2);
+
+   /// the dofs of the face transformation are those of the mesh face, which
+   /// may be oriented differently from the boundary element that lies on it
+   const int face = mesh_fes.GetMesh()->GetBdrElementEdgeIndex(trans.ElementNo);
+   mesh_fes.GetFaceVDofs(face, vdofs2);
 
 #ifdef MFEM_THREAD_SAFE
    mfem::Vector shape;
-- 
2.43.0


From 64625b9ca0885d1c4ede9a4417f7c749a83b88cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:46 +0000
Subject: [PATCH 55/58] fix: mesh derivative of a weak boundary value is finite
 at zero flux

---
 src/physics/electromagnetics/electromag_integ.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index d68c340..8eb9953 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -877,7 +877,10 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
 
       /// const double ip_flux_norm = ip_flux.Norml2();
       ip_flux_bar = 0.0;
-      ip_flux_bar.Add(ip_flux_norm_bar / ip_flux_norm, ip_flux);
+      if (fabs(ip_flux_norm) > 1e-14)
+      {
+         ip_flux_bar.Add(ip_flux_norm_bar / ip_flux_norm, ip_flux);
+      }
 
       /// dshapedxt.MultTranspose(elfun, ip_flux);
       AddMultVWt(elfun, ip_flux_bar, dshapedxt_bar);
-- 
2.43.0


From 27c1b84d9d2d5e7b6ac1ed305b99dd6cd411a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:46 +0000
Subject: [PATCH 56/58] fix: face Jacobians evaluate the reluctivity in the
 element, not on the face

---
 src/physics/electromagnetics/electromag_integ.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 8eb9953..7f6484a 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -628,7 +628,7 @@ void NonlinearDGDiffusionIntegrator::AssembleFaceGrad(
 
       double model_val = model.Eval(*trans.Elem1, eip1, pointflux_norm);
       double model_deriv =
-          model.EvalStateDeriv(*trans.Elem1, ip, pointflux_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, pointflux_norm);
       pointflux_norm_dot *= model_deriv;
 
       dshapedxt.Mult(nor, dshapedn);
@@ -872,7 +872,7 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
 
       /// double model_val = model.Eval(trans, eip1, ip_flux_norm);
       const double model_val_dot =
-          model.EvalStateDeriv(*trans.Elem1, ip, ip_flux_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, ip_flux_norm);
       double ip_flux_norm_bar = model_val_bar * model_val_dot;
 
       /// const double ip_flux_norm = ip_flux.Norml2();
@@ -1181,12 +1181,12 @@ void DGInteriorFaceDiffusionIntegrator::AssembleFaceGrad(
 
       const double model_val1 = model.Eval(*trans.Elem1, eip1, ip_flux1_norm);
       double model_deriv1 =
-          model.EvalStateDeriv(*trans.Elem1, ip, ip_flux1_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, ip_flux1_norm);
       ip_flux1_norm_dot *= model_deriv1;
 
       const double model_val2 = model.Eval(*trans.Elem2, eip2, ip_flux2_norm);
       double model_deriv2 =
-          model.EvalStateDeriv(*trans.Elem2, ip, ip_flux2_norm);
+          model.EvalStateDeriv(*trans.Elem2, eip2, ip_flux2_norm);
       ip_flux2_norm_dot *= model_deriv2;
 
       elmat11 = 0.0;
-- 
2.43.0


From 65f5378189b771ef889f1786a3964b407e6c05ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:46 +0000
Subject: [PATCH 57/58] fix: derivatives of interface conditions use the rule
 of their residual

---
 src/physics/thermal/thermal_integ.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 2fadc42..db6bca8 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -776,7 +776,7 @@ double ThermalContactResistanceIntegratorHRevSens::GetFaceEnergy(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -944,7 +944,7 @@ void InternalConvectionInterfaceIntegrator::AssembleFaceGrad(
    const auto *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -1081,7 +1081,7 @@ void InternalConvectionInterfaceIntegratorMeshRevSens::AssembleRHSElementVect(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From e7821886a5dcb371c8570e33d649dbcc009ce09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:33 +0000
Subject: [PATCH 58/58] fix: the error of a distributed state is its norm over
 all ranks

---
 src/common/abstract_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 3471e5e..850159a 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -61,7 +61,7 @@ double AbstractSolver2::calcStateError_(std::any ex_sol,
           work.SetSize(state.Size());
           fun(work);
           subtract(work, state, work);
-          return work.Norml2();
+          return sqrt(InnerProduct(comm, work, work));
        },
        [&](mfem::Vector &vec)
        {
@@ -74,7 +74,7 @@ double AbstractSolver2::calcStateError_(std::any ex_sol,
           }
           work.SetSize(state.Size());
           subtract(vec, state, work);
-          return work.Norml2();
+          return sqrt(InnerProduct(comm, work, work));
        });
 }
 
-- 
2.43.0

