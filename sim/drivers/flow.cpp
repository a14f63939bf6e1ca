// SOURCES: ALL
// Compressible flow: W01 invariants, W02 independence, outputs and derivatives, W03 time marching.
#include <unistd.h>
#include <fstream>
#include <complex>
#include <array>
#include <type_traits>
#include "femsim.hpp"
#include "flow_solver.hpp"
#include "flow_residual.hpp"
#include "mfem_extensions.hpp"
#include "euler_integ.hpp"
#include "navier_stokes_integ.hpp"
using namespace femsim;
using nlohmann::json;
const char *driverProperty() { return "W01"; }
static std::string gProp = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "W01";
static std::vector<int> gPart;

template <int dim, bool ev>
static bool faceEnergy1(mfem::NonlinearFormIntegrator *n, const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &x, double &e)
{
   auto t = [&](auto *p) { if (p != nullptr) { e = p->GetFaceEnergy(e1, e2, T, x); return true; } return false; };
   if constexpr (dim == 2) { if (t(dynamic_cast<miso::IsentropicVortexBC<2, ev> *>(n)) || t(dynamic_cast<miso::ControlBC<2, ev> *>(n))) { return true; } }
   if constexpr (!ev)
   {
      if (t(dynamic_cast<miso::ViscousSlipWallBC<dim> *>(n)) || t(dynamic_cast<miso::NoSlipAdiabaticWallBC<dim> *>(n)) || t(dynamic_cast<miso::SurfaceForce<dim> *>(n)) || t(dynamic_cast<miso::ViscousControlBC<dim> *>(n))) { return true; }
   }
   return t(dynamic_cast<miso::SlipWallBC<dim, ev> *>(n)) || t(dynamic_cast<miso::FarFieldBC<dim, ev> *>(n)) || t(dynamic_cast<miso::EntropyConserveBC<dim, ev> *>(n)) ||
          t(dynamic_cast<miso::InterfaceIntegrator<dim, ev> *>(n)) || t(dynamic_cast<miso::PressureForce<dim, ev> *>(n)) || t(dynamic_cast<miso::BoundaryEntropy<dim, ev> *>(n)) || t(dynamic_cast<miso::SupplyRate<dim, ev> *>(n));
}
static bool faceEnergy(mfem::NonlinearFormIntegrator *n, const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &x, double &e)
{
   return faceEnergy1<1, false>(n, e1, e2, T, x, e) || faceEnergy1<1, true>(n, e1, e2, T, x, e) || faceEnergy1<2, false>(n, e1, e2, T, x, e) ||
          faceEnergy1<2, true>(n, e1, e2, T, x, e) || faceEnergy1<3, false>(n, e1, e2, T, x, e) || faceEnergy1<3, true>(n, e1, e2, T, x, e);
}

int *mfem::Mesh::GeneratePartitioning(int n, int)
{
   int *p = new int[GetNE()];
   for (int i = 0; i < GetNE(); ++i) { p[i] = i < int(gPart.size()) ? gPart[size_t(i)] % n : i * n / GetNE(); }
   return p;
}

static const double gam = 1.4, gm1 = 0.4;
/// a smooth field that repeats in the unit box
struct PField
{
   double a[5][3], k[5][3][3], p[5][3];
   double eval(int c, const double *x, int dim) const
   {
      double s = 0;
      for (int j = 0; j < 3; ++j)
      {
         double t = p[c][j];
         for (int d = 0; d < dim; ++d) { t += 2 * M_PI * k[c][j][d] * x[d]; }
         s += a[c][j] * std::sin(t);
      }
      return s;
   }
};
static PField genPField()
{
   PField f;
   for (int c = 0; c < 5; ++c)
   {
      for (int j = 0; j < 3; ++j)
      {
         f.a[c][j] = genIn(-0.3, 0.3);
         f.p[c][j] = genIn(0, 6.28);
         for (int d = 0; d < 3; ++d) { f.k[c][j][d] = genInt(-1, 1); }
      }
   }
   return f;
}
struct Spec
{
   int dim = 2, n[3] = {3, 3, 3}, degree = 1, nodeOrder = 1, nranks = 1;
   bool periodic = true, dsbp = false, viscous = false, euler = false, entvar = false;
   double amp = 0, ph[3] = {0, 0, 0}, lps = 0, iface = 0, jump = 0;
   std::vector<int> part;
   int ne = 0;
   json opts;
   std::vector<int> bc;   // per boundary attribute: 0 far field, 1 slip wall, 2 vortex, 3 pump, 4 no slip, 5 control
   double time = 0, mach = 0.5, aoa = 0, control = 0;
   bool all(int k) const { for (int b : bc) { if (b != k) { return false; } } return !bc.empty(); }
   bool any(int k) const { for (int b : bc) { if (b == k) { return true; } } return false; }
   double cfl = 0, span = 0, pert = 0;
   bool again = false, other = false;
   int poison = 0;
   std::vector<PField> st;

   std::unique_ptr<Mesh> mesh() const
   {
      Mesh m = dim == 1 ? Mesh::MakeCartesian1D(n[0], 1.0)
               : dim == 2 ? Mesh::MakeCartesian2D(n[0], n[1], Element::TRIANGLE, true, 1.0, 1.0, true)
                          : Mesh::MakeCartesian3D(n[0], n[1], n[2], Element::TETRAHEDRON, 1.0, 1.0, 1.0, true);
      std::unique_ptr<Mesh> r;
      if (periodic)
      {
         std::vector<Vector> tr;
         for (int d = 0; d < dim; ++d) { Vector t(dim); t = 0.0; t(d) = 1.0; tr.push_back(t); }
         r = std::make_unique<Mesh>(Mesh::MakePeriodic(m, m.CreatePeriodicVertexMapping(tr)));
      }
      else { r = std::make_unique<Mesh>(m); }
      r->SetCurvature(nodeOrder, periodic, dim, Ordering::byNODES);
      GridFunction &nodes = *r->GetNodes();
      FiniteElementSpace *fes = nodes.FESpace();
      Vector base(nodes);
      for (int i = 0; i < fes->GetNDofs(); ++i)
      {
         for (int d = 0; d < dim; ++d)
         {
            double x = base(fes->DofToVDof(i, d)), y = base(fes->DofToVDof(i, (d + 1) % dim));
            nodes(fes->DofToVDof(i, d)) = (periodic ? 0.0 : d == 0 ? 0.5 : -0.3) + x + amp * std::sin(2 * M_PI * (dim > 1 ? y : x) + ph[d]) * (periodic || dim == 1 ? 1.0 : std::cos(x + ph[d]));
         }
      }
      return r;
   }
   std::string bcs() const
   {
      std::string t;
      for (int b : bc) { t += "fsvpnc"[b]; }
      return periodic ? "periodic" : "bounded (" + t + ")";
   }
   std::string str() const
   {
      return fmt("%dD %s degree %d, %s%s%s, lps %g, iface %g, %s mesh %dx%d (%d elements, order %d, warp %.3g) on %d ranks", dim, dsbp ? "dsbp" : "csbp", degree,
                 euler ? "Euler" : "IR", viscous ? ", viscous" : "", entvar ? ", entropy variables" : "", lps, iface, bcs().c_str(), n[0], n[1], ne,
                 nodeOrder, amp, nranks);
   }
   void prim(const PField &f, const double *x, double *q) const
   {
      double rho = 1.0 * std::exp(f.eval(0, x, dim)), p = std::exp(f.eval(4, x, dim)) / gam, k = 0;
      q[0] = rho;
      for (int d = 0; d < dim; ++d) { double u = f.eval(1 + d, x, dim); q[1 + d] = rho * u; k += 0.5 * rho * u * u; }
      q[dim + 1] = p / gm1 + k;
   }
};
static double press(const double *q, int dim)
{
   double k = 0;
   for (int d = 0; d < dim; ++d) { k += q[1 + d] * q[1 + d]; }
   return gm1 * (q[dim + 1] - 0.5 * k / q[0]);
}
static double entropyOf(const double *q, int dim) { return -q[0] * std::log(press(q, dim) / std::pow(q[0], gam)) / gm1; }
static void entVars(const double *q, int dim, double *w)
{
   double p = press(q, dim), k = 0;
   for (int d = 0; d < dim; ++d) { k += q[1 + d] * q[1 + d] / (q[0] * q[0]); w[1 + d] = q[1 + d] / p; }
   w[0] = (gam - std::log(p / std::pow(q[0], gam))) / gm1 - 0.5 * q[0] * k / p;
   w[dim + 1] = -q[0] / p;
}
static void consVars(const double *w, int dim, double *q)
{
   double k = 0;
   double u[3];
   for (int d = 0; d < dim; ++d) { u[d] = -w[1 + d] / w[dim + 1]; k += u[d] * u[d]; }
   double s = gam + gm1 * (0.5 * k * w[dim + 1] - w[0]);   // ln(p/rho^gam)
   double rho = std::pow(-std::exp(-s) / w[dim + 1], 1.0 / gm1);
   double p = -rho / w[dim + 1];
   q[0] = rho;
   for (int d = 0; d < dim; ++d) { q[1 + d] = rho * u[d]; }
   q[dim + 1] = p / gm1 + 0.5 * rho * k;
}

static Spec genSpec()
{
   Spec s;
   s.dim = gen(8) == 0 ? 3 : gen(6) == 0 ? 1 : 2;
   s.periodic = gen(2) || s.dim == 1;
   s.dsbp = s.dim == 2 && gen(3) == 0;
   s.degree = s.dim == 3 ? genInt(0, 1) : genInt(0, gen(2) ? 4 : 2);
   s.nodeOrder = s.dim == 2 && s.degree >= 1 && gen(2) ? 2 : 1;
   for (int d = 0; d < s.dim; ++d) { s.n[d] = s.periodic ? 3 : genInt(1, s.dim == 3 ? 1 : 3); }
   const bool toSteady = gProp == "W03" && gen(3) == 0;
   if (gProp == "C01") { s.dim = 2; s.periodic = false; s.degree = genInt(0, 2); s.nodeOrder = s.degree ? genInt(1, 2) : 1; s.n[0] = genInt(1, 2); s.n[1] = genInt(1, 2); }
   if (toSteady) { s.dim = 2; s.periodic = s.dsbp = false; s.degree = genInt(0, 2); s.nodeOrder = s.degree ? genInt(1, 2) : 1; s.n[0] = genInt(1, 2); s.n[1] = genInt(1, 2); }
   s.amp = gen(4) ? genIn(0, 0.03) : 0.0;
   for (double &p : s.ph) { p = genIn(0, 6.28); }
   s.lps = gen(2) ? genIn(0.1, 2.0) : 0.0;
   s.iface = gen(2) ? genIn(0.1, 2.0) : 0.0;
   s.jump = s.dsbp && gen(4) ? genIn(0.02, 0.2) : 0.0;
   s.viscous = !s.dsbp && s.dim > 1 && s.degree > 0 && gen(3) == 0;
   s.entvar = gProp != "C01" && !s.viscous && gen(4) == 0;
   s.euler = !s.entvar && gen(6) == 0;
   s.ne = s.mesh()->GetNE();
   s.nranks = std::min(s.ne, genInt(1, 4));
   for (int e = 0, k = genInt(0, 2); e < s.ne; ++e)
   {
      s.part.push_back(k == 0 ? e * s.nranks / s.ne : k == 1 ? e % s.nranks : e < s.nranks ? e : int(gen(uint32_t(s.nranks))));
   }
   s.opts = R"({"silent": true, "print-options": false, "mesh": {"file": "x.mesh"},
     "paraview": {"log": false, "each-timestep": false},
     "nonlin-solver": {"type": "newton", "printlevel": -1, "maxiter": 15, "reltol": 1e-12, "abstol": 1e-13},
     "lin-solver": {"type": "hyprefgmres", "printlevel": 0, "maxiter": 200, "kdim": 200, "reltol": 1e-13, "abstol": 1e-15},
     "lin-prec": {"type": "hypreboomeramg", "printlevel": 0}})"_json;
   s.mach = genIn(0.1, 0.8);
   s.aoa = genIn(-20, 20);
   s.time = genIn(0, 6);
   s.control = genIn(-0.5, 0.5);
   s.opts["space-dis"] = {{"degree", s.degree}, {"lps-coeff", s.lps}, {"iface-coeff", s.iface}, {"basis-type", s.dsbp ? "dsbp" : "csbp"}, {"flux-fun", s.euler ? "Euler" : "IR"}};
   s.opts["flow-param"] = {{"entropy-state", s.entvar}, {"mach", s.mach}, {"aoa", s.aoa}, {"viscous", s.viscous}, {"Re", s.viscous ? genIn(5, 100) : 0.0}, {"mu", gen(2) ? 1.0 : -1.0}};
   s.opts["time-dis"] = {{"type", "RK4"}, {"steady", s.entvar}};
   if (!s.periodic)
   {
      int nb = 2 * s.dim, kind = toSteady ? 2 * int(gen(2)) : genInt(0, 3);
      const int vs[] = {0, 1, 4, 5}, i2[] = {0, 1, 2, 3, 5}, i13[] = {0, 1};
      for (int b = 1; b <= nb; ++b)
      {
         int k = kind == 0 ? 0 : kind == 1 ? 1 : toSteady ? (b == 1 ? 0 : int(gen(2))) : s.viscous ? vs[gen(s.dim == 2 ? 4 : 3)] : s.dim == 2 ? i2[gen(5)] : i13[gen(2)];
         s.bc.push_back(k);
      }
      if (gProp == "C01")
      {
         const int c2[] = {0, 0, 1, 5}, v2[] = {0, 4, 1, 5};
         for (int &k : s.bc) { k = (s.viscous ? v2 : c2)[gen(4)]; }
         s.bc[gen(uint32_t(nb))] = 5;
         kind = 9;
      }
      if (kind == 1 && s.viscous) { std::fill(s.bc.begin(), s.bc.end(), 4); }
      json b;
      const char *nm[] = {"far-field", "slip-wall", "vortex", "pump", "no-slip-adiabatic", "control"};
      for (int k = 0; k < 6; ++k)
      {
         std::vector<int> v;
         for (int i = 0; i < nb; ++i) { if (s.bc[size_t(i)] == k) { v.push_back(i + 1); } }
         // an attribute may be listed in any order
         if (v.size() > 1 && gen(2)) { std::swap(v[0], v.back()); }
         if (!v.empty()) { b[nm[k]] = v; }
      }
      s.opts["bcs"] = b;
   }
   for (int i = 0; i < 2; ++i) { s.st.push_back(genPField()); }
   s.poison = genInt(0, 3);
   gPart = s.part;
   return s;
}
struct Rec { int iter; double t, dt; Vector x; bool conv; };
struct FSBase
{
   std::vector<Rec> rec;
   virtual void solve(Vector &x) = 0;
   virtual Operator *mass() = 0;
   virtual ~FSBase() = default;
   virtual miso::AbstractSolver2 &A() = 0;
   virtual ParFiniteElementSpace &space() = 0;
   virtual miso::FiniteElementState &state() = 0;
   virtual miso::MISOResidual &R() = 0;
};
template <int dim, bool entvar>
struct FS : miso::FlowSolver<dim, entvar>, FSBase
{
   using miso::FlowSolver<dim, entvar>::FlowSolver;
   miso::AbstractSolver2 &A() override { return *this; }
   ParFiniteElementSpace &space() override { return this->fields.at("state").space(); }
   miso::FiniteElementState &state() override { return this->fields.at("state"); }
   miso::MISOResidual &R() override { return *this->spatial_res; }
   Operator *mass() override { return getMassMatrix(*this->spatial_res, this->options); }
   void solve(Vector &x) override { miso::MISOInputs in; rec.clear(); this->solveForState(in, x); }
   bool conv() const { return this->nonlinear_solver->GetConverged(); }
   void derivedPDEIterationHook(int iter, double t, double dt, const Vector &x) override
   {
      miso::FlowSolver<dim, entvar>::derivedPDEIterationHook(iter, t, dt, x);
      rec.push_back({iter, t, dt, x, conv()});
   }
   void derivedPDETerminalHook(int iter, double t, const Vector &x) override
   {
      miso::FlowSolver<dim, entvar>::derivedPDETerminalHook(iter, t, x);
      rec.push_back({iter, t, 0.0, x, conv()});
   }
};
static std::unique_ptr<FSBase> make(const Spec &s, bool entvar)
{
   json o = s.opts;
   o["flow-param"]["entropy-state"] = entvar;
   if (s.dim == 1) { if (entvar) { return std::make_unique<FS<1, true>>(MPI_COMM_WORLD, o, s.mesh()); } return std::make_unique<FS<1, false>>(MPI_COMM_WORLD, o, s.mesh()); }
   if (s.dim == 2) { if (entvar) { return std::make_unique<FS<2, true>>(MPI_COMM_WORLD, o, s.mesh()); } return std::make_unique<FS<2, false>>(MPI_COMM_WORLD, o, s.mesh()); }
   if (entvar) { return std::make_unique<FS<3, true>>(MPI_COMM_WORLD, o, s.mesh()); }
   return std::make_unique<FS<3, false>>(MPI_COMM_WORLD, o, s.mesh());
}
/// conservative variables of state k at every true dof
static Vector consState(const Spec &s, ParFiniteElementSpace &fes, int k)
{
   ParGridFunction gf(&fes);
   VectorFunctionCoefficient c(s.dim + 2, [&](const Vector &x, Vector &q) { s.prim(s.st[size_t(k)], x.GetData(), q.GetData()); });
   gf.ProjectCoefficient(c);
   if (s.jump > 0)
   {
      Array<int> vd;
      Vector v;
      for (int e = 0; e < fes.GetNE(); ++e)
      {
         fes.GetElementVDofs(e, vd);
         gf.GetSubVector(vd, v);
         Vector ctr(s.dim);
         ElementTransformation *T = fes.GetElementTransformation(e);
         T->Transform(Geometries.GetCenter(fes.GetMesh()->GetElementBaseGeometry(e)), ctr);
         v *= 1.0 + s.jump * std::sin(17 * ctr(0) + 11 * ctr(s.dim - 1) + s.ph[0]);
         gf.SetSubVector(vd, v);
      }
   }
   Vector x(fes.GetTrueVSize());
   gf.GetTrueDofs(x);
   return x;
}
static double gabs(const Vector &a, const Vector &b)
{
   double t = 0;
   for (int i = 0; i < a.Size(); ++i) { t += std::fabs(a(i) * b(i)); }
   return gsum(t);
}

// ------------------------------------------------------------- own boundary terms
template <typename T>
static void eulerFlux(const T *q, const double *n, int dim, T *f)
{
   T k = 0, un = 0;
   for (int d = 0; d < dim; ++d) { k += q[1 + d] * q[1 + d]; un += q[1 + d] * n[d]; }
   T p = gm1 * (q[dim + 1] - 0.5 * k / q[0]);
   un /= q[0];
   f[0] = q[0] * un;
   for (int d = 0; d < dim; ++d) { f[1 + d] = q[1 + d] * un + n[d] * p; }
   f[dim + 1] = (q[dim + 1] + p) * un;
}
/// F(q).n plus (|A| - A)/2 (q - qb) with A = dF/dq at qb: upwinding by the boundary state
static void charFlux(const double *qb, const double *q, const double *n, int dim, double *f)
{
   const int ns = dim + 2;
   auto Amul = [&](const double *v, double *r) {
      std::complex<double> z[5], g[5];
      for (int i = 0; i < ns; ++i) { z[i] = {qb[i], 1e-40 * v[i]}; }
      eulerFlux(z, n, dim, g);
      for (int i = 0; i < ns; ++i) { r[i] = g[i].imag() / 1e-40; }
   };
   double nn = 0, un = 0;
   for (int d = 0; d < dim; ++d) { nn += n[d] * n[d]; un += qb[1 + d] * n[d] / qb[0]; }
   double c = std::sqrt(gam * press(qb, dim) / qb[0] * nn);
   double l[3] = {un - c, un, un + c}, g[3];
   for (int i = 0; i < 3; ++i) { g[i] = 0.5 * (std::fabs(l[i]) - l[i]); }
   // Newton form of the quadratic through (l, g)
   double d1 = (g[1] - g[0]) / (l[1] - l[0]), d2 = ((g[2] - g[1]) / (l[2] - l[1]) - d1) / (l[2] - l[0]);
   double v[5], a[5], b[5];
   for (int i = 0; i < ns; ++i) { v[i] = q[i] - qb[i]; }
   Amul(v, a);
   for (int i = 0; i < ns; ++i) { a[i] -= l[0] * v[i]; }
   Amul(a, b);
   for (int i = 0; i < ns; ++i) { b[i] -= l[1] * a[i]; }
   eulerFlux(q, n, dim, f);
   for (int i = 0; i < ns; ++i) { f[i] += g[0] * v[i] + d1 * a[i] + d2 * b[i]; }
}
static void freeStream(const Spec &s, double *q)
{
   for (int i = 0; i < s.dim + 2; ++i) { q[i] = 0; }
   q[0] = 1;
   double a = s.aoa * M_PI / 180;
   if (s.dim == 1) { q[1] = s.mach; }
   else { q[1] = s.mach * std::cos(a); q[2] = s.mach * std::sin(a); }
   q[s.dim + 1] = 1 / (gam * gm1) + 0.5 * s.mach * s.mach;
}
static void vortexState(const double *x, double *q)
{
   // isentropic vortex: radius 1, Mach 0.5, density 2, pressure 1/gamma at the inner radius; clockwise is negative theta
   double r2 = x[0] * x[0] + x[1] * x[1], M = 0.5;
   double rho = 2.0 * std::pow(1 + 0.5 * gm1 * M * M * (1 - 1 / r2), 1 / gm1);
   double p = std::pow(rho / 2.0, gam) / gam;
   // total enthalpy constant: (1 + gm1/2 Ma^2) a^2 = (1 + gm1/2 M^2) ai^2
   double a2 = gam * p / rho, ai2 = gam * (1 / gam) / 2.0;
   double Ma = std::sqrt(2 / gm1 * (ai2 / a2 * (1 + 0.5 * gm1 * M * M) - 1)), V = Ma * std::sqrt(a2), r = std::sqrt(r2);
   q[0] = rho;
   q[1] = -rho * V * x[1] / r;
   q[2] = rho * V * x[0] / r;
   q[3] = p / gm1 + 0.5 * rho * V * V;
}
static void pumpState(double t, double *q)
{
   double u = 0.05, X = u * (1 - std::cos(t));
   q[0] = 1 / (1 - X);
   q[1] = q[0] * u * std::sin(t);
   q[2] = 0;
   q[3] = std::pow(q[0], gam) / gm1 + 0.5 * q[1] * q[1] / q[0];
}
/// the inviscid boundary flux the options ask for
static void bcFlux(const Spec &s, int kind, double t, const double *x, const double *n, const double *q, double *f)
{
   const int dim = s.dim, ns = dim + 2;
   double qb[5];
   if (kind == 1 || kind == 4)
   {
      for (int i = 0; i < ns; ++i) { f[i] = 0; }
      for (int d = 0; d < dim; ++d) { f[1 + d] = n[d] * press(q, dim); }
   }
   else if (kind == 5)
   {
      double d2 = (x[0] - 0.5) * (x[0] - 0.5) + x[1] * x[1], dA = 0;
      for (int d = 0; d < dim; ++d) { dA += n[d] * n[d]; }
      double U = -s.control * std::exp(-d2 / (0.1 * 0.1)) * std::sqrt(dA), p = press(q, dim);
      for (int i = 0; i < ns; ++i) { f[i] = q[i] * U; }
      for (int d = 0; d < dim; ++d) { f[1 + d] += n[d] * p; }
      f[dim + 1] += p * U;
   }
   else if (kind == 0) { freeStream(s, qb); charFlux(qb, q, n, dim, f); }
   else if (kind == 2) { vortexState(x, qb); charFlux(qb, q, n, dim, f); }
   else
   {
      pumpState(t, qb);
      charFlux(qb, q, n, dim, f);
      // the correction along dq/dw w that makes the entropy flux that of the boundary state
      double w[5], Aw[5], wf = 0, psi = 0, un = 0, wAw = 0;
      entVars(q, dim, w);
      for (int i = 0; i < ns; ++i) { wf += w[i] * f[i]; }
      for (int d = 0; d < dim; ++d) { psi += q[1 + d] * n[d]; un += qb[1 + d] * n[d] / qb[0]; }
      // dq/dw w by differences of the (analytic) map
      double h = 1e-5, wp[5], wm[5], qp[5], qm[5];
      for (int i = 0; i < ns; ++i) { wp[i] = w[i] * (1 + h); wm[i] = w[i] * (1 - h); }
      consVars(wp, dim, qp);
      consVars(wm, dim, qm);
      for (int i = 0; i < ns; ++i) { Aw[i] = (qp[i] - qm[i]) / (2 * h); wAw += Aw[i] * w[i]; }
      double c = (wf - psi - un * entropyOf(qb, dim)) / wAw;
      for (int i = 0; i < ns; ++i) { f[i] -= c * Aw[i]; }
   }
}
/// visit the nodes of the boundary faces: attribute, position, normal times weight, state (conservative)
template <typename F>
static void bdrNodes(const Spec &s, ParFiniteElementSpace &fes, const Vector &qcons, F fn)
{
   if (s.periodic) { return; }
   ParGridFunction gf(&fes);
   gf.SetFromTrueDofs(qcons);
   ParMesh &m = *fes.GetParMesh();
   Array<int> vd;
   Vector v, nrm(s.dim), x(s.dim);
   for (int b = 0; b < fes.GetNBE(); ++b)
   {
      FaceElementTransformations *T = m.GetBdrFaceTransformations(b);
      if (T == nullptr) { continue; }
      const FiniteElement *fe = fes.GetFE(T->Elem1No);
      const FiniteElement *ff = fes.FEColl()->FiniteElementForGeometry(s.dim == 1 ? Geometry::POINT : s.dim == 2 ? Geometry::SEGMENT : Geometry::TRIANGLE);
      fes.GetElementVDofs(T->Elem1No, vd);
      gf.GetSubVector(vd, v);
      const int nd = fe->GetDof();
      for (int i = 0; i < ff->GetDof(); ++i)
      {
         const IntegrationPoint &fp = ff->GetNodes().IntPoint(i);
         IntegrationPoint ep;
         ep.Init(0);
         T->Loc1.Transform(fp, ep);
         int j = -1;
         double best = 1e-8;
         for (int k = 0; k < nd; ++k)
         {
            const IntegrationPoint &np = fe->GetNodes().IntPoint(k);
            double d = std::fabs(np.x - ep.x) + std::fabs(np.y - ep.y) + std::fabs(np.z - ep.z);
            if (d < best) { best = d; j = k; }
         }
         SIM_CHECK(j >= 0, "face-nodes", "%s: a node of a boundary face is no node of its element", s.str().c_str());
         T->Elem1->Transform(ep, x);
         T->Face->SetIntPoint(&fp);
         if (s.dim == 1) { nrm(0) = ep.x > 0.5 ? 1.0 : -1.0; }
         else { CalcOrtho(T->Face->Jacobian(), nrm); }
         double w = s.dim == 1 ? 1.0 : fp.weight;
         nrm *= w;
         double q[5];
         for (int c = 0; c < s.dim + 2; ++c) { q[c] = v(c * nd + j); }
         if constexpr (std::is_invocable_v<F, int, const double *, const double *, const double *, const int *>)
         {
            int d[5];
            for (int c = 0; c < s.dim + 2; ++c) { d[c] = vd[c * nd + j]; }
            fn(m.GetBdrAttribute(b), x.GetData(), nrm.GetData(), q, d);
         }
         else { fn(m.GetBdrAttribute(b), x.GetData(), nrm.GetData(), q); }
      }
   }
}
/// the diagonal of the mass matrix at the true dofs; with `local` scaled by the size of the element
static Vector ownMass(ParFiniteElementSpace &fes, bool local)
{
   ParGridFunction gf(&fes);
   gf = 0.0;
   Array<int> vd;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      const FiniteElement *fe = fes.GetFE(e);
      ElementTransformation *T = fes.GetElementTransformation(e);
      fes.GetElementVDofs(e, vd);
      Vector v(vd.Size());
      for (int j = 0; j < fe->GetDof(); ++j)
      {
         const IntegrationPoint &ip = fe->GetNodes().IntPoint(j);
         T->SetIntPoint(&ip);
         double J = T->Jacobian().Det(), m = ip.weight * J;
         if (local) { m /= std::pow(J, 1.0 / fe->GetDim()); }
         for (int c = 0; c < fes.GetVDim(); ++c) { v(c * fe->GetDof() + j) = m; }
      }
      gf.AddElementVector(vd, v);
   }
   Vector m(fes.GetTrueVSize());
   fes.Dof_TrueDof_Matrix()->MultTranspose(gf, m);
   return m;
}
/// the viscous terms from the Navier-Stokes stress and heat flux of the discrete gradient; mask marks boundary nodes
static void ownViscous(const Spec &s, ParFiniteElementSpace &fes, const Vector &q, Vector &out, Vector &mask)
{
   const int dim = s.dim, ns = dim + 2;
   const double Re = s.opts["flow-param"]["Re"], Pr = 0.72;
   const bool suth = s.opts["flow-param"]["mu"].get<double>() < 0;
   ParGridFunction gf(&fes), r(&fes), mk(&fes);
   gf.SetFromTrueDofs(q);
   r = 0.0;
   mk = 0.0;
   Array<int> vd;
   Vector v;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      const auto &fe = dynamic_cast<const mfem::SBPFiniteElement &>(*fes.GetFE(e));
      ElementTransformation *T = fes.GetElementTransformation(e);
      fes.GetElementVDofs(e, vd);
      gf.GetSubVector(vd, v);
      const int nd = fe.GetDof();
      std::vector<DenseMatrix> adj(static_cast<size_t>(nd), DenseMatrix(dim));
      std::vector<double> J(static_cast<size_t>(nd));
      DenseMatrix W(nd, ns);
      for (int i = 0; i < nd; ++i)
      {
         T->SetIntPoint(&fe.GetNodes().IntPoint(i));
         J[size_t(i)] = T->Jacobian().Det();
         CalcAdjugate(T->Jacobian(), adj[size_t(i)]);
         double qq[5], w[5];
         for (int c = 0; c < ns; ++c) { qq[c] = v(c * nd + i); }
         entVars(qq, dim, w);
         for (int c = 0; c < ns; ++c) { W(i, c) = w[c]; }
      }
      // weak derivative in direction d: the average of metrics times the reference operator
      auto Qx = [&](int d, int i, int j) {
         double t = 0;
         for (int k = 0; k < dim; ++k) { t += 0.5 * (adj[size_t(i)](k, d) + adj[size_t(j)](k, d)) * fe.Q[k](j, i); }
         return t;
      };
      Vector el(nd * ns);
      el = 0.0;
      for (int i = 0; i < nd; ++i)
      {
         double D[5][3] = {};
         for (int d = 0; d < dim; ++d)
         {
            for (int j = 0; j < nd; ++j)
            {
               double Q = Qx(d, i, j) / (fe.GetNodes().IntPoint(i).weight * J[size_t(i)]);
               for (int c = 0; c < ns; ++c) { D[c][d] += Q * W(j, c); }
            }
         }
         double wl = W(i, ns - 1), RT = -1 / wl, u[3], du[3][3], div = 0, mu = 1.0;
         if (suth) { double T2 = gam * RT, ST = 198.6 / 460.0; mu = T2 * std::sqrt(T2) * (1 + ST) / (T2 + ST); }
         mu /= Re;
         for (int a = 0; a < dim; ++a) { u[a] = -W(i, 1 + a) / wl; }
         for (int a = 0; a < dim; ++a) { for (int d = 0; d < dim; ++d) { du[a][d] = -(D[1 + a][d] + u[a] * D[ns - 1][d]) / wl; } div += du[a][a]; }
         for (int d = 0; d < dim; ++d)
         {
            double F[5] = {};
            for (int a = 0; a < dim; ++a)
            {
               F[1 + a] = mu * (du[a][d] + du[d][a] - (a == d ? 2.0 / 3.0 * div : 0.0));
               F[ns - 1] += u[a] * F[1 + a];
            }
            F[ns - 1] += mu * gam / (gm1 * Pr) * D[ns - 1][d] / (wl * wl);
            for (int k = 0; k < nd; ++k) { double Q = Qx(d, i, k); for (int c = 0; c < ns; ++c) { el(c * nd + k) += Q * F[c]; } }
         }
      }
      r.AddElementVector(vd, el);
   }
   out.SetSize(fes.GetTrueVSize());
   mask.SetSize(fes.GetTrueVSize());
   fes.Dof_TrueDof_Matrix()->MultTranspose(r, out);
   ParMesh &m = *fes.GetParMesh();
   if (!s.periodic)
   {
      for (int b = 0; b < fes.GetNBE(); ++b)
      {
         FaceElementTransformations *T = m.GetBdrFaceTransformations(b);
         if (T == nullptr) { continue; }
         const FiniteElement *fe = fes.GetFE(T->Elem1No);
         const FiniteElement *ff = fes.FEColl()->FiniteElementForGeometry(dim == 2 ? Geometry::SEGMENT : Geometry::TRIANGLE);
         fes.GetElementVDofs(T->Elem1No, vd);
         for (int i = 0; i < ff->GetDof(); ++i)
         {
            IntegrationPoint ep;
            ep.Init(0);
            T->Loc1.Transform(ff->GetNodes().IntPoint(i), ep);
            for (int k = 0; k < fe->GetDof(); ++k)
            {
               const IntegrationPoint &np = fe->GetNodes().IntPoint(k);
               if (std::fabs(np.x - ep.x) + std::fabs(np.y - ep.y) + std::fabs(np.z - ep.z) < 1e-8) { for (int c = 0; c < ns; ++c) { mk(vd[c * fe->GetDof() + k]) = 1; } }
            }
         }
      }
   }
   fes.Dof_TrueDof_Matrix()->MultTranspose(mk, mask);
}

// ------------------------------------------------------------- own inviscid residual
static double logMean(double a, double b)
{
   double r = (a - b) / (a + b), f = r * r;
   if (f < 1e-4) { return 0.5 * (a + b) / (1 + f / 3 + f * f / 5 + f * f * f / 7); }
   return (a - b) / std::log(a / b);
}
/// the entropy conservative flux of Ismail and Roe along n
static void irFlux(const double *a, const double *b, const double *n, int dim, double *f)
{
   double za[5], zb[5], m[5];
   auto z = [&](const double *q, double *t) {
      double p = press(q, dim);
      t[0] = std::sqrt(q[0] / p);
      for (int d = 0; d < dim; ++d) { t[1 + d] = t[0] * q[1 + d] / q[0]; }
      t[dim + 1] = std::sqrt(q[0] * p);
   };
   z(a, za);
   z(b, zb);
   for (int i = 0; i < dim + 2; ++i) { m[i] = 0.5 * (za[i] + zb[i]); }
   double l1 = logMean(za[0], zb[0]), l5 = logMean(za[dim + 1], zb[dim + 1]);
   double rho = m[0] * l5, p1 = m[dim + 1] / m[0], p2 = ((gam + 1) * l5 / l1 + gm1 * m[dim + 1] / m[0]) / (2 * gam);
   double un = 0, k = 0;
   for (int d = 0; d < dim; ++d) { un += m[1 + d] / m[0] * n[d]; k += m[1 + d] * m[1 + d] / (m[0] * m[0]); }
   f[0] = rho * un;
   for (int d = 0; d < dim; ++d) { f[1 + d] = rho * un * m[1 + d] / m[0] + p1 * n[d]; }
   f[dim + 1] = rho * un * (gam * p2 / (rho * gm1) + 0.5 * k);
}
/// |u.n| + a |n|
static double radius(const double *q, const double *n, int dim)
{
   double un = 0, nn = 0;
   for (int d = 0; d < dim; ++d) { un += q[1 + d] / q[0] * n[d]; nn += n[d] * n[d]; }
   return std::fabs(un) + std::sqrt(gam * press(q, dim) / q[0] * nn);
}
/// dq/dw v: the Hessian of the potential of the entropy variables
static void dqdwMul(const double *q, const double *v, int dim, double *r)
{
   double p = press(q, dim), Hh = (q[dim + 1] + p) / q[0], A[5][5];
   const int ns = dim + 2;
   for (int i = 0; i <= dim; ++i) { for (int j = 0; j <= dim; ++j) { A[i][j] = q[i] * q[j] / q[0] + (i == j && i > 0 ? p : 0); } }
   for (int i = 0; i <= dim; ++i) { A[i][dim + 1] = A[dim + 1][i] = i == 0 ? q[dim + 1] : q[i] * Hh; }
   A[dim + 1][dim + 1] = q[0] * Hh * Hh - gam * p / q[0] * p / gm1;
   for (int i = 0; i < ns; ++i) { r[i] = 0; for (int j = 0; j < ns; ++j) { r[i] += A[i][j] * v[j]; } }
}
/// monomials up to degree p at the nodes, with their derivatives
static void monomials(const FiniteElement &fe, int p, DenseMatrix &V, std::vector<DenseMatrix> &dV)
{
   const int dim = fe.GetDim(), nd = fe.GetDof();
   std::vector<std::array<int, 3>> e;
   for (int a = 0; a <= p; ++a) { for (int b = 0; b <= (dim > 1 ? p - a : 0); ++b) { for (int c = 0; c <= (dim > 2 ? p - a - b : 0); ++c) { e.push_back({a, b, c}); } } }
   V.SetSize(nd, int(e.size()));
   dV.assign(size_t(dim), DenseMatrix(nd, int(e.size())));
   for (int i = 0; i < nd; ++i)
   {
      const IntegrationPoint &ip = fe.GetNodes().IntPoint(i);
      double x[3] = {ip.x - 0.3, ip.y - 0.3, ip.z - 0.3};
      for (int k = 0; k < int(e.size()); ++k)
      {
         auto mono = [&](int d) {
            double t = 1;
            for (int c = 0; c < dim; ++c)
            {
               int n = e[size_t(k)][size_t(c)];
               if (c == d) { t *= n; --n; }
               for (int j = 0; j < n; ++j) { t *= x[c]; }
            }
            return t;
         };
         V(i, k) = mono(-1);
         for (int d = 0; d < dim; ++d) { dV[size_t(d)](i, k) = mono(d); }
      }
   }
}
/// the residual of the flux form, interface and boundary fluxes and dissipation asked for
static Vector ownInviscid(const Spec &s, ParFiniteElementSpace &fes, const Vector &q)
{
   const int dim = s.dim, ns = dim + 2;
   ParGridFunction gf(&fes), r(&fes);
   gf.SetFromTrueDofs(q);
   r = 0.0;
   Array<int> vd, vd2;
   Vector v, v2;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      const auto &fe = dynamic_cast<const mfem::SBPFiniteElement &>(*fes.GetFE(e));
      ElementTransformation *T = fes.GetElementTransformation(e);
      fes.GetElementVDofs(e, vd);
      gf.GetSubVector(vd, v);
      const int nd = fe.GetDof();
      std::vector<DenseMatrix> adj(static_cast<size_t>(nd), DenseMatrix(dim));
      DenseMatrix W(nd, ns), U(ns, nd);
      for (int i = 0; i < nd; ++i)
      {
         T->SetIntPoint(&fe.GetNodes().IntPoint(i));
         CalcAdjugate(T->Jacobian(), adj[size_t(i)]);
         double w[5];
         for (int c = 0; c < ns; ++c) { U(c, i) = v(c * nd + i); }
         entVars(U.GetColumn(i), dim, w);
         for (int c = 0; c < ns; ++c) { W(i, c) = w[c]; }
      }
      DenseMatrix V, VH, M, el(nd, ns);
      std::vector<DenseMatrix> dV;
      monomials(fe, s.degree, V, dV);
      // the operators differentiate polynomials of their degree exactly
      for (int d = 0; d < dim; ++d)
      {
         for (int i = 0; i < nd; ++i)
         {
            for (int k = 0; k < V.Width(); ++k)
            {
               double t = -fe.GetNodes().IntPoint(i).weight * dV[size_t(d)](i, k), m = std::fabs(t);
               for (int j = 0; j < nd; ++j) { t += fe.Q[d](j, i) * V(j, k); m += std::fabs(fe.Q[d](j, i) * V(j, k)); }
               SIM_CHECK(std::fabs(t) <= 1e-9 * (m + 1e-3), "derivative-operator", "%s: the operator of direction %d errs by %.3g (of %.3g) on a polynomial of degree %d", s.str().c_str(), d, t, m, s.degree);
            }
         }
      }
      el = 0.0;
      for (int i = 0; i < nd; ++i)
      {
         for (int j = 0; j < nd; ++j)
         {
            double nrm[3] = {}, f[5];
            if (s.euler)
            {
               for (int d = 0; d < dim; ++d) { for (int k = 0; k < dim; ++k) { nrm[d] += adj[size_t(j)](k, d) * fe.Q[k](i, j); } }
               eulerFlux(U.GetColumn(j), nrm, dim, f);
               for (int c = 0; c < ns; ++c) { el(i, c) -= f[c]; }
            }
            else
            {
               if (i == j) { continue; }
               for (int d = 0; d < dim; ++d) { for (int k = 0; k < dim; ++k) { nrm[d] += adj[size_t(i)](k, d) * fe.Q[k](j, i) - adj[size_t(j)](k, d) * fe.Q[k](i, j); } }
               irFlux(U.GetColumn(i), U.GetColumn(j), nrm, dim, f);
               for (int c = 0; c < ns; ++c) { el(i, c) += f[c]; }
            }
         }
      }
      if (s.lps > 0)
      {
         // local projection: what the polynomials do not represent, damped by the spectral radius.  The directions are the columns of the
         // adjugate, as the regression test of the steady vortex pins it
         const int nm = V.Width();
         VH.SetSize(nm, nd);
         for (int k = 0; k < nm; ++k) { for (int i = 0; i < nd; ++i) { VH(k, i) = V(i, k) * fe.GetNodes().IntPoint(i).weight; } }
         M.SetSize(nm);
         Mult(VH, V, M);
         DenseMatrixInverse Mi(M);
         DenseMatrix G(nm, nd), P(nd, nd);
         Mi.Mult(VH, G);
         Mult(V, G, P);
         for (int i = 0; i < nd; ++i) { for (int j = 0; j < nd; ++j) { P(i, j) = (i == j) - P(i, j); } }
         DenseMatrix Pw(nd, ns), S(nd, ns), R(nd, ns);
         Mult(P, W, Pw);
         for (int i = 0; i < nd; ++i)
         {
            double sp = 0, pv[5], t[5];
            for (int d = 0; d < dim; ++d)
            {
               double a[3];
               for (int k = 0; k < dim; ++k) { a[k] = adj[size_t(i)](k, d); }
               sp += radius(U.GetColumn(i), a, dim) / dim;
            }
            for (int c = 0; c < ns; ++c) { pv[c] = Pw(i, c); }
            dqdwMul(U.GetColumn(i), pv, dim, t);
            for (int c = 0; c < ns; ++c) { S(i, c) = s.lps * sp * fe.GetNodes().IntPoint(i).weight * t[c]; }
         }
         MultAtB(P, S, R);
         el += R;
      }
      Vector ev(el.GetData(), nd * ns);
      r.AddElementVector(vd, ev);
   }
   if (s.dsbp)
   {
      ParMesh &m = *fes.GetParMesh();
      gf.ExchangeFaceNbrData();
      const FiniteElement *ff = fes.FEColl()->FiniteElementForGeometry(Geometry::SEGMENT);
      auto nodeAt = [&](const FiniteElement &fe, IntegrationPointTransformation &L, const IntegrationPoint &fp) {
         IntegrationPoint ep;
         ep.Init(0);
         L.Transform(fp, ep);
         for (int k = 0; k < fe.GetDof(); ++k)
         {
            const IntegrationPoint &np = fe.GetNodes().IntPoint(k);
            if (std::fabs(np.x - ep.x) + std::fabs(np.y - ep.y) < 1e-8) { return k; }
         }
         return -1;
      };
      auto face = [&](FaceElementTransformations *T, const FiniteElement &e1, const FiniteElement &e2, bool both) {
         const int n1 = e1.GetDof(), n2 = e2.GetDof();
         Vector a(n1 * ns), b(n2 * ns), nrm(dim);
         a = 0.0;
         b = 0.0;
         for (int i = 0; i < ff->GetDof(); ++i)
         {
            const IntegrationPoint &fp = ff->GetNodes().IntPoint(i);
            int j1 = nodeAt(e1, T->Loc1, fp), j2 = nodeAt(e2, T->Loc2, fp);
            SIM_CHECK(j1 >= 0 && j2 >= 0, "face-nodes", "%s: a node of a face is no node of its elements", s.str().c_str());
            T->Face->SetIntPoint(&fp);
            CalcOrtho(T->Face->Jacobian(), nrm);
            nrm *= fp.weight;
            double l[5], rr[5], wl[5], wr[5], qa[5], f[5], t[5];
            for (int c = 0; c < ns; ++c) { l[c] = v(c * n1 + j1); rr[c] = v2(c * n2 + j2); qa[c] = 0.5 * (l[c] + rr[c]); }
            irFlux(l, rr, nrm.GetData(), dim, f);
            entVars(l, dim, wl);
            entVars(rr, dim, wr);
            for (int c = 0; c < ns; ++c) { wl[c] -= wr[c]; }
            dqdwMul(qa, wl, dim, t);
            double lam = s.iface * radius(qa, nrm.GetData(), dim);
            for (int c = 0; c < ns; ++c) { a(c * n1 + j1) += f[c] + lam * t[c]; b(c * n2 + j2) -= f[c] + lam * t[c]; }
         }
         r.AddElementVector(vd, a);
         if (both) { r.AddElementVector(vd2, b); }
      };
      for (int i = 0; i < m.GetNumFaces(); ++i)
      {
         FaceElementTransformations *T = m.GetInteriorFaceTransformations(i);
         if (T == nullptr) { continue; }
         fes.GetElementVDofs(T->Elem1No, vd);
         fes.GetElementVDofs(T->Elem2No, vd2);
         gf.GetSubVector(vd, v);
         gf.GetSubVector(vd2, v2);
         face(T, *fes.GetFE(T->Elem1No), *fes.GetFE(T->Elem2No), true);
      }
      for (int i = 0; i < m.GetNSharedFaces(); ++i)
      {
         FaceElementTransformations *T = m.GetSharedFaceTransformations(i);
         int nb = T->Elem2No - m.GetNE();
         fes.GetElementVDofs(T->Elem1No, vd);
         fes.GetFaceNbrElementVDofs(nb, vd2);
         gf.GetSubVector(vd, v);
         gf.FaceNbrData().GetSubVector(vd2, v2);
         face(T, *fes.GetFE(T->Elem1No), *fes.GetFaceNbrFE(nb), false);
      }
   }
   bdrNodes(s, fes, q, [&](int attr, const double *x, const double *nr, const double *qq, const int *dofs) {
      double fl[5];
      bcFlux(s, s.bc[size_t(attr - 1)], s.time, x, nr, qq, fl);
      for (int c = 0; c < ns; ++c) { r(dofs[c]) += fl[c]; }
   });
   Vector out(fes.GetTrueVSize());
   fes.Dof_TrueDof_Matrix()->MultTranspose(r, out);
   return out;
}
struct Obs { std::string key; double v, scale; };

/// one evaluation of everything; the checks of W01 (invariants) or W02 (independence, derivatives, outputs)
static void spatial(const Spec &s, std::vector<Obs> &obs)
{
   mfem::NonlinearFormIntegrator::FaceEnergyHook = faceEnergy;
   const bool w1 = gProp == "W01", w2 = !w1;
   auto f = make(s, s.entvar);
   auto &A = f->A();
   auto &fes = f->space();
   const int dim = s.dim, ns = dim + 2, n = fes.GetTrueVSize(), nn = n / ns;
   SIM_CHECK(fes.GetOrdering() == Ordering::byVDIM, "internal", "ordering");
   std::string S = s.str();
   auto toState = [&](const Vector &q) { Vector u(q); if (s.entvar) { for (int i = 0; i < nn; ++i) { entVars(q.GetData() + i * ns, dim, u.GetData() + i * ns); } } return u; };
   auto resid = [&](const Vector &q) { Vector u = toState(q), R(n); miso::MISOInputs in{{"state", u}, {"control", s.control}, {"time", s.time}}; R = 1e30; A.calcResidual(in, R); return R; };
   Vector q = consState(s, fes, 0), w(n), u = toState(q);
   // use the solver for something else in between: nothing of it may stay behind
   const Vector uo = s.poison ? toState(consState(s, fes, 1)) : Vector();
   auto elsewhere = [&] {
      if (!s.poison) { return; }
      Vector X(n);
      miso::MISOInputs io{{"state", uo}, {"control", s.control + 0.3}, {"time", s.time + 1.7}};
      A.calcResidual(io, X);
      if (s.poison > 1) { calcEntropy(f->R(), io); }
      if (s.poison > 2 && !s.dsbp && s.dim < 3) { getJacobian(f->R(), io, "state"); }
   };
   for (int i = 0; i < nn; ++i) { entVars(q.GetData() + i * ns, dim, w.GetData() + i * ns); }
   miso::MISOInputs in{{"state", u}, {"control", s.control}, {"time", s.time}};
   Vector R = resid(q);
   double rn = gnorm(R);
   obs.push_back({"|R|", rn, rn});
   double wr = gdot(w, R), ws = gabs(w, R);
   obs.push_back({"w'R", wr, ws});
   // own boundary terms
   double bf[5] = {0, 0, 0, 0, 0}, bent = 0, bscale = 0, force[3] = {0, 0, 0}, bdryEnt = 0, bdryScale = 0, fscale = 0;
   std::vector<int> marked;
   for (int b = 1; b <= int(s.bc.size()); ++b) { if ((int(s.ph[0] * 100) >> b) & 1) { marked.push_back(b); } }
   bdrNodes(s, fes, q, [&](int attr, const double *x, const double *nr, const double *qq) {
      double fl[5], ww[5], psi = 0, dA = 0;
      bcFlux(s, s.bc[size_t(attr - 1)], s.time, x, nr, qq, fl);
      entVars(qq, dim, ww);
      for (int i = 0; i < ns; ++i) { bf[i] += fl[i]; bent += ww[i] * fl[i]; bscale += std::fabs(ww[i] * fl[i]); }
      for (int d = 0; d < dim; ++d) { psi += qq[1 + d] * nr[d]; dA += nr[d] * nr[d]; }
      bent -= psi;
      if (std::find(marked.begin(), marked.end(), attr) != marked.end())
      {
         for (int d = 0; d < dim; ++d) { force[d] += nr[d] * press(qq, dim); fscale += std::fabs(nr[d] * press(qq, dim)); }
         const double rref = std::pow(1 + 0.5 * gm1 * 0.04, 1 / gm1), pref = std::pow(1 + 0.5 * gm1 * 0.04, gam / gm1) / gam;
         double d2 = (x[0] - 0.5) * (x[0] - 0.5) + (dim > 1 ? x[1] * x[1] : 0.0);
         double e = std::exp(-d2 / (0.1 * 0.1)) * (entropyOf(qq, dim) + rref * (press(qq, dim) - pref) / pref) * std::sqrt(dA);
         bdryEnt += e;
         bdryScale += std::fabs(e);
      }
   });
   for (double &t : bf) { t = gsum(t); }
   bent = gsum(bent);
   bscale = gsum(bscale);
   // conservation: what the residual sums to is what crosses the boundary
   for (int c = 0; c < ns; ++c)
   {
      double a = 0, b = 0;
      for (int i = 0; i < nn; ++i) { a += R(i * ns + c); b += std::fabs(R(i * ns + c)); }
      a = gsum(a);
      b = gsum(b);
      obs.push_back({fmt("sum R%d", c), a, b});
      if (w1 && (!s.viscous || s.periodic || s.all(0) || c == 0))
      {
         SIM_CHECK(std::fabs(a - bf[c]) <= 1e-9 * (b + bscale + 1e-3), "not-conservative", "%s: equation %d: the residual sums to %.12g, the flux through the boundary is %.12g (absolute sum %.3g)", S.c_str(), c,
                   a, bf[c], b);
      }
   }
   const bool diss = s.lps > 0 || (s.dsbp && s.iface > 0) || s.viscous;
   if (w1 && !s.euler)
   {
      double tol = 1e-9 * (ws + bscale + 1e-3);
      if (!diss) { SIM_CHECK(std::fabs(wr - bent) <= tol, "entropy-not-conserved", "%s: w'R = %.12g, the boundary gives %.12g (scale %.3g)", S.c_str(), wr, bent, ws); }
      else { SIM_CHECK(wr - bent >= -tol, "entropy-grows", "%s: w'R = %.12g, the boundary gives %.12g (scale %.3g)", S.c_str(), wr, bent, ws); }
   }
   // a uniform flow stays uniform
   if (w1 && (s.periodic || s.all(0)))
   {
      Vector qf(n);
      double f0[5];
      freeStream(s, f0);
      for (int i = 0; i < n; ++i) { qf(i) = f0[i % ns]; }
      Vector Rf = resid(qf);
      double e = gmax(Rf.Normlinf());
      SIM_CHECK(e <= 1e-11, "free-stream", "%s: a uniform flow has residual %.3g", S.c_str(), e);
      probe("free stream");
   }
   if (w1 && s.viscous)
   {
      Spec si = s;
      si.opts["flow-param"]["viscous"] = false;
      si.viscous = false;
      auto g = make(si, s.entvar);
      Vector Ri(n), V, mask, uu = toState(q);
      miso::MISOInputs ii{{"state", uu}, {"control", s.control}, {"time", s.time}};
      g->A().calcResidual(ii, Ri);
      ownViscous(s, fes, q, V, mask);
      double m = 0, e = 0;
      for (int i = 0; i < n; ++i)
      {
         if (mask(i) > 0) { continue; }
         m = std::max(m, std::fabs(V(i)));
         e = std::max(e, std::fabs(R(i) - Ri(i) - V(i)));
      }
      m = gmax(m);
      e = gmax(e);
      SIM_CHECK(e <= 1e-9 * (m + rn) + 1e-12, "viscous-terms", "%s: the viscous terms differ by %.3g (of %.3g) from those of the Navier-Stokes stress and heat flux", S.c_str(), e, m);
      probe("viscous terms");
   }
   if (w1 && !s.viscous)
   {
      Vector O = ownInviscid(s, fes, q);
      double e = 0, m = gmax(O.Normlinf());
      int at = 0;
      for (int i = 0; i < n; ++i) { if (std::fabs(R(i) - O(i)) > e) { e = std::fabs(R(i) - O(i)); at = i; } }
      e = gmax(e);
      SIM_CHECK(e <= 1e-9 * m + 1e-11, "flux-form", "%s: the residual differs by %.3g (of %.3g, local equation %d) from the flux form and dissipation asked for", S.c_str(), e, m, at % ns);
      probe("flux form");
   }
   // the mass matrix is the diagonal norm of the discretisation
   {
      Vector md = ownMass(fes, s.entvar), v(n), Mv(n);
      for (int i = 0; i < n; ++i) { v(i) = 1.0 + std::sin(1.7 * i + 0.3 * sim::rank()); }
      f->mass()->Mult(v, Mv);
      for (int i = 0; i < n; ++i)
      {
         SIM_CHECK(std::fabs(Mv(i) - md(i) * v(i)) <= 1e-12 * md(i) * (1 + std::fabs(v(i))), "mass", "%s: entry %d of the mass matrix is %.15g, the cubature gives %.15g", S.c_str(), i, Mv(i) / v(i), md(i));
      }
   }
   // the entropy and its rate of change
   const bool energyOk = !(s.dsbp && s.nranks > 1);
   {
      double own = 0, osc = 0;
      ParGridFunction gf(&fes);
      gf.SetFromTrueDofs(q);
      Array<int> vd;
      Vector v;
      for (int e = 0; e < fes.GetNE(); ++e)
      {
         const FiniteElement *fe = fes.GetFE(e);
         ElementTransformation *T = fes.GetElementTransformation(e);
         fes.GetElementVDofs(e, vd);
         gf.GetSubVector(vd, v);
         for (int j = 0; j < fe->GetDof(); ++j)
         {
            const IntegrationPoint &ip = fe->GetNodes().IntPoint(j);
            T->SetIntPoint(&ip);
            double qq[5];
            for (int c = 0; c < ns; ++c) { qq[c] = v(c * fe->GetDof() + j); }
            double t = ip.weight * T->Weight() * entropyOf(qq, dim);
            own += t;
            osc += std::fabs(t);
         }
      }
      own = gsum(own);
      osc = gsum(osc);
      A.createOutput("entropy", json::object());
      elsewhere();
      double e1 = calcEntropy(f->R(), in), e2 = A.calcOutput("entropy", in);
      obs.push_back({"entropy", e1, osc});
      SIM_CHECK(std::fabs(e1 - own) <= 1e-10 * (osc + 1e-6) && std::fabs(e1 - e2) <= 1e-13 * (osc + 1e-6), "entropy-value", "%s: the entropy is %.14g, reported as %.14g by the residual and %.14g by the output", S.c_str(), own, e1, e2);
   }
   if (energyOk && !s.euler)
   {
      Vector ud(n);
      for (int i = 0; i < n; ++i) { ud(i) = std::sin(3.0 * i); }
      miso::MISOInputs ie{{"state", u}, {"state_dot", ud}, {"control", s.control}, {"time", s.time}, {"dt", s.ph[1]}};
      elsewhere();
      double ec = calcEntropyChange(f->R(), ie);
      obs.push_back({"entropy change", ec, ws + bscale});
      SIM_CHECK(std::fabs(ec - wr) <= 1e-9 * (ws + bscale + 1e-3), "entropy-change", "%s: the entropy change is %.12g, w'R is %.12g", S.c_str(), ec, wr);
      probe("entropy change");
   }
   if (w1) { return; }
   // ---- W02
   Vector q2 = consState(s, fes, 1);
   Vector R2 = resid(q2);
   obs.push_back({"|R2|", gnorm(R2), gnorm(R2)});
   elsewhere();
   Vector Rb = resid(q);
   Rb -= R;
   SIM_CHECK(gmax(Rb.Normlinf()) <= 1e-13 * (1 + rn), "history", "%s: the residual at a state changes by %.3g after an evaluation at another state", S.c_str(), gmax(Rb.Normlinf()));
   if (!s.bc.empty() && !marked.empty())
   {
      json bo{{"boundaries", marked}};
      double a = s.aoa * M_PI / 180, m2 = s.mach * s.mach;
      for (int d = 0; d < dim; ++d) { force[d] = gsum(force[d]); }
      fscale = gsum(fscale) / m2;
      bdryEnt = gsum(bdryEnt);
      bdryScale = gsum(bdryScale);
      const char *nm[] = {"drag", "lift", "boundary-entropy"};
      for (int k = 0; k < 3; ++k)
      {
         if (k == 2 && dim != 2) { continue; }
         A.createOutput(nm[k], bo);
         elsewhere();
         double v = A.calcOutput(nm[k], in);
         double c = dim == 1 ? (k == 0 ? 1.0 : 0.0) : (k == 0 ? std::cos(a) : -std::sin(a)), e = dim == 1 ? 0.0 : (k == 0 ? std::sin(a) : std::cos(a));
         double own = k == 2 ? bdryEnt : (c * force[0] + (dim > 1 ? e * force[1] : 0.0)) / m2, sc = k == 2 ? bdryScale : fscale;
         obs.push_back({nm[k], v, sc});
         if (!(s.viscous && k < 2)) { SIM_CHECK(std::fabs(v - own) <= 1e-10 * (sc + (k == 2 ? 1e-12 : 1e-8)), "output-value", "%s: %s over %s is %.12g, its definition gives %.12g", S.c_str(), nm[k], bo.dump().c_str(), v, own); }
         if (k < 2)
         {
            Vector g(n), dq(q2), up(u), um(u);
            g = 0.0;
            elsewhere();
            A.calcOutputPartial(nm[k], "state", in, g);
            dq = toState(q2);
            dq -= u;
            double h = 1e-5;
            up.Add(h, dq);
            um.Add(-h, dq);
            miso::MISOInputs ip{{"state", up}, {"control", s.control}, {"time", s.time}}, im{{"state", um}, {"control", s.control}, {"time", s.time}};
            double fd = (A.calcOutput(nm[k], ip) - A.calcOutput(nm[k], im)) / (2 * h), an = gdot(g, dq), gs = gabs(g, dq);
            SIM_CHECK(std::fabs(fd - an) <= 1e-6 * (gs + std::fabs(v) + fscale + 1e-6), "output-gradient", "%s: %s: difference quotient %.9g, gradient %.9g", S.c_str(), nm[k], fd, an);
            obs.push_back({std::string(nm[k]) + " gradient", an, gs});
            // all walls without slip: the force is the momentum the walls take up
            if (s.viscous && s.all(4) && int(marked.size()) == int(s.bc.size()))
            {
               double mom = 0, msc = 0;
               for (int i = 0; i < nn; ++i) { double t0 = c * R(i * ns + 1), t1 = e * R(i * ns + 2); mom += t0 + t1; msc += std::fabs(t0) + std::fabs(t1); }
               mom = gsum(mom) / m2;
               msc = gsum(msc) / m2;
               SIM_CHECK(std::fabs(mom - v) <= 1e-9 * (msc + 1e-6), "surface-force", "%s: %s is %.12g, the momentum through the walls gives %.12g", S.c_str(), nm[k], v, mom);
               probe("surface force");
            }
         }
      }
      probe("boundary outputs");
   }
   if (s.entvar)
   {
      auto fc = make(s, false);
      Vector Rc(n);
      miso::MISOInputs ic{{"state", q}, {"control", s.control}, {"time", s.time}};
      fc->A().calcResidual(ic, Rc);
      Rc -= R;
      SIM_CHECK(gmax(Rc.Normlinf()) <= 1e-9 * (1e-3 + rn), "variables", "%s: the residual in entropy variables differs by %.3g from that in conservative ones (norm %.3g)", S.c_str(), gmax(Rc.Normlinf()), rn);
      probe("entropy variables");
   }
   if (!s.dsbp)
   {
      Vector v = toState(q2), Jv(n), up(u), um(u), Rp(n), Rm(n);
      v -= u;
      miso::MISOInputs ij{{"state", u}, {"control", s.control}, {"time", s.time}};
      elsewhere();
      auto &J = getJacobian(f->R(), ij, "state");
      J.Mult(v, Jv);
      double h = 1e-6;
      up.Add(h, v);
      um.Add(-h, v);
      miso::MISOInputs ip{{"state", up}, {"control", s.control}, {"time", s.time}}, im{{"state", um}, {"control", s.control}, {"time", s.time}};
      A.calcResidual(ip, Rp);
      A.calcResidual(im, Rm);
      Vector dl(R), dr(Rp);
      dl -= Rm;
      dr -= R;
      dl /= h;
      dr /= h;
      Vector kink(dl);
      kink -= dr;
      double jn = gnorm(Jv);
      obs.push_back({"|J v|", jn, jn});
      Vector c(dl);
      c += dr;
      c *= 0.5;
      c -= Jv;
      double err = gnorm(c), kn = gnorm(kink);
      if (kn <= 1e-3 * (jn + 1e-3))
      {
         SIM_CHECK(err <= kn + 1e-6 * (jn + rn + 1e-3), "jacobian", "%s: the Jacobian times a direction differs by %.3g from the difference quotient (norm %.3g)", S.c_str(), err, jn);
         probe("jacobian");
      }
      Vector Ra = resid(q);
      Ra -= R;
      SIM_CHECK(gmax(Ra.Normlinf()) <= 1e-13 * (1 + rn), "history", "%s: the residual changes by %.3g after an assembly of the Jacobian", S.c_str(), gmax(Ra.Normlinf()));
   }
}
/// the largest step the CFL condition allows
static double ownStep(const Spec &s, ParFiniteElementSpace &fes, double cfl, const Vector &x)
{
   ParGridFunction gf(&fes);
   gf.SetFromTrueDofs(x);
   Array<int> vd;
   Vector v, a(s.dim), b(s.dim);
   double dt = 1e100;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      const FiniteElement *fe = fes.GetFE(e);
      ElementTransformation *T = fes.GetElementTransformation(e);
      fes.GetElementVDofs(e, vd);
      gf.GetSubVector(vd, v);
      const int nd = fe->GetDof();
      for (int i = 0; i < nd; ++i)
      {
         double q[5];
         for (int c = 0; c < s.dim + 2; ++c) { q[c] = v(c * nd + i); }
         double c = std::sqrt(gam * press(q, s.dim) / q[0]);
         T->Transform(fe->GetNodes().IntPoint(i), a);
         for (int j = 0; j < nd; ++j)
         {
            if (j == i) { continue; }
            T->Transform(fe->GetNodes().IntPoint(j), b);
            double d = 0, u = 0;
            for (int k = 0; k < s.dim; ++k) { d += (b(k) - a(k)) * (b(k) - a(k)); u += (b(k) - a(k)) * q[1 + k] / q[0]; }
            d = std::sqrt(d);
            dt = std::min(dt, cfl * d / (std::fabs(u) / d + c));
         }
      }
   }
   MPI_Allreduce(MPI_IN_PLACE, &dt, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
   return dt;
}
static const double rkA[8][8] = {
   {0}, {.06}, {.1923996296296296296296e-1, .7669337037037037037037e-1}, {.35975e-1, 0, .107925},
   {1.318683415233148260919747, 0, -5.042058063628562225427762, 4.220674648395413964508014},
   {-41.87259166432751461803758, 0, 159.4325621631374917700366, -122.1192135650100309202516, 5.531743066200053768252631},
   {-54.43015693531650433250642, 0, 207.0672513650184644273657, -158.6108137845899991828742, 6.991816585950242321992597, -.1859723106220323397765172e-1},
   {-54.66374178728197680241216, 0, 207.9528062553893734515825, -159.2889574744995071508960, 7.018743740796944434698171, -.1833878590504572306472782e-1, -.5119484997882099077875432e-3}};
static const double rkB[8] = {.3438957868357036009278820e-1, 0, 0, .2582624555633503404659559, .4209371189673537150642552, 4.405396469669310170148837, -176.4831190242986576151741, 172.3641334014150730294023};
static const double rkC[8] = {0, .06, .9593333333333333333333333e-1, .1439, .4973, .9725, .9995, 1};
/// W03: march in time and check every step against its definition
static void marching(Spec s, std::vector<Obs> &obs, std::vector<double> &logged)
{
   mfem::NonlinearFormIntegrator::FaceEnergyHook = faceEnergy;
   const int dim = s.dim, ns = dim + 2;
   const bool steady = s.opts["time-dis"]["steady"];
   std::string type = s.opts["time-dis"]["type"], S = s.str() + ", " + type;
   // the step size is chosen relative to the CFL condition at the initial state
   double tau = 0;
   {
      json o = s.opts;
      auto f0 = make(s, s.entvar);
      tau = ownStep(s, f0->space(), s.cfl, consState(s, f0->space(), 0));
   }
   json &td = s.opts["time-dis"];
   td["dt"] = tau;
   td["cfl"] = s.cfl;
   td["t-initial"] = s.time;
   td["t-final"] = s.time + s.span * tau;
   auto f = make(s, s.entvar), g = make(s, s.entvar);   // g evaluates residuals for the checks
   auto &fes = f->space();
   const int n = fes.GetTrueVSize(), nn = n / ns;
   Vector q0 = consState(s, fes, 0), x(q0);
   if (steady) { for (int i = 0; i < n; ++i) { double f0[5]; freeStream(s, f0); q0(i) = f0[i % ns] + s.pert * (q0(i) - f0[i % ns]); } x = q0; }
   if (s.entvar) { for (int i = 0; i < nn; ++i) { entVars(q0.GetData() + i * ns, dim, x.GetData() + i * ns); } }
   Vector xs(x), md = ownMass(fes, steady);
   auto resid = [&](const Vector &u, double t) { Vector R(n); miso::MISOInputs in{{"state", u}, {"time", t}}; g->A().calcResidual(in, R); return R; };
   auto entropy = [&](const Vector &u, double t) { miso::MISOInputs in{{"state", u}, {"time", t}}; return calcEntropy(g->R(), in); };
   auto prod = [&](const Vector &u, double t) {
      Vector R = resid(u, t), w(u);
      for (int i = 0; i < nn; ++i) { entVars(u.GetData() + i * ns, dim, w.GetData() + i * ns); }
      return gdot(w, R);
   };
   auto slope = [&](const Vector &u, double t) { Vector k = resid(u, t); for (int i = 0; i < n; ++i) { k(i) /= -md(i); } return k; };
   for (int rep = 0; rep < (s.again ? 2 : 1); ++rep)
   {
      if (rep == 1 && s.other)
      {
         probe(steady ? "second steady march from another state" : "second march from another state");
         // the second march starts elsewhere
         Vector y(consState(s, fes, 1));
         if (steady) { for (int i = 0; i < n; ++i) { double f0[5]; freeStream(s, f0); y(i) = f0[i % ns] + s.pert * 2 * (y(i) - f0[i % ns]); } }
         xs = y;
         if (s.entvar) { for (int i = 0; i < nn; ++i) { entVars(y.GetData() + i * ns, dim, xs.GetData() + i * ns); } }
      }
      x = xs;
      f->solve(x);
      auto &rec = f->rec;
      SIM_CHECK(rec.size() >= 1, "hooks", "%s: no terminal hook", S.c_str());
      const size_t N = rec.size() - 1;   // steps taken
      const int maxit = td["max-iter"];
      const double tf = td["t-final"];
      SIM_CHECK(rec[0].iter == 0 && rec[0].t == s.time, "start", "%s: the first step starts at time %.17g", S.c_str(), rec[0].t);
      { Vector d(rec[0].x); d -= xs; SIM_CHECK(gmax(d.Normlinf()) == 0.0, "start", "%s: the first step does not start from the given state", S.c_str()); }
      if (!steady || std::isfinite(gnorm(x))) { Vector d(rec[N].x); d -= x; SIM_CHECK(gmax(d.Normlinf()) == 0.0, "end", "%s: the final state differs from the one after the last step", S.c_str()); }
      const bool impl = steady || type == "MIDPOINT" || type == "RRK" || type == "RRKMIDPOINT";
      const bool relax = type.substr(0, 3) == "RRK";
      double r0 = 0, dtOld = 0, rPrev = 1e300;
      if (steady) { r0 = gnorm(resid(xs, s.time)); probe("steady"); }
      for (size_t k = 0; k < N; ++k)
      {
         const Rec &a = rec[k], &b = rec[k + 1];
         if ((impl && !b.conv) || (steady && !std::isfinite(gnorm(b.x)))) { probe("diverged"); obs.clear(); return; }
         // the step size
         double rk = steady ? gnorm(resid(a.x, a.t)) : 0.0;
         if (steady && rk > rPrev * (1 + 1e-6)) { probe("residual rose"); }
         rPrev = rk;
         double want = steady ? std::max(dtOld, tau * std::pow(r0 / rk, double(td["res-exp"]))) : bool(td["const-cfl"]) ? ownStep(s, fes, s.cfl, a.x) : tau;
         if (!steady && bool(td.value("exact-t-final", true))) { want = std::min(want, tf - a.t); }
         SIM_CHECK(std::fabs(a.dt - want) <= 1e-9 * want + 1e-15 * std::fabs(tf), "step-size", "%s: step %zu from t = %.12g (end %.12g) is %.15g, it should be %.15g", S.c_str(), k, a.t, tf, a.dt, want);
         dtOld = a.dt;
         SIM_CHECK(a.iter == int(k), "hooks", "%s: step %zu is announced as number %d", S.c_str(), k, a.iter);
         double adv = b.t - a.t, gm = a.dt > 0 ? adv / a.dt : 1.0;
         if (!relax) { SIM_CHECK(std::fabs(adv - a.dt) <= 1e-14 * (1 + std::fabs(b.t)), "time", "%s: step %zu of %.15g advances the time by %.15g", S.c_str(), k, a.dt, adv); gm = 1; }
         else { SIM_CHECK(gm > 0.2 && gm < 2.0, "time", "%s: step %zu of %.15g advances the time by %.15g", S.c_str(), k, a.dt, adv); }
         const double tnoise = 2.3e-16 * std::fabs(b.t) / std::fabs(adv);   // how well the times tell the relaxation factor
         // the state
         Vector d(b.x), ref(n);
         d -= a.x;
         double production = 0, dn = gmax(d.Normlinf()), scale = gmax(a.x.Normlinf());
         const double dt = a.dt;
         auto ax = [&](const Vector &u, double c, const Vector &v) { Vector z(u); z.Add(c, v); return z; };
         if (type == "RK1") { ref = slope(a.x, a.t); ref *= dt; }
         else if (type == "RK4")
         {
            Vector k1 = slope(a.x, a.t), k2 = slope(ax(a.x, dt / 2, k1), a.t + dt / 2), k3 = slope(ax(a.x, dt / 2, k2), a.t + dt / 2), k4 = slope(ax(a.x, dt, k3), a.t + dt);
            ref = 0.0;
            ref.Add(dt / 6, k1);
            ref.Add(dt / 3, k2);
            ref.Add(dt / 3, k3);
            ref.Add(dt / 6, k4);
         }
         else if (type == "RRK6")
         {
            std::vector<Vector> ks;
            ref = 0.0;
            for (int q = 0; q < 8; ++q)
            {
               Vector y(a.x);
               for (int j = 0; j < q; ++j) { y.Add(dt * rkA[q][j], ks[size_t(j)]); }
               ks.push_back(slope(y, a.t + rkC[q] * dt));
               ref.Add(gm * dt * rkB[q], ks.back());
               production += rkB[q] * prod(y, a.t + rkC[q] * dt);
            }
         }
         else
         {
            // implicit: the increment has to solve the equation of the stage
            double th = type == "PTC" ? 1.0 : 0.5;
            Vector kk(d);
            kk /= gm * dt;
            Vector y = ax(a.x, th * dt, kk), R = resid(y, a.t + th * dt), Rs(R), R0 = resid(a.x, a.t + th * dt);
            double rs = gnorm(R0);
            for (int i = 0; i < n; ++i) { Rs(i) += md(i) * kk(i); }
            if (!b.conv) { probe("Newton did not converge"); }
            SIM_CHECK(!b.conv || gnorm(Rs) <= 1e-8 * rs + 1e-9 + 4e-16 * scale * gnorm(md) / (gm * dt) + 4 * tnoise * rs, "stage", "%s: step %zu leaves a residual of %.3g in the equation of the stage (%.3g at the start of the step; step %.3g, gamma %.9g)", S.c_str(), k, gnorm(Rs), rs, dt, gm);
            ref = d;
            if (relax) { production = prod(y, a.t + th * dt); }
         }
         if (!std::isfinite(gnorm(ref))) { probe("diverged"); obs.clear(); return; }   // a stage left the physical states
         SIM_CHECK(b.conv, "newton", "%s: the equations of step %zu were not solved", S.c_str(), k);
         ref -= d;
         SIM_CHECK(gmax(ref.Normlinf()) <= (1e-8 + 4 * tnoise) * dn + 1e-12 * scale, "step", "%s: step %zu differs by %.3g from the scheme (change %.3g; Newton %s)", S.c_str(), k, gmax(ref.Normlinf()), dn, b.conv ? "converged" : "did not converge");
         if (relax)
         {
            double e0 = entropy(a.x, a.t), e1 = entropy(b.x, b.t), bal = e1 - e0 + adv * production;
            SIM_CHECK(std::fabs(bal) <= 2e-11 * (1 + std::fabs(e0)), "entropy-balance", "%s: step %zu (gamma %.9g) changes the entropy by %.6g, the stages produce %.6g", S.c_str(), k, gm, e1 - e0, -adv * production);
            probe("entropy balance");
         }
         if (s.periodic && !steady)
         {
            for (int c = 0; c < ns; ++c)
            {
               double t0 = 0, t1 = 0;
               for (int i = 0; i < nn; ++i) { t0 += md(i * ns + c) * d(i * ns + c); t1 += md(i * ns + c) * (std::fabs(a.x(i * ns + c)) + 0.01); }
               t0 = gsum(t0);
               t1 = gsum(t1);
               SIM_CHECK(std::fabs(t0) <= 1e-10 * t1, "not-conservative", "%s: step %zu changes the total of variable %d by %.3g (of %.3g)", S.c_str(), k, c, t0, t1);
            }
            probe("conserved");
         }
         // the decision to stop
         bool stop = steady ? (gnorm(resid(b.x, b.t)) <= double(td["steady-abstol"]) || gnorm(resid(b.x, b.t)) <= r0 * double(td["steady-reltol"])) : b.t >= tf - 1e-14 * dt;
         if (steady)
         {
            double rn = gnorm(resid(b.x, b.t)), th = std::max(double(td["steady-abstol"]), r0 * double(td["steady-reltol"]));
            if (std::fabs(rn - th) <= 1e-6 * th + 1e-13) { stop = k + 1 == N; }
            if (k + 1 == N && stop) { probe(k == 0 ? "converged in one step" : "converged"); }
         }
         SIM_CHECK(stop == (k + 1 == N) || (k + 1 == N && int(N) == maxit), "stop", "%s: after step %zu (t = %.15g of %.15g) the march %s", S.c_str(), k, b.t, tf, stop ? "goes on" : "ends");
      }
      SIM_CHECK(int(N) <= maxit, "stop", "%s: %zu steps", S.c_str(), N);
      if (steady) { SIM_CHECK(N >= 1 || maxit == 0, "stop", "%s: no step", S.c_str()); }
      for (size_t k = 0; k <= (type.substr(0, 3) == "RRK" ? 0 : N); ++k)
      {
         double e = entropy(rec[k].x, rec[k].t);
         obs.push_back({fmt("entropy %zu", k), e, 1 + std::fabs(e)});
         if (!steady) obs.push_back({fmt("time %zu", k), rec[k].t, std::fabs(rec[k].t) + 1e-3});
         obs.push_back({fmt("state %zu", k), gnorm(rec[k].x), gnorm(rec[k].x)});
      }
      // the history that was written
      MPI_Barrier(MPI_COMM_WORLD);
      if (bool(td["entropy-log"]) && sim::rank() == 0)
      {
         std::ifstream is("entropy-log.txt");
         std::vector<std::pair<double, double>> L;
         double a, b;
         while (is >> a >> b) { L.push_back({a, b}); }
         SIM_CHECK(is.eof(), "entropy-log", "%s: the entropy log cannot be read", S.c_str());
         SIM_CHECK(L.size() == N + 1, "entropy-log", "%s: %zu lines after %zu steps", S.c_str(), L.size(), N);
         for (size_t k = 0; k < L.size(); ++k) { logged.push_back(L[k].first); logged.push_back(L[k].second); }
      }
      if (bool(td["entropy-log"]))
      {
         for (size_t k = 0; k <= N; ++k)
         {
            double e = entropy(rec[k].x, rec[k].t);
            if (sim::rank() == 0)
            {
               size_t o = logged.size() - 2 * (N + 1) + 2 * k;
               SIM_CHECK(std::fabs(logged[o] - rec[k].t) <= 1e-14 * std::fabs(rec[k].t) && std::fabs(logged[o + 1] - e) <= 1e-13 * (1 + std::fabs(e)), "entropy-log",
                         "%s: line %zu is (%.16g, %.16g), it should be (%.16g, %.16g)", S.c_str(), k, logged[o], logged[o + 1], rec[k].t, e);
            }
         }
         probe("entropy log");
      }
      MPI_Barrier(MPI_COMM_WORLD);
   }
   if (s.again && !s.other && type.substr(0, 3) != "RRK")
   {
      size_t h = obs.size() / 2;
      SIM_CHECK(obs.size() % 2 == 0, "history", "%s: the second march takes a different number of steps", S.c_str());
      for (size_t i = 0; i < h; ++i)
      {
         SIM_CHECK(std::fabs(obs[i].v - obs[h + i].v) <= 1e-9 * (obs[i].scale + 1e-3), "history", "%s: %s is %.15g in the first march and %.15g in the second", S.c_str(), obs[i].key.c_str(), obs[i].v, obs[h + i].v);
      }
      probe("marched again");
   }
}
static void genMarch(Spec &s)
{
   json &td = s.opts["time-dis"];
   const bool steady = !s.dsbp && s.degree < 4 && !s.periodic && s.dim == 2 && s.n[0] * s.n[1] <= 4 && s.any(0) && !s.any(2) && !s.any(3) && !s.any(5) && gen(4) != 0;
   if (!steady && s.entvar) { s.entvar = false; s.opts["flow-param"]["entropy-state"] = false; }
   std::vector<std::string> ty = {"RK1", "RK4"};
   const bool big = s.dim == 3 && s.periodic;
   const bool relax = !s.euler && !(s.dsbp && s.nranks > 1);
   const bool mayImpl = !s.dsbp && !big && s.ne * (s.degree + 2) * (s.degree + 3) <= 200;
   if (mayImpl) { ty.push_back("MIDPOINT"); }
   if (relax) { ty.push_back("RRK6"); ty.push_back("RRK6"); if (mayImpl) { ty.push_back("RRK"); ty.push_back("RRKMIDPOINT"); } }
   std::string type = steady ? "PTC" : ty[gen(uint32_t(ty.size()))];
   bool impl = type == "PTC" || type == "MIDPOINT" || type == "RRK" || type == "RRKMIDPOINT";
   s.cfl = s.viscous && !impl ? genIn(0.005, 0.02) : impl ? genIn(0.05, 0.4) : genIn(0.02, 0.15);
   if (steady) { s.cfl = genIn(0.5, 2); s.pert = genIn(0.01, 0.05); }
   s.span = genIn(0.3, big ? 1.6 : 4.5);
   td = {{"type", type}, {"steady", steady}, {"const-cfl", bool(gen(2))}, {"entropy-log", bool(gen(2))}, {"max-iter", steady ? genInt(1, 12) : genInt(1, 8)},
         {"res-exp", genIn(0.3, 1.5)}, {"steady-abstol", gen(2) ? 1e-9 : 1e-13}, {"steady-reltol", std::pow(10, -genIn(0.02, 8))}};
   if (gen(4) == 0) { td["exact-t-final"] = bool(gen(2)); }
   s.opts["nonlin-solver"]["reltol"] = 1e-10;
   s.opts["nonlin-solver"]["abstol"] = 1e-12;
   s.again = gen(3) == 0 && !big;
   s.other = steady ? gen(3) != 0 : gen(3) == 0;
   if (big) { td["max-iter"] = 1; }
   if (gen(3)) { s.opts["lin-prec"] = {{"type", "hypreilu"}, {"lev-fill", genInt(0, 2)}, {"ilu-type", 0}, {"ilu-reorder", int(gen(2))}, {"printlevel", 0}}; }
}
#include "flowctl.hpp"
void driverRun()
{
   Spec s = genSpec();
   signature(uint64_t(s.dim * 100 + s.degree * 10 + s.nranks) + 1000u * uint64_t(s.dsbp * 16 + s.viscous * 8 + s.euler * 4 + s.entvar * 2 + s.periodic));
   for (int p : s.part) { signature(uint64_t(p) + 3); }
   for (int b : s.bc) { signature(uint64_t(b) + 77); }
   if (gProp == "W03") { genMarch(s); signature(uint64_t(s.opts["time-dis"].dump().size()) * 31 + std::hash<std::string>()(s.opts["time-dis"]["type"])); }
   CtlSpec ctl;
   if (gProp == "C01") { genControlled(s); ctl = genCtl(s); signature(uint64_t(s.opts["time-dis"].dump().size()) * 31 + ctl.ops.size() * 7 + ctl.outs.size()); }
   describe(s.str() + (gProp == "W03" || gProp == "C01" ? ", " + s.opts["time-dis"].dump() : ""));
   std::vector<std::vector<Obs>> obs(size_t(s.nranks));
   std::vector<std::vector<double>> logged(size_t(s.nranks));
   JobConfig jc;
   jc.nranks = s.nranks;
   jc.maxSteps = 40000000;
   auto r = runJob(jc, [&](int rk) { if (gProp == "C01") { controlled(s, ctl, obs[size_t(rk)]); } else if (gProp == "W03") { marching(s, obs[size_t(rk)], logged[size_t(rk)]); } else { spatial(s, obs[size_t(rk)]); } });
   if ((gProp == "W03" || gProp == "C01") && r.threw[0].find("secant: failed") != std::string::npos)
   {
      // a factor need not exist for a large step, but it does for a small one
      s.cfl /= 10;
      for (auto &o : obs) { o.clear(); }
      for (auto &o : logged) { o.clear(); }
      r = runJob(jc, [&](int rk) { if (gProp == "C01") { controlled(s, ctl, obs[size_t(rk)]); } else marching(s, obs[size_t(rk)], logged[size_t(rk)]); });
      probe("smaller step");
   }
   checkThrew(r);
   for (int k = 1; k < s.nranks; ++k)
   {
      for (size_t i = 0; i < obs[0].size(); ++i)
      {
         SIM_CHECK(obs[size_t(k)].size() == obs[0].size() && obs[size_t(k)][i].v == obs[0][i].v, "ranks", "%s: %s is %.17g on rank 0 and %.17g on rank %d", s.str().c_str(), obs[0][i].key.c_str(), obs[0][i].v, obs[size_t(k)][i].v, k);
      }
   }
   nontrivial();
   if (gProp != "W01" && s.nranks > 1 && !(gProp == "W03" && s.again))
   {
      Spec o = s;
      o.nranks = 1;
      gPart.assign(size_t(s.ne), 0);
      std::vector<Obs> one;
      jc.nranks = 1;
      auto r1 = runJob(jc, [&](int) { std::vector<double> l; if (gProp == "C01") { controlled(o, ctl, one); } else if (gProp == "W03") { marching(o, one, l); } else { spatial(o, one); } });
      checkThrew(r1);
      for (auto &a : obs[0])
      {
         for (auto &b : one)
         {
            if (a.key != b.key) { continue; }
            SIM_CHECK(std::fabs(a.v - b.v) <= 1e-9 * (std::fabs(a.scale) + 1e-3), "partition", "%s: %s is %.14g on %d ranks and %.14g on one (scale %.3g)", s.str().c_str(), a.key.c_str(), a.v, s.nranks, b.v, a.scale);
         }
      }
      probe("partition");
   }
}
