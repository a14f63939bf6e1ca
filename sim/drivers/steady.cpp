// SOURCES: common/abstract_solver.cpp common/ode.cpp common/mfem_extensions.cpp common/matrix_operators.cpp common/relaxed_newton.cpp common/linesearch.cpp common/default_options.cpp physics/miso_input.cpp utils/utils.cpp
// S01 the bookkeeping of a solver (outputs, sizes, inputs, derivatives, refused
// calls), S02 steady solves, their adjoints and the log of both across crashes
// (src/common/abstract_solver.cpp, mfem_extensions.cpp, relaxed_newton.cpp).
#include <cstring>
#include <algorithm>
#include <cmath>
#include "mfem.hpp"
#include "abstract_solver.hpp"
#include "ode.hpp"
#include "mfem_extensions.hpp"
#include "femsim.hpp"
#include "simfs.hpp"
using namespace sim;
using mfem::Vector;
using mfem::HypreParMatrix;

const char *driverProperty() { return "steady"; }

namespace
{
using V = std::vector<double>;
// R(u; p, q) = A u + c u^3 - p F - q, with A positive definite (not symmetric)
struct Toy
{
   int N = 3;
   V A, F;
   double c = 0.2;
   V res(const V &u, double p, const V &q) const
   {
      V r;
      for (int i = 0; i < N; ++i)
      {
         double s = c * u[size_t(i)] * u[size_t(i)] * u[size_t(i)] - p * F[size_t(i)] - q[size_t(i)];
         for (int j = 0; j < N; ++j) { s += A[size_t(i * N + j)] * u[size_t(j)]; }
         r.push_back(s);
      }
      return r;
   }
   V jac(const V &u) const
   {
      V J(A);
      for (int i = 0; i < N; ++i) { J[size_t(i * N + i)] += 3 * c * u[size_t(i)] * u[size_t(i)]; }
      return J;
   }
   V mul(const V &J, const V &x, bool tr) const
   {
      V y(size_t(N), 0.0);
      for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { y[size_t(i)] += (tr ? J[size_t(j * N + i)] : J[size_t(i * N + j)]) * x[size_t(j)]; } }
      return y;
   }
};
double norm(const V &x) { double s = 0; for (double v : x) { s += v * v; } return std::sqrt(s); }
double dot(const V &x, const V &y) { double s = 0; for (size_t i = 0; i < x.size(); ++i) { s += x[i] * y[i]; } return s; }
double maxabs(const V &u) { double m = 0; for (double x : u) { m = std::max(m, std::fabs(x)); } return m; }
double dist(const V &a, const V &b)
{
   if (a.size() != b.size()) { return INFINITY; }
   double m = 0;
   for (size_t i = 0; i < a.size(); ++i) { double d = std::fabs(a[i] - b[i]); if (!(d <= m)) { m = d == d ? d : INFINITY; } }
   return m;
}
bool bitsame(const V &a, const V &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
bool lu(V A, V &b)
{
   int n = int(b.size());
   for (int k = 0; k < n; ++k)
   {
      int pv = k;
      for (int i = k + 1; i < n; ++i) { if (std::fabs(A[size_t(i * n + k)]) > std::fabs(A[size_t(pv * n + k)])) { pv = i; } }
      if (A[size_t(pv * n + k)] == 0) { return false; }
      for (int j = 0; j < n; ++j) { std::swap(A[size_t(k * n + j)], A[size_t(pv * n + j)]); }
      std::swap(b[size_t(k)], b[size_t(pv)]);
      for (int i = k + 1; i < n; ++i)
      {
         double f = A[size_t(i * n + k)] / A[size_t(k * n + k)];
         for (int j = k; j < n; ++j) { A[size_t(i * n + j)] -= f * A[size_t(k * n + j)]; }
         b[size_t(i)] -= f * b[size_t(k)];
      }
   }
   for (int i = n - 1; i >= 0; --i)
   {
      for (int j = i + 1; j < n; ++j) { b[size_t(i)] -= A[size_t(i * n + j)] * b[size_t(j)]; }
      b[size_t(i)] /= A[size_t(i * n + i)];
   }
   return true;
}
/// the root, by Newton's method; the number of iterations from `u0`
int refRoot(const Toy &P, double p, const V &q, V &u)
{
   int it = 0;
   for (; it < 60; ++it)
   {
      V r = P.res(u, p, q);
      if (norm(r) < 1e-13) { break; }
      if (!lu(P.jac(u), r)) { break; }
      for (size_t i = 0; i < u.size(); ++i) { u[i] -= r[i]; }
   }
   return it;
}
struct Layout
{
   int n = 1;
   std::vector<int> off;
   int lo() const { return off[size_t(sim::rank())]; }
   int len() const { return off[size_t(sim::rank()) + 1] - lo(); }
   V part(const V &g) const { return V(g.begin() + lo(), g.begin() + lo() + len()); }
   Vector local(const V &g) const
   {
      Vector v(len());
      for (int i = 0; i < v.Size(); ++i) { v(i) = g[size_t(lo() + i)]; }
      return v;
   }
};
V gather(const Vector &x, const Layout &l)
{
   std::vector<int> cnt, dis;
   for (int i = 0; i < l.n; ++i) { cnt.push_back(l.off[size_t(i) + 1] - l.off[size_t(i)]); dis.push_back(l.off[size_t(i)]); }
   V g(size_t(l.off.back()));
   MPI_Allgatherv(x.GetData(), l.len(), MPI_DOUBLE, g.data(), cnt.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
   return g;
}
std::unique_ptr<HypreParMatrix> distribute(const V &A, int N, const Layout &l, bool tr)
{
   int n = l.len(), lo = l.lo();
   std::vector<int> I;
   std::vector<HYPRE_BigInt> J;
   V d;
   I.push_back(0);
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < N; ++j) { J.push_back(j); d.push_back(tr ? A[size_t(j * N + lo + i)] : A[size_t((lo + i) * N + j)]); }
      I.push_back(int(J.size()));
   }
   HYPRE_BigInt rows[2] = {lo, lo + n};
   return std::make_unique<HypreParMatrix>(MPI_COMM_WORLD, n, N, N, I.data(), J.data(), d.data(), rows, rows);
}
/// what the residual and the outputs share: a state, a scalar and a field
struct Inputs
{
   Vector u, q;
   double p = 1;
   void set(const miso::MISOInputs &in)
   {
      miso::setVectorFromInputs(in, "state", u, true);
      miso::setVectorFromInputs(in, "load", q, true);
      miso::setValueFromInputs(in, "p", p);
   }
};
class ToyResidual final
{
public:
   const Toy *P;
   const Layout *l;
   Inputs in;
   V uLin;
   double pLin = NAN;
   bool lin = false;
   std::unique_ptr<HypreParMatrix> J, JT;
   std::unique_ptr<mfem::Solver> prec;
   int calls = 0;
   ToyResidual(const Toy &P_, const Layout &l_, bool pc) : P(&P_), l(&l_)
   {
      in.u.SetSize(l->len());
      in.q.SetSize(l->len());
      in.u = 0.0;
      in.q = 0.0;
      if (pc)
      {
         prec = std::make_unique<mfem::HypreDiagScale>();
      }
   }
   friend MPI_Comm getMPIComm(const ToyResidual &) { return MPI_COMM_WORLD; }
   friend int getSize(const ToyResidual &r) { return r.l->len(); }
   friend void setInputs(ToyResidual &r, const miso::MISOInputs &in) { r.in.set(in); }
   friend void setOptions(ToyResidual &, const nlohmann::json &) {}
   friend void evaluate(ToyResidual &r, const miso::MISOInputs &in, Vector &out)
   {
      if (++r.calls > 100000) { sim::violation("endless", "more than 100000 residual evaluations"); }
      r.in.set(in);
      V g = r.P->res(gather(r.in.u, *r.l), r.in.p, gather(r.in.q, *r.l));
      out.SetSize(r.l->len());
      for (int i = 0; i < out.Size(); ++i) { out(i) = g[size_t(r.l->lo() + i)]; }
   }
   friend mfem::Operator &getJacobian(ToyResidual &r, const miso::MISOInputs &in, const std::string &)
   {
      r.in.set(in);
      r.J = distribute(r.P->jac(gather(r.in.u, *r.l)), r.P->N, *r.l, false);
      return *r.J;
   }
   friend void linearize(ToyResidual &r, const miso::MISOInputs &in)
   {
      r.in.set(in);
      r.uLin = gather(r.in.u, *r.l);
      r.pLin = r.in.p;
      r.lin = true;
   }
   friend void setUpAdjointSystem(ToyResidual &r, mfem::Solver &s, const miso::MISOInputs &in, Vector &, Vector &)
   {
      r.in.set(in);
      r.JT = distribute(r.P->jac(gather(r.in.u, *r.l)), r.P->N, *r.l, true);
      s.SetOperator(*r.JT);
   }
   friend double jacobianVectorProduct(ToyResidual &r, const Vector &d, const std::string &wrt)
   {
      if (wrt != "p") { throw std::runtime_error("toy: scalar product asked with respect to " + wrt); }
      (void) r;
      return d.Size() ? d(0) : 0.0;
   }
   friend void jacobianVectorProduct(ToyResidual &r, const Vector &d, const std::string &wrt, Vector &out)
   {
      V g;
      if (wrt == "state") { g = r.P->mul(r.P->jac(r.uLin), gather(d, *r.l), false); }
      else if (wrt == "load") { g = gather(d, *r.l); for (double &x : g) { x = -x; } }
      else { g = r.P->F; for (double &x : g) { x *= -d(0); } }
      for (int i = 0; i < out.Size(); ++i) { out(i) += g[size_t(r.l->lo() + i)]; }
   }
   friend double vectorJacobianProduct(ToyResidual &r, const Vector &b, const std::string &wrt)
   {
      if (wrt != "p") { throw std::runtime_error("toy: scalar product asked with respect to " + wrt); }
      return -dot(gather(b, *r.l), r.P->F);
   }
   friend void vectorJacobianProduct(ToyResidual &r, const Vector &b, const std::string &wrt, Vector &out)
   {
      V g;
      if (wrt == "state") { g = r.P->mul(r.P->jac(r.uLin), gather(b, *r.l), true); }
      else { g = gather(b, *r.l); for (double &x : g) { x = -x; } }
      for (int i = 0; i < out.Size(); ++i) { out(i) += g[size_t(r.l->lo() + i)]; }
   }
   friend mfem::Solver *getPreconditioner(ToyResidual &r) { return r.prec.get(); }
};
/// scalar: p w/2 sum a_i u_i^2, or distributed: w p u_i^2 + q_i
struct OutSpec { std::string name; bool dist = false; double w = 1; };
double outScalar(double w, double p, const V &u) { double s = 0; for (size_t i = 0; i < u.size(); ++i) { s += 0.5 * (1.0 + double(i)) * u[i] * u[i]; } return w * p * s; }
class ToyOutput final
{
public:
   const Layout *l;
   bool dist;
   double w;
   Inputs in;
   ToyOutput(const Layout &l_, bool d, double w_) : l(&l_), dist(d), w(w_)
   {
      in.u.SetSize(l->len());
      in.q.SetSize(l->len());
      in.u = 0.0;
      in.q = 0.0;
   }
   friend int getSize(const ToyOutput &o) { return o.dist ? o.l->len() : 1; }
   friend void setInputs(ToyOutput &o, const miso::MISOInputs &in) { o.in.set(in); }
   friend void setOptions(ToyOutput &o, const nlohmann::json &opt) { o.w = opt.value("w", o.w); }
   friend double calcOutput(ToyOutput &o, const miso::MISOInputs &)
   {
      if (o.dist) { throw std::runtime_error("toy: scalar asked of a field"); }
      return outScalar(o.w, o.in.p, gather(o.in.u, *o.l));
   }
   friend void calcOutput(ToyOutput &o, const miso::MISOInputs &, Vector &out)
   {
      if (!o.dist) { throw std::runtime_error("toy: field asked of a scalar"); }
      for (int i = 0; i < out.Size(); ++i) { out(i) = o.w * o.in.p * o.in.u(i) * o.in.u(i) + o.in.q(i); }
   }
   friend double calcOutputPartial(ToyOutput &o, const std::string &wrt, const miso::MISOInputs &)
   {
      if (wrt != "p") { throw std::runtime_error("toy: scalar partial with respect to " + wrt); }
      return outScalar(o.w, 1.0, gather(o.in.u, *o.l));
   }
   friend void calcOutputPartial(ToyOutput &o, const std::string &wrt, const miso::MISOInputs &, Vector &part)
   {
      if (wrt == "state") { for (int i = 0; i < part.Size(); ++i) { part(i) += o.w * o.in.p * (1.0 + o.l->lo() + i) * o.in.u(i); } }
   }
   friend double jacobianVectorProduct(ToyOutput &o, const Vector &d, const std::string &wrt)
   {
      if (o.dist) { throw std::runtime_error("toy: scalar product of a field"); }
      V u = gather(o.in.u, *o.l);
      if (wrt == "p") { return outScalar(o.w, 1.0, u) * d(0); }
      if (wrt == "load") { return 0.0; }
      V g = gather(d, *o.l);
      double s = 0;
      for (size_t i = 0; i < u.size(); ++i) { s += o.w * o.in.p * (1.0 + double(i)) * u[i] * g[i]; }
      return s;
   }
   friend void jacobianVectorProduct(ToyOutput &o, const Vector &d, const std::string &wrt, Vector &out)
   {
      if (!o.dist) { throw std::runtime_error("toy: field product of a scalar"); }
      for (int i = 0; i < out.Size(); ++i)
      { out(i) += wrt == "state" ? 2 * o.w * o.in.p * o.in.u(i) * d(i) : wrt == "load" ? d(i) : o.w * o.in.u(i) * o.in.u(i) * d(0); }
   }
   friend double vectorJacobianProduct(ToyOutput &o, const Vector &b, const std::string &wrt)
   {
      if (wrt != "p") { throw std::runtime_error("toy: scalar product with respect to " + wrt); }
      V u = gather(o.in.u, *o.l);
      if (!o.dist) { return outScalar(o.w, 1.0, u) * b(0); }
      V g = gather(b, *o.l);
      double s = 0;
      for (size_t i = 0; i < u.size(); ++i) { s += o.w * u[i] * u[i] * g[i]; }
      return s;
   }
   friend void vectorJacobianProduct(ToyOutput &o, const Vector &b, const std::string &wrt, Vector &out)
   {
      if (wrt == "p") { throw std::runtime_error("toy: field product with respect to a scalar"); }
      for (int i = 0; i < out.Size(); ++i)
      {
         double u = o.in.u(i);
         if (o.dist) { out(i) += wrt == "state" ? 2 * o.w * o.in.p * u * b(i) : b(i); }
         else if (wrt == "state") { out(i) += o.w * o.in.p * (1.0 + o.l->lo() + i) * u * b(0); }
      }
   }
};
struct Config
{
   std::string lin = "gmres", newton = "newton", adj = "hyprefgmres";
   int ls = 0;  // line search: default, by name, with options
   bool prec = false, unsteady = false;
   int logKind = -1;
   bool logI = true, logE = false, logF = true;
   double nrel = 1e-12, nabs = 1e-12;
};
class ToySolver : public miso::AbstractSolver2
{
public:
   const Toy &P;
   const Layout &l;
   Config c;
   std::unique_ptr<HypreParMatrix> M;
   int initial = 0, iteration = 0, terminal = 0;
   V seen;
   static nlohmann::json opts(const Config &c)
   {
      nlohmann::json o;
      o["silent"] = true;
      o["print-options"] = false;
      o["time-dis"] = {{"type", "MIDPOINT"}, {"t-initial", 0.25}, {"t-final", 1.0}, {"dt", 0.5}};
      o["lin-solver"] = {{"type", c.lin}, {"reltol", 1e-13}, {"abstol", 1e-15}, {"maxiter", 200}, {"printlevel", c.lin[0] == 'h' ? 0 : -1}, {"kdim", 40}};
      o["adj-solver"] = {{"type", c.adj}, {"reltol", 1e-12}, {"abstol", 1e-14}, {"maxiter", 200}, {"printlevel", c.adj[0] == 'h' ? 0 : -1}, {"kdim", 40}};
      o["nonlin-solver"] = {{"type", c.newton}, {"reltol", c.nrel}, {"abstol", c.nabs}, {"maxiter", 80}, {"printlevel", -1}};
      if (c.ls == 1) { o["nonlin-solver"]["linesearch"] = "backtracking"; }
      if (c.ls == 2) { o["nonlin-solver"]["linesearch"] = {{"type", "backtracking"}, {"mu", 1e-3}, {"rhohi", 0.8}}; }
      return o;
   }
   ToySolver(const Toy &P_, const Layout &l_, const Config &c_) : AbstractSolver2(MPI_COMM_WORLD, opts(c_)), P(P_), l(l_), c(c_)
   {
      spatial_res = std::make_unique<miso::MISOResidual>(ToyResidual(P, l, c.prec));
      linear_solver = miso::constructLinearSolver(comm, options["lin-solver"], getPreconditioner(*spatial_res));
      nonlinear_solver = miso::constructNonlinearSolver(comm, options["nonlin-solver"], *linear_solver);
      if (c.unsteady)
      {
         V I(size_t(P.N) * size_t(P.N), 0.0);
         for (int i = 0; i < P.N; ++i) { I[size_t(i * P.N + i)] = 1; }
         M = distribute(I, P.N, l, false);
         *M = 0.0;
         std::unique_ptr<HypreParMatrix> full = distribute(V(size_t(P.N) * size_t(P.N), 1.0), P.N, l, false);
         M = std::move(full);
         space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*spatial_res, M.get()));
         nonlinear_solver->SetOperator(*space_time_res);
         ode = std::make_unique<miso::FirstOrderODE>(*space_time_res, options["time-dis"], *nonlinear_solver, out);
      }
      else { nonlinear_solver->SetOperator(*spatial_res); }
      if (c.logKind == 0) { addLogger(miso::ASCIILogger(), {c.logI, c.logE, c.logF}); }
      if (c.logKind == 1) { addLogger(miso::BinaryLogger(), {c.logI, c.logE, c.logF}); }
   }
   void initialHook(const Vector &u) override
   {
      ++initial;
      seen.assign(u.GetData(), u.GetData() + u.Size());
      AbstractSolver2::initialHook(u);
   }
   void iterationHook(int i, double t, double dt, const Vector &u) override { ++iteration; AbstractSolver2::iterationHook(i, t, dt, u); }
   void terminalHook(int i, double t, const Vector &u) override { ++terminal; AbstractSolver2::terminalHook(i, t, u); }
   void addOutput(const std::string &name, const nlohmann::json &o) override
   {
      outputs.emplace(name, ToyOutput(l, o.is_object() && o.value("dist", false), o.is_object() ? o.value("w", 1.0) : 1.0));
   }
};
// ------------------------------------------------------------- generation
Toy genToy()
{
   Toy P;
   P.N = genInt(2, 8);
   size_t N = size_t(P.N);
   P.A.assign(N * N, 0);
   for (size_t i = 0; i < N; ++i)
   {
      P.F.push_back(genIn(-1, 1));
      P.A[i * N + i] += genIn(0.3, 2);
      for (size_t j = i + 1; j < N; ++j)
      {
         double d = genIn(0, 0.5), s = gen(3) ? genIn(-0.3, 0.3) : 0;
         P.A[i * N + j] += s - d;
         P.A[j * N + i] += -s - d;
         P.A[i * N + i] += d;
         P.A[j * N + j] += d;
      }
   }
   P.c = gen(3) ? genIn(0.01, 0.4) : 0.0;
   return P;
}
Layout genLayout(int N, int maxRanks, bool wide)
{
   for (;;)
   {
      Layout l;
      l.n = genInt(1, maxRanks);
      std::vector<int> cut;
      for (int i = 0; i + 1 < l.n; ++i) { cut.push_back(int(gen(uint32_t(N + 1)))); }
      std::sort(cut.begin(), cut.end());
      l.off.push_back(0);
      for (int c : cut) { l.off.push_back(c); }
      l.off.push_back(N);
      int most = 0;
      for (int i = 0; i < l.n; ++i) { most = std::max(most, l.off[size_t(i) + 1] - l.off[size_t(i)]); }
      // a field with at most one entry on every rank cannot be told from a scalar
      if (!wide || most > 1) { return l; }
   }
}
Config genConfig()
{
   Config c;
   static const char *lin[] = {"gmres", "fgmres", "hypregmres", "hyprefgmres"};
   static const char *nl[] = {"newton", "inexactnewton", "relaxednewton"};
   c.lin = lin[gen(4)];
   c.adj = lin[gen(4)];
   c.newton = nl[gen(3)];
   if (c.newton == "inexactnewton" && c.lin[0] == 'h') { c.lin = lin[gen(2)]; }
   c.ls = int(gen(3));
   c.prec = gen(3) == 2;
   if (c.prec) { if (c.lin[0] != 'h') { c.lin = lin[2 + gen(2)]; } if (c.adj[0] != 'h') { c.adj = lin[2 + gen(2)]; } if (c.newton == "inexactnewton") { c.newton = "newton"; } }
   static const double tol[] = {1e-12, 1e-9, 1e-5};
   c.nrel = tol[gen(3)];
   c.nabs = tol[gen(3)];
   return c;
}
V genVec(int n, double m) { V v; for (int i = 0; i < n; ++i) { v.push_back(m * genIn(-1, 1)); } return v; }

// ------------------------------------------------------------------- S02
struct Op { int kind = 0; double p = 1; bool giveP = true, giveQ = true; V u, q, b; };
/// entries of the log: what may be read back, per field, step and rank
struct Cand { double t; V u; bool exact; };
struct Entry { std::vector<Cand> may; bool torn = false; };
std::map<std::pair<int, int>, Entry> entries;  // (0 initial, 1 final, 2 adjoint; rank)

bool readEntry(int kind, const char *name, int step, int n, double &t, V &u)
{
   Vector v(n);
   v = 0.5;
   try
   {
      if (kind == 0) { miso::ASCIILogger::readState(name, step, sim::rank(), t, v); }
      else { miso::BinaryLogger::readState(name, step, sim::rank(), t, v); }
   }
   catch (const std::exception &) { return false; }
   u.assign(v.GetData(), v.GetData() + v.Size());
   return true;
}
void runSteady()
{
   Toy P = genToy();
   Layout l = genLayout(P.N, 4, false);
   Config c = genConfig();
   c.logKind = int(gen(3)) - 1;
   c.logI = gen(3) > 0;
   c.logE = gen(2);
   c.logF = gen(3) > 0;
   entries.clear();
   int nops = genInt(1, 5);
   std::vector<Op> ops;
   double p = 1;
   V q(size_t(P.N), 0.0);
   std::vector<double> pAt;
   std::vector<V> qAt, rootAt, rawAt;
   for (int k = 0; k < nops; ++k)
   {
      Op o;
      o.kind = k ? int(gen(3)) : 0;  // 0 solve from a fresh guess, 1 solve from the state before, 2 adjoint
      o.p = genIn(-1, 1.5);
      o.giveP = k == 0 || gen(3) > 0;
      o.giveQ = gen(3) == 2;
      o.u = genVec(P.N, 1.0);
      o.q = genVec(P.N, 0.7);
      o.b = genVec(P.N, 1.0);
      ops.push_back(o);
   }
   // the scalar and the field keep their values until given anew
   int maxCrash = c.logKind >= 0 ? genInt(0, 2) : 0;
   int at = 0, attempts = 0, crashes = 0, resumed = 0, damaged = 0;
   V state(size_t(P.N), 0.0);
   std::vector<V> found;
   auto after = [&](int k)
   {
      if (ops[size_t(k)].giveP) { p = ops[size_t(k)].p; }
      if (ops[size_t(k)].giveQ) { q = ops[size_t(k)].q; }
   };
   bool done = false, restart = false;
   while (!done)
   {
      ++attempts;
      JobConfig jc;
      jc.nranks = l.n;
      jc.mayCrash = attempts <= maxCrash;
      static const uint32_t span[] = {6, 30, 90, 250};
      jc.crashAt = jc.mayCrash ? long(fault(span[fault(4)])) : -1;
      simfs::plan() = simfs::Plan();
      simfs::plan().benign = fault(3) == 2;
      int start = at;
      double p0 = p;
      V q0 = q;
      std::vector<int> reached(size_t(l.n), start);
      std::vector<V> states(size_t(l.n)), first(size_t(l.n));
      auto res = runJob(jc, [&](int r)
      {
         ToySolver s(P, l, c);
         Vector u = l.local(state);
         double pp = p0;
         V qq = q0;
         bool again = restart;  // a new process knows nothing of the inputs given before
         for (int k = start; k < nops; ++k)
         {
            const Op &o = ops[size_t(k)];
            if (o.giveP) { pp = o.p; }
            if (o.giveQ) { qq = o.q; }
            Vector qv = l.local(qq);
            miso::MISOInputs in;
            if (o.giveP || again || k == start) { in.emplace("p", pp); }
            if (o.giveQ || again || k == start) { in.emplace("load", qv); }
            again = false;
            if (o.kind < 2)
            {
               if (o.kind == 0 && !(restart && k == start)) { u = l.local(o.u); }
               V guess = gather(u, l), mine(u.GetData(), u.GetData() + u.Size());
               V ref(guess), zero(size_t(P.N), 0.0);
               int its = refRoot(P, pp, qq, ref);
               bool fair = its < 12;
               V refz(zero);
               refRoot(P, pp, qq, refz);
               if (c.logKind >= 0)
               {
                  if (c.logI) { Entry &e = entries[{0, r}]; e.may.push_back({0.25, mine, true}); e.torn = true; }
                  Entry &e = entries[{1, r}];
                  e.may.push_back({1.0, l.part(refz), false});
                  e.torn = true;
               }
               int h0 = s.initial, h1 = s.iteration, h2 = s.terminal;
               s.solveForState(in, u);
               SIM_CHECK(s.initial == h0 + 1 && s.iteration == h1 && s.terminal == h2, "hooks", "a steady solve ran the hooks %d, %d and %d times", s.initial - h0, s.iteration - h1, s.terminal - h2);
               SIM_CHECK(bitsame(s.seen, mine), "hooks", "the initial hook of a steady solve did not see the initial guess");
               V sol = gather(u, l), mineNow(u.GetData(), u.GetData() + u.Size());
               if (c.logKind >= 0)
               {
                  if (c.logI) { Entry &e = entries[{0, r}]; e.may = {{0.25, mine, true}}; e.torn = false; }
                  Entry &e = entries[{1, r}];
                  e.may = {{1.0, mineNow, true}};
                  e.torn = false;
               }
               if (!fair) { probe("guesses Newton's method struggles with"); continue; }
               double r0 = norm(P.res(guess, pp, qq)), r1 = norm(P.res(sol, pp, qq)), tol = std::max(c.nabs, c.nrel * r0);
               SIM_CHECK(r1 <= tol * (1 + 1e-6) + 1e-14, "not-solved", "%s: the residual went from %.3g to %.3g, allowed %.3g (operation %d)", c.newton.c_str(), r0, r1, tol, k);
               if (r0 <= tol * (1 - 1e-6)) { SIM_CHECK(bitsame(sol, guess), "moved", "a guess that already solves the problem was changed by %.3g", dist(sol, guess)); probe("guesses that were solutions"); }
               SIM_CHECK(dist(sol, refz) <= 20 * tol * (1 + maxabs(refz)) + 1e-11, "wrong-root", "%s: the solution differs from the root by %.3g (residual %.3g)", c.newton.c_str(), dist(sol, refz), r1);
               probe("steady solves");
            }
            else
            {
               V here = gather(u, l);
               in.erase("state");
               in.emplace("state", u);
               Vector b = l.local(o.b), adj(l.len());
               adj = o.giveQ ? 0.0 : 0.3;  // left over from something else
               V want(o.b);
               V JT(P.jac(here));
               for (int i = 0; i < P.N; ++i) { for (int j = 0; j < i; ++j) { std::swap(JT[size_t(i * P.N + j)], JT[size_t(j * P.N + i)]); } }
               lu(JT, want);
               if (c.logKind >= 0) { Entry &e = entries[{2, r}]; e.may.push_back({0.0, l.part(want), false}); e.torn = true; }
               s.solveForAdjoint(in, b, adj);
               V got = gather(adj, l), mine(adj.GetData(), adj.GetData() + adj.Size());
               if (c.logKind >= 0) { Entry &e = entries[{2, r}]; e.may = {{0.0, mine, true}}; e.torn = false; }
               SIM_CHECK(bitsame(gather(b, l), o.b), "adjoint-seed", "solving the adjoint changed its right-hand side");
               SIM_CHECK(bitsame(gather(u, l), here), "adjoint-state", "solving the adjoint changed the state");
               SIM_CHECK(dist(got, want) <= 1e-8 * (1 + maxabs(want)), "adjoint", "%s: the adjoint differs from the solution of the transposed system by %.3g (operation %d)", c.adj.c_str(), dist(got, want), k);
               probe("steady adjoints");
            }
            reached[size_t(r)] = k + 1;
            sim::crashPoint("between operations");
         }
         states[size_t(r)] = V(u.GetData(), u.GetData() + u.Size());
      });
      femsim::checkThrew(res);
      simfs::plan() = simfs::Plan();
      bool crashed = res.crashed;
      if (crashed)
      {
         ++crashes;
         nontrivial();
         bool inside = false;
         for (auto &kv : entries) { inside = inside || kv.second.torn; }
         if (inside) { probe("crash inside a solve"); }
         if (fault(4) == 3)
         {
            int d = simfs::powerLoss(".");
            damaged += d;
            if (d) { for (auto &kv : entries) { kv.second.torn = true; } }
         }
      }
      // what a restart finds
      std::vector<V> fin(static_cast<size_t>(l.n));
      std::vector<char> have(size_t(l.n), 0);
      if (c.logKind >= 0)
      {
         JobConfig j2;
         j2.nranks = l.n;
         auto r2 = runJob(j2, [&](int r)
         {
            static const struct { const char *name; int step; } key[] = {{"state", 0}, {"state", 1}, {"adjoint", 0}, {"state", 2}, {"adjoint", 1}};
            for (int k = 0; k < 5; ++k)
            {
               auto it = entries.find({k, r});
               double t = NAN;
               V u;
               bool ok = readEntry(c.logKind, key[k].name, key[k].step, l.len(), t, u);
               if (!ok)
               {
                  SIM_CHECK(it == entries.end() || it->second.torn, "log-missing", "rank %d: %s %d was logged but cannot be read", r, key[k].name, key[k].step);
                  continue;
               }
               SIM_CHECK(it != entries.end(), "log-unexpected", "rank %d: the log has %s %d, which was never to be written", r, key[k].name, key[k].step);
               bool match = false;
               double near = INFINITY;
               for (const Cand &w : it->second.may)
               {
                  double d = dist(w.u, u);
                  bool same = w.t == t && (w.exact ? d == 0 : d <= 40 * std::max(c.nabs, 10 * c.nrel) * (1 + maxabs(w.u)) + 1e-8);
                  match = match || same;
                  near = std::min(near, d);
               }
               SIM_CHECK(match, "log-wrong", "rank %d: %s %d in the log (time %.17g) is not what was solved for (off by %.3g)", r, key[k].name, key[k].step, t, near);
               probe("log entries verified");
               if (k == 1) { fin[size_t(r)] = u; have[size_t(r)] = 1; }
            }
         });
         femsim::checkThrew(r2);
      }
      if (!crashed)
      {
         for (int r = 0; r < l.n; ++r) { SIM_CHECK(reached[size_t(r)] == nops, "unfinished", "rank %d ended before its last operation", r); }
         done = true;
         break;
      }
      // resume at the operation no rank has finished, from the logged state if whole
      int k = nops;
      for (int r = 0; r < l.n; ++r) { k = std::min(k, reached[size_t(r)]); }
      for (int j = start; j < k; ++j) { after(j); }
      at = k;
      bool whole = true;
      for (char h : have) { whole = whole && h; }
      restart = whole;
      if (whole)
      {
         state.clear();
         for (auto &f : fin) { state.insert(state.end(), f.begin(), f.end()); }
         ++resumed;
         probe("restarts from the log");
      }
      else { std::fill(state.begin(), state.end(), 0.0); }
      if (at >= nops) { done = true; }
   }
   signature(uint64_t(P.N) * 1000 + uint64_t(l.n) * 100 + uint64_t(c.logKind + 1) * 10 + uint64_t(crashes));
   for (char ch : c.newton + c.lin + c.adj) { signature(uint64_t(ch)); }
   for (auto &o : ops) { signature(uint64_t(o.kind * 4 + o.giveP * 2 + o.giveQ)); }
   for (int o : l.off) { signature(uint64_t(o)); }
   if (!crashes) { nontrivial(); }
   describe(fmt("%s with %s and %s, %d unknowns on %d ranks, %d operations, log %d, %d crashes, %d restarts from the log, %d files damaged", c.newton.c_str(), c.lin.c_str(), c.adj.c_str(), P.N, l.n, nops,
                c.logKind, crashes, resumed, damaged));
}
// ------------------------------------------------------------------- S01
struct Call
{
   int kind = 0;
   int name = 0, wrt = 0;
   double p = 1, w = 1;
   bool dist = false, giveU = true, giveP = true, giveQ = true, given = false;
   V u, q, a, b;
};
struct OutModel { bool dist; double w, p; V u, q; };
const char *names[] = {"alpha", "beta", "gamma", "delta"};
const char *wrts[] = {"state", "load", "p"};
template <typename F>
void mustRefuse(const char *what, F &&f)
{
   bool refused = false;
   try { f(); }
   catch (const miso::MISOException &) { refused = true; }
   SIM_CHECK(refused, "not-refused", "%s was not refused", what);
   probe("refused calls");
}
void runBooks()
{
   Toy P = genToy();
   Layout l = genLayout(P.N, 4, true);
   Config c = genConfig();
   c.unsteady = gen(4) == 3;
   int n = genInt(4, 24);
   std::vector<Call> calls;
   for (int k = 0; k < n; ++k)
   {
      Call o;
      o.kind = int(gen(15));
      o.name = int(gen(4));
      o.wrt = int(gen(3));
      o.p = genIn(-1.5, 1.5);
      o.w = genIn(0.2, 2);
      o.dist = gen(2);
      o.giveU = gen(4) > 0;
      o.giveP = gen(3) > 0;
      o.giveQ = gen(3) > 0;
      o.given = gen(2);
      o.u = genVec(P.N, 1.0);
      o.q = genVec(P.N, 1.0);
      o.a = genVec(P.N, 1.0);
      o.b = genVec(P.N, 1.0);
      calls.push_back(o);
   }
   JobConfig jc;
   jc.nranks = l.n;
   auto res = runJob(jc, [&](int)
   {
      ToySolver s(P, l, c);
      std::map<int, OutModel> model;
      V zero(size_t(P.N), 0.0);
      V ru(zero), rq(zero), lu_(zero);  // inputs of the residual, and where it is linearised
      double rp = 1;
      bool linear = false;
      double tol = 1e-11;
      for (int k = 0; k < n; ++k)
      {
         const Call &o = calls[size_t(k)];
         const char *nm = names[o.name];
         bool known = model.count(o.name);
         Vector u = l.local(o.u), q = l.local(o.q), a = l.local(o.a), b = l.local(o.b);
         miso::MISOInputs in;
         if (o.giveU) { in.emplace("state", u); }
         if (o.giveP) { in.emplace("p", o.p); }
         if (o.giveQ) { in.emplace("load", q); }
         auto upd = [&](OutModel &m)
         {
            if (o.giveU) { m.u = o.u; }
            if (o.giveP) { m.p = o.p; }
            if (o.giveQ) { m.q = o.q; }
         };
         auto updRes = [&]()
         {
            if (o.giveU) { ru = o.u; }
            if (o.giveP) { rp = o.p; }
            if (o.giveQ) { rq = o.q; }
         };
         auto close = [&](const V &got, const V &want, const char *what)
         { SIM_CHECK(dist(got, want) <= tol * (1 + maxabs(want)), "value", "operation %d, %s: off by %.3g (expected size %.3g)", k, what, dist(got, want), maxabs(want)); };
         auto closeS = [&](double got, double want, const char *what)
         { SIM_CHECK(std::fabs(got - want) <= tol * (1 + std::fabs(want)), "value", "operation %d, %s: %.17g instead of %.17g", k, what, got, want); };
         // the gradient of a scalar output or the diagonal of a distributed one
         auto slope = [&](const OutModel &m)
         {
            V g;
            for (int i = 0; i < P.N; ++i) { g.push_back(m.dist ? 2 * m.w * m.p * m.u[size_t(i)] : m.w * m.p * (1.0 + i) * m.u[size_t(i)]); }
            return g;
         };
         const char *wrt = wrts[o.wrt];
         bool unknown = false;
         switch (o.kind)
         {
         case 0:
            if (known) { mustRefuse("creating an output twice", [&] { s.createOutput(nm, {{"dist", o.dist}, {"w", o.w}}); }); }
            else if (o.given) { s.createOutput(nm, {{"dist", o.dist}, {"w", o.w}}); model[o.name] = {o.dist, o.w, 1.0, zero, zero}; }
            else { s.createOutput(nm); model[o.name] = {false, 1.0, 1.0, zero, zero}; }
            break;
         case 1:
            if (!known) { mustRefuse("asking the size of an unknown output", [&] { s.getOutputSize(nm); }); unknown = true; break; }
            SIM_CHECK(s.getOutputSize(nm) == (model[o.name].dist ? l.len() : 1), "size", "output %s has size %d", nm, s.getOutputSize(nm));
            break;
         case 2:
            if (!known) { mustRefuse("setting the options of an unknown output", [&] { s.setOutputOptions(nm, {{"w", o.w}}); }); unknown = true; break; }
            s.setOutputOptions(nm, {{"w", o.w}});
            model[o.name].w = o.w;
            break;
         case 3:
         {
            if (!known) { mustRefuse("asking for an unknown output", [&] { s.calcOutput(nm, in); }); unknown = true; break; }
            OutModel &m = model[o.name];
            upd(m);
            if (m.dist)
            {
               Vector v(l.len());
               v = 7.0;
               s.calcOutput(nm, in, v);
               V want;
               for (int i = 0; i < P.N; ++i) { want.push_back(m.w * m.p * m.u[size_t(i)] * m.u[size_t(i)] + m.q[size_t(i)]); }
               close(gather(v, l), want, "a distributed output");
            }
            else if (o.given) { closeS(s.calcOutput(nm, in), outScalar(m.w, m.p, m.u), "a scalar output"); }
            else
            {
               Vector v(1);
               v = 7.0;
               s.calcOutput(nm, in, v);
               closeS(v(0), outScalar(m.w, m.p, m.u), "a scalar output in a vector");
            }
            break;
         }
         case 4:
         {
            if (!known)
            {
               double d = 0.5;
               mustRefuse("asking for a derivative of an unknown output", [&] { s.calcOutputPartial(nm, wrt, in, d); });
               SIM_CHECK(d == 0.5, "refused-state", "a refused call changed its argument");
               unknown = true;
               break;
            }
            OutModel &m = model[o.name];
            if (m.dist) { break; }
            upd(m);
            if (o.wrt == 2)
            {
               double d = o.w;
               s.calcOutputPartial(nm, "p", in, d);
               closeS(d, o.w + outScalar(m.w, 1.0, m.u), "a derivative with respect to a scalar, added to what was there");
            }
            else
            {
               Vector d = l.local(o.a);
               s.calcOutputPartial(nm, wrt, in, d);
               V want(o.a), g = slope(m);
               if (o.wrt == 0) { for (size_t i = 0; i < want.size(); ++i) { want[i] += g[i]; } }
               close(gather(d, l), want, "a derivative with respect to a field, added to what was there");
            }
            break;
         }
         case 5:
         {
            Vector one(1);
            one = o.w;
            if (!known)
            {
               Vector d(1);
               d = 0.0;
               mustRefuse("a product with the Jacobian of an unknown output", [&] { s.outputJacobianVectorProduct(nm, in, a, wrt, d); });
               unknown = true;
               break;
            }
            OutModel &m = model[o.name];
            upd(m);
            const Vector &dir = o.wrt == 2 ? one : a;
            V g = slope(m), want;
            if (m.dist)
            {
               Vector d = l.local(o.b);
               s.outputJacobianVectorProduct(nm, in, dir, wrt, d);
               for (int i = 0; i < P.N; ++i)
               {
                  size_t z = size_t(i);
                  want.push_back(o.b[z] + (o.wrt == 0 ? g[z] * o.a[z] : o.wrt == 1 ? o.a[z] : m.w * m.u[z] * m.u[z] * o.w));
               }
               close(gather(d, l), want, "a forward product of a distributed output");
            }
            else
            {
               Vector d(1);
               d = o.p;
               s.outputJacobianVectorProduct(nm, in, dir, wrt, d);
               closeS(d(0), o.p + (o.wrt == 0 ? dot(g, o.a) : o.wrt == 1 ? 0.0 : outScalar(m.w, 1.0, m.u) * o.w), "a forward product of a scalar output");
            }
            break;
         }
         case 6:
         {
            Vector one(1);
            one = o.w;
            if (!known)
            {
               Vector d(l.len());
               mustRefuse("a reverse product of an unknown output", [&] { s.outputVectorJacobianProduct(nm, in, one, wrt, d); });
               unknown = true;
               break;
            }
            OutModel &m = model[o.name];
            // whether the input is a scalar or a field is known from the inputs
            if (o.wrt == 2) { in.erase("p"); in.emplace("p", o.p); m.p = o.p; }
            if (o.wrt == 1) { in.erase("load"); in.emplace("load", q); m.q = o.q; }
            if (o.wrt == 0) { in.erase("state"); in.emplace("state", u); m.u = o.u; }
            upd(m);
            const Vector &bar = m.dist ? b : one;
            V g = slope(m);
            if (o.wrt == 2)
            {
               Vector d(1);
               d = o.w;
               s.outputVectorJacobianProduct(nm, in, bar, wrt, d);
               double want = o.w;
               if (m.dist) { for (size_t i = 0; i < g.size(); ++i) { want += m.w * m.u[i] * m.u[i] * o.b[i]; } }
               else { want += outScalar(m.w, 1.0, m.u) * o.w; }
               closeS(d(0), want, "a reverse product with respect to a scalar");
            }
            else
            {
               Vector d = l.local(o.a);
               s.outputVectorJacobianProduct(nm, in, bar, wrt, d);
               V want(o.a);
               for (size_t i = 0; i < want.size(); ++i)
               {
                  if (o.wrt == 0) { want[i] += g[i] * (m.dist ? o.b[i] : o.w); }
                  else if (m.dist) { want[i] += o.b[i]; }
               }
               close(gather(d, l), want, "a reverse product with respect to a field");
            }
            break;
         }
         case 7:
         {
            updRes();
            Vector r(l.len());
            r = 3.0;
            V want;
            if (o.given && !o.giveP && !o.giveQ)
            {
               ru = o.u;
               s.calcResidual(u, r);
            }
            else { s.calcResidual(in, r); }
            want = P.res(ru, rp, rq);
            close(gather(r, l), want, "a residual");
            break;
         }
         case 8:
         {
            updRes();
            double v;
            if (o.given && !o.giveP && !o.giveQ) { ru = o.u; v = s.calcResidualNorm(u); }
            else { v = s.calcResidualNorm(in); }
            closeS(v, norm(P.res(ru, rp, rq)), "the norm of a residual");
            break;
         }
         case 9:
            if (c.unsteady) { mustRefuse("linearising an unsteady problem", [&] { s.linearize(in); }); break; }
            s.linearize(in);
            updRes();
            lu_ = ru;
            linear = true;
            break;
         case 10:
         {
            Vector one(1), d = l.local(o.b);
            one = o.w;
            if (c.unsteady) { mustRefuse("a forward product of an unsteady problem", [&] { s.jacobianVectorProduct(a, wrt, d); }); if (o.given) { mustRefuse("a forward product of an unsteady problem", [&] { s.jacobianVectorProduct(one, "p"); }); } break; }
            if (!linear) { break; }
            V want(o.b);
            if (o.wrt == 0) { V g = P.mul(P.jac(lu_), o.a, false); for (size_t i = 0; i < g.size(); ++i) { want[i] += g[i]; } }
            if (o.wrt == 1) { for (size_t i = 0; i < want.size(); ++i) { want[i] -= o.a[i]; } }
            if (o.wrt == 2) { for (size_t i = 0; i < want.size(); ++i) { want[i] -= o.w * P.F[i]; } }
            s.jacobianVectorProduct(o.wrt == 2 ? one : a, wrt, d);
            close(gather(d, l), want, "a forward product of the residual");
            if (o.wrt == 2) { closeS(s.jacobianVectorProduct(one, "p"), o.w, "a scalar forward product of the residual"); }
            break;
         }
         case 11:
         {
            Vector d = l.local(o.a);
            if (c.unsteady)
            {
               mustRefuse("a reverse product of an unsteady problem", [&] { s.vectorJacobianProduct(b, wrt, d); });
               mustRefuse("a reverse product of an unsteady problem", [&] { s.vectorJacobianProduct(b, "p"); });
               mustRefuse("the adjoint of an unsteady problem", [&] { s.solveForAdjoint(in, b, d); });
               updRes();
               SIM_CHECK(bitsame(gather(d, l), o.a), "refused-state", "a refused call changed its argument");
               break;
            }
            if (!linear) { break; }
            if (o.wrt == 2) { closeS(s.vectorJacobianProduct(b, "p"), -dot(o.b, P.F), "a reverse product with respect to a scalar"); break; }
            V want(o.a);
            if (o.wrt == 0) { V g = P.mul(P.jac(lu_), o.b, true); for (size_t i = 0; i < g.size(); ++i) { want[i] += g[i]; } }
            if (o.wrt == 1) { for (size_t i = 0; i < want.size(); ++i) { want[i] -= o.b[i]; } }
            s.vectorJacobianProduct(b, wrt, d);
            close(gather(d, l), want, "a reverse product of the residual");
            break;
         }
         case 12:
         {
            SIM_CHECK(s.getStateSize() == l.len(), "size", "the state has size %d", s.getStateSize());
            static const char *f[] = {"state", "residual", "adjoint"};
            SIM_CHECK(s.getFieldSize(f[o.wrt]) == l.len(), "size", "field %s has size %d", f[o.wrt], s.getFieldSize(f[o.wrt]));
            SIM_CHECK(s.getFieldSize("pressure") == 0, "size", "an unknown field has size %d", s.getFieldSize("pressure"));
            break;
         }
         case 13:
         {
            // setting a state from a function, and its error against a function or another state
            Vector x(l.len()), y = l.local(o.b);
            x = 9.0;
            int lo = l.lo();
            const V &A = o.a;
            s.setState([lo, &A](Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = A[size_t(lo + i)]; } }, x);
            SIM_CHECK(bitsame(gather(x, l), o.a), "set-state", "the state is not what it was set to");
            V d;
            for (size_t i = 0; i < o.a.size(); ++i) { d.push_back(o.a[i] - o.b[i]); }
            double e1 = s.calcStateError([lo, &A](Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = A[size_t(lo + i)]; } }, y), e2 = s.calcStateError(Vector(x), y);
            closeS(e1, norm(d), "the error of a state against a function");
            closeS(e2, norm(d), "the error of a state against another");
            SIM_CHECK(bitsame(gather(y, l), o.b), "refused-state", "computing an error changed the state");
            if (o.given)
            {
               Vector z(l.len() + 1);
               z = 0.0;
               mustRefuse("an exact solution of the wrong size", [&] { s.calcStateError(Vector(z), y); });
            }
            break;
         }
         default:
         {
            // options given later replace those of the same name and no others
            nlohmann::json before = s.getOptions(), add = {{"time-dis", {{"dt", o.w}}}, {"note", o.p}};
            s.setOptions(add);
            nlohmann::json want = before;
            want["time-dis"]["dt"] = o.w;
            want["note"] = o.p;
            SIM_CHECK(s.getOptions() == want, "options", "options that were not given changed");
         }
         }
         if (unknown) { probe("unknown outputs asked for"); }
      }
      probe("operations", n);
   });
   femsim::checkThrew(res);
   signature(uint64_t(P.N) * 100 + uint64_t(l.n) * 10 + c.unsteady);
   for (auto &o : calls) { signature(uint64_t(o.kind) * 64 + uint64_t(o.name) * 8 + uint64_t(o.wrt)); }
   nontrivial();
   describe(fmt("%d operations on a %s problem of %d unknowns on %d ranks", n, c.unsteady ? "time-dependent" : "steady", P.N, l.n));
}
}  // namespace

void driverRun()
{
   std::string p = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "S01";
   entries.clear();
   if (p == "S02") { runSteady(); }
   else { runBooks(); }
}
