// SOURCES: common/abstract_solver.cpp common/ode.cpp common/mfem_extensions.cpp common/matrix_operators.cpp common/relaxed_newton.cpp common/linesearch.cpp common/default_options.cpp physics/miso_input.cpp utils/utils.cpp
// T01 time stepping, T02 entropy balance of the relaxation schemes, T03 the log
// of a run and restarts from it (src/common/abstract_solver.cpp, ode.cpp,
// mfem_extensions.cpp).
#include <cstring>
#include <algorithm>
#include <cmath>
#include "mfem.hpp"
#include "abstract_solver.hpp"
#include "ode.hpp"
#include "mfem_extensions.hpp"
#include "femsim.hpp"
#include "simfs.hpp"
using namespace sim;
using mfem::Vector;
using mfem::HypreParMatrix;

const char *driverProperty() { return "timeloop"; }

namespace
{
using V = std::vector<double>;
// ------------------------------------------------------------ the problem
// M du/dt = -R(u, t; p)
struct Problem
{
   int N = 3;
   int kind = 0;  // 0 linear, 1 exponential entropy, 2 nonlinear skew, 3 forced, no entropy
   V M, S, D, F;
   double om = 1, nl = 0.3;
   bool forced = false;  // explicit dependence on time
   double diag(int i) const { return M[size_t(i * N + i)]; }
   double forcing(int i, double t) const { return F[size_t(i)] * std::cos(om * t + i); }
   void var(const V &u, V &w) const
   {
      w = u;
      if (kind == 1) { for (double &x : w) { x = std::exp(x); } }
   }
   V res(const V &u, double t, double p) const
   {
      V w, r(size_t(N), 0.0);
      var(u, w);
      for (int i = 0; i < N; ++i)
      {
         double s = 0;
         for (int j = 0; j < N; ++j)
         {
            double c = S[size_t(i * N + j)];
            if (kind == 2) { c *= 1 + nl * u[size_t(i)] * u[size_t(j)]; }
            s += (p * D[size_t(i * N + j)] - c) * w[size_t(j)];
         }
         if (kind == 3) { s += nl * u[size_t(i)] * u[size_t(i)] * u[size_t(i)]; }
         if (forced) { s -= forcing(i, t); }
         r[size_t(i)] = s;
      }
      return r;
   }
   V jac(const V &u, double, double p) const
   {
      V J(size_t(N * N)), w;
      var(u, w);
      for (int i = 0; i < N; ++i)
      {
         for (int j = 0; j < N; ++j)
         {
            double c = S[size_t(i * N + j)], v;
            if (kind == 2)
            {
               v = p * D[size_t(i * N + j)] - c * (1 + 2 * nl * u[size_t(i)] * u[size_t(j)]);
               if (i == j)
               {
                  for (int k = 0; k < N; ++k) { v -= S[size_t(i * N + k)] * nl * u[size_t(k)] * u[size_t(k)]; }
               }
            }
            else
            {
               v = p * D[size_t(i * N + j)] - c;
               if (kind == 1) { v *= w[size_t(j)]; }
               if (kind == 3 && i == j) { v += 3 * nl * u[size_t(i)] * u[size_t(i)]; }
            }
            J[size_t(i * N + j)] = v;
         }
      }
      return J;
   }
   double entropy(const V &u) const
   {
      long double s = 0;
      for (int i = 0; i < N; ++i)
      {
         if (kind == 1) { s += diag(i) * std::exp(u[size_t(i)]); }
         else { for (int j = 0; j < N; ++j) { s += 0.5L * u[size_t(i)] * M[size_t(i * N + j)] * u[size_t(j)]; } }
      }
      return double(s);
   }
   /// -dS/dt of the exact flow
   double production(const V &u, double t, double p) const
   {
      V w, r = res(u, t, p);
      var(u, w);
      long double s = 0;
      for (int i = 0; i < N; ++i) { s += w[size_t(i)] * r[size_t(i)]; }
      return double(s);
   }
};
bool lu(V A, V &b)
{
   int n = int(b.size());
   for (int k = 0; k < n; ++k)
   {
      int pv = k;
      for (int i = k + 1; i < n; ++i) { if (std::fabs(A[size_t(i * n + k)]) > std::fabs(A[size_t(pv * n + k)])) { pv = i; } }
      if (A[size_t(pv * n + k)] == 0) { return false; }
      for (int j = 0; j < n; ++j) { std::swap(A[size_t(k * n + j)], A[size_t(pv * n + j)]); }
      std::swap(b[size_t(k)], b[size_t(pv)]);
      for (int i = k + 1; i < n; ++i)
      {
         double f = A[size_t(i * n + k)] / A[size_t(k * n + k)];
         for (int j = k; j < n; ++j) { A[size_t(i * n + j)] -= f * A[size_t(k * n + j)]; }
         b[size_t(i)] -= f * b[size_t(k)];
      }
   }
   for (int i = n - 1; i >= 0; --i)
   {
      for (int j = i + 1; j < n; ++j) { b[size_t(i)] -= A[size_t(i * n + j)] * b[size_t(j)]; }
      b[size_t(i)] /= A[size_t(i * n + i)];
   }
   return true;
}
/// k with M k + R(u + dt k, t) = 0
V refSlope(const Problem &P, const V &u, double dt, double t, double p)
{
   V k(size_t(P.N), 0.0);
   for (int it = 0; it < 50; ++it)
   {
      V x(u);
      for (int i = 0; i < P.N; ++i) { x[size_t(i)] += dt * k[size_t(i)]; }
      V r = P.res(x, t, p), J = P.jac(x, t, p);
      double n = 0;
      for (int i = 0; i < P.N; ++i)
      {
         for (int j = 0; j < P.N; ++j)
         {
            r[size_t(i)] += P.M[size_t(i * P.N + j)] * k[size_t(j)];
            J[size_t(i * P.N + j)] = P.M[size_t(i * P.N + j)] + dt * J[size_t(i * P.N + j)];
         }
         n = std::max(n, std::fabs(r[size_t(i)]));
      }
      if (!lu(J, r)) { harnessError("singular reference system"); }
      for (int i = 0; i < P.N; ++i) { k[size_t(i)] -= r[size_t(i)]; }
      if (n < 1e-15) { break; }
   }
   return k;
}
/// the step of the scheme without relaxation: direction (du per unit of gamma),
/// and for the relaxation schemes the entropy production of the stages
struct RefStep { V d; double prod = 0; };
RefStep refStep(const Problem &P, const std::string &type, const V &u, double t, double dt, double p)
{
   RefStep s;
   int N = P.N;
   auto ax = [&](const V &x, double a, const V &y) { V z(x); for (int i = 0; i < N; ++i) { z[size_t(i)] += a * y[size_t(i)]; } return z; };
   s.d.assign(size_t(N), 0.0);
   if (type == "RK1") { s.d = ax(s.d, dt, refSlope(P, u, 0, t, p)); }
   else if (type == "RK4")
   {
      V k1 = refSlope(P, u, 0, t, p), k2 = refSlope(P, ax(u, dt / 2, k1), 0, t + dt / 2, p);
      V k3 = refSlope(P, ax(u, dt / 2, k2), 0, t + dt / 2, p), k4 = refSlope(P, ax(u, dt, k3), 0, t + dt, p);
      for (int i = 0; i < N; ++i) { s.d[size_t(i)] = dt / 6 * (k1[size_t(i)] + 2 * k2[size_t(i)] + 2 * k3[size_t(i)] + k4[size_t(i)]); }
   }
   else if (type == "MIDPOINT" || type == "RRK" || type == "RRKMIDPOINT")
   {
      V k = refSlope(P, u, dt / 2, t + dt / 2, p);
      s.d = ax(s.d, dt, k);
      s.prod = P.production(ax(u, dt / 2, k), t + dt / 2, p);
   }
   else if (type == "PTC") { s.d = ax(s.d, dt, refSlope(P, u, dt, t + dt, p)); }
   else if (type == "RRK6")
   {
      // the eight-stage sixth-order method of Verner's 6(5) pair
      static const double a[8][8] = {
         {0}, {.06}, {.1923996296296296296296e-1, .7669337037037037037037e-1}, {.35975e-1, 0, .107925},
         {1.318683415233148260919747, 0, -5.042058063628562225427762, 4.220674648395413964508014},
         {-41.87259166432751461803758, 0, 159.4325621631374917700366, -122.1192135650100309202516, 5.531743066200053768252631},
         {-54.43015693531650433250642, 0, 207.0672513650184644273657, -158.6108137845899991828742, 6.991816585950242321992597, -.1859723106220323397765172e-1},
         {-54.66374178728197680241216, 0, 207.9528062553893734515825, -159.2889574744995071508960, 7.018743740796944434698171, -.1833878590504572306472782e-1, -.5119484997882099077875432e-3}};
      static const double b[8] = {.3438957868357036009278820e-1, 0, 0, .2582624555633503404659559, .4209371189673537150642552, 4.405396469669310170148837, -176.4831190242986576151741, 172.3641334014150730294023};
      static const double c[8] = {0, .06, .9593333333333333333333333e-1, .1439, .4973, .9725, .9995, 1};
      std::vector<V> k(8);
      for (int q = 0; q < 8; ++q)
      {
         V y(u);
         for (int j = 0; j < q; ++j) { y = ax(y, dt * a[q][j], k[size_t(j)]); }
         k[size_t(q)] = refSlope(P, y, 0, t + c[q] * dt, p);
         s.d = ax(s.d, dt * b[q], k[size_t(q)]);
         s.prod += b[q] * P.production(y, t + c[q] * dt, p);
      }
   }
   else { harnessError("unknown scheme " + type); }
   return s;
}
// ------------------------------------------------- the distributed residual
struct Layout
{
   int n = 1;
   std::vector<int> off;
   int lo() const { return off[size_t(sim::rank())]; }
   int len() const { return off[size_t(sim::rank()) + 1] - lo(); }
};
V gather(const double *x, const Layout &l)
{
   std::vector<int> cnt, dis;
   for (int i = 0; i < l.n; ++i) { cnt.push_back(l.off[size_t(i) + 1] - l.off[size_t(i)]); dis.push_back(l.off[size_t(i)]); }
   V g(size_t(l.off.back()));
   MPI_Allgatherv(x, l.len(), MPI_DOUBLE, g.data(), cnt.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
   return g;
}
std::unique_ptr<HypreParMatrix> distribute(const V &A, int N, const Layout &l)
{
   int n = l.len(), lo = l.lo();
   std::vector<int> I;
   std::vector<HYPRE_BigInt> J;
   V d;
   I.push_back(0);
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < N; ++j) { J.push_back(j); d.push_back(A[size_t((lo + i) * N + j)]); }
      I.push_back(int(J.size()));
   }
   HYPRE_BigInt rows[2] = {lo, lo + n};
   return std::make_unique<HypreParMatrix>(MPI_COMM_WORLD, n, N, N, I.data(), J.data(), d.data(), rows, rows);
}
struct Shared { long evals = 0; };
class ToyResidual final
{
public:
   const Problem *P;
   const Layout *l;
   double t = 0, p = 1;
   bool denseJac = false;
   std::unique_ptr<mfem::Operator> J;
   int calls = 0;
   ToyResidual(const Problem &P_, const Layout &l_, bool dj) : P(&P_), l(&l_), denseJac(dj) {}
   friend MPI_Comm getMPIComm(const ToyResidual &) { return MPI_COMM_WORLD; }
   friend int getSize(const ToyResidual &r) { return r.l->len(); }
   friend void setInputs(ToyResidual &r, const miso::MISOInputs &in)
   {
      miso::setValueFromInputs(in, "p", r.p);
      miso::setValueFromInputs(in, "time", r.t);
   }
   friend void setOptions(ToyResidual &, const nlohmann::json &) {}
   friend void evaluate(ToyResidual &r, const miso::MISOInputs &in, Vector &out)
   {
      if (++r.calls > 200000) { sim::violation("endless", "more than 200000 residual evaluations"); }
      Vector x;
      miso::setVectorFromInputs(in, "state", x, false, true);
      V g = r.P->res(gather(x.GetData(), *r.l), r.t, r.p);
      out.SetSize(r.l->len());
      for (int i = 0; i < out.Size(); ++i) { out(i) = g[size_t(r.l->lo() + i)]; }
   }
   friend mfem::Operator &getJacobian(ToyResidual &r, const miso::MISOInputs &in, const std::string &)
   {
      Vector x;
      miso::setVectorFromInputs(in, "state", x, false, true);
      V A = r.P->jac(gather(x.GetData(), *r.l), r.t, r.p);
      if (r.denseJac)
      {
         auto D = std::make_unique<mfem::DenseMatrix>(r.P->N);
         for (int i = 0; i < r.P->N; ++i) { for (int j = 0; j < r.P->N; ++j) { (*D)(i, j) = A[size_t(i * r.P->N + j)]; } }
         r.J = std::move(D);
      }
      else { r.J = distribute(A, r.P->N, *r.l); }
      return *r.J;
   }
   friend double calcEntropy(ToyResidual &r, const miso::MISOInputs &in)
   {
      Vector x;
      miso::setVectorFromInputs(in, "state", x, false, true);
      return r.P->entropy(gather(x.GetData(), *r.l));
   }
   friend double calcEntropyChange(ToyResidual &r, const miso::MISOInputs &in)
   {
      Vector x;
      double t = NAN;
      miso::setVectorFromInputs(in, "state", x, false, true);
      miso::setValueFromInputs(in, "time", t, true);
      return r.P->production(gather(x.GetData(), *r.l), t, r.p);
   }
   friend mfem::Solver *getPreconditioner(ToyResidual &) { return nullptr; }
};
struct Visit { int iter; double t, dt; V u; };
struct Record
{
   int initial = 0, terminal = 0, termIter = -1;
   double termT = 0;
   V init, fin;
   std::vector<Visit> steps;
   std::vector<double> dtOld, exitT;
};
struct Config
{
   std::string type = "RK4", lin = "gmres", newton = "newton";
   int mass = 0;  // 0 hypre, 1 block of hypre (Jacobian-free), 2 identity (one rank)
   double t0 = 0, tf = 1, dt = 0.1, p = 1;
   bool exact = true, exactGiven = false, varDt = false;
   int maxIter = 10000;
   V dts;
   int logKind = -1;  // -1 none, 0 ascii, 1 binary
   bool logI = true, logE = true, logF = true;
};
// entries of the log that a run may have written: (step, rank) -> candidates
struct Cand { double t; V u; };
struct Logged { std::vector<Cand> may; bool torn = false; };
std::map<std::pair<int, int>, Logged> written;
std::map<std::pair<int, int>, Logged>::iterator saving[8];
bool inSave[8];

class ToySolver : public miso::AbstractSolver2
{
public:
   const Problem &P;
   const Layout &l;
   Config c;
   std::unique_ptr<HypreParMatrix> M;
   std::unique_ptr<mfem::BlockOperator> B;
   mfem::Array<int> offs;
   Record rec;
   static nlohmann::json opts(const Config &c)
   {
      nlohmann::json o;
      o["silent"] = true;
      o["print-options"] = false;
      o["time-dis"] = {{"type", c.type}, {"t-initial", c.t0}, {"t-final", c.tf}, {"dt", c.dt}, {"max-iter", c.maxIter}};
      if (c.exactGiven) { o["time-dis"]["exact-t-final"] = c.exact; }
      o["lin-solver"] = {{"type", c.lin}, {"reltol", 1e-13}, {"abstol", 1e-15}, {"maxiter", 200}, {"printlevel", -1}, {"kdim", 40}};
      if (c.lin.substr(0, 5) == "hypre") { o["lin-solver"]["printlevel"] = 0; }
      o["nonlin-solver"] = {{"type", c.newton}, {"reltol", 1e-13}, {"abstol", 1e-13}, {"maxiter", 30}, {"printlevel", -1}};
      return o;
   }
   ToySolver(const Problem &P_, const Layout &l_, const Config &c_, bool steady = false)
    : AbstractSolver2(MPI_COMM_WORLD, opts(c_)), P(P_), l(l_), c(c_)
   {
      spatial_res = std::make_unique<miso::MISOResidual>(ToyResidual(P, l, c.mass == 2));
      linear_solver = miso::constructLinearSolver(comm, options["lin-solver"]);
      nonlinear_solver = miso::constructNonlinearSolver(comm, options["nonlin-solver"], *linear_solver);
      if (steady)
      {
         nonlinear_solver->SetOperator(*spatial_res);
      }
      else
      {
         mfem::Operator *mass = nullptr;
         if (c.mass != 2)
         {
            M = distribute(P.M, P.N, l);
            mass = M.get();
         }
         if (c.mass == 1)
         {
            offs.SetSize(2);
            offs[0] = 0;
            offs[1] = l.len();
            B = std::make_unique<mfem::BlockOperator>(offs);
            B->SetBlock(0, 0, M.get());
            mass = B.get();
         }
         space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*spatial_res, mass));
         nonlinear_solver->SetOperator(*space_time_res);
         ode = std::make_unique<miso::FirstOrderODE>(*space_time_res, options["time-dis"], *nonlinear_solver, out);
      }
      if (c.logKind == 0) { addLogger(miso::ASCIILogger(), {c.logI, c.logE, c.logF}); }
      if (c.logKind == 1) { addLogger(miso::BinaryLogger(), {c.logI, c.logE, c.logF}); }
   }
   V loc(const Vector &u) const { return V(u.GetData(), u.GetData() + u.Size()); }
   void cand(int step, double t, const V &u)
   {
      int r = sim::rank();
      saving[r] = written.emplace(std::make_pair(step, r), Logged()).first;
      saving[r]->second.may.push_back({t, u});
      saving[r]->second.torn = true;
      inSave[r] = true;
   }
   void saved()
   {
      int r = sim::rank();
      if (!inSave[r]) { return; }
      inSave[r] = false;
      Logged &e = saving[r]->second;
      e.may.erase(e.may.begin(), e.may.end() - 1);
      e.torn = false;
   }
   void initialHook(const Vector &u) override
   {
      ++rec.initial;
      rec.init = loc(u);
      if (c.logKind >= 0 && c.logI) { cand(0, c.t0, rec.init); }
      AbstractSolver2::initialHook(u);
      saved();
   }
   void iterationHook(int iter, double t, double dt, const Vector &u) override
   {
      rec.steps.push_back({iter, t, dt, loc(u)});
      SIM_CHECK(rec.steps.size() < 400, "endless", "more than 400 steps (t = %.17g, dt = %.17g, final time %.17g)", t, dt, c.tf);
      if (c.logKind >= 0 && c.logE) { cand(iter, t, rec.steps.back().u); }
      AbstractSolver2::iterationHook(iter, t, dt, u);
      saved();
      sim::crashPoint("between log and step");
   }
   void terminalHook(int iter, double t, const Vector &u) override
   {
      ++rec.terminal;
      rec.termIter = iter;
      rec.termT = t;
      rec.fin = loc(u);
      if (c.logKind >= 0 && c.logF) { cand(iter, t, rec.fin); }
      AbstractSolver2::terminalHook(iter, t, u);
      saved();
   }
   double calcStepSize(int iter, double t, double tf, double dtOld, const Vector &u) const override
   {
      const_cast<ToySolver *>(this)->rec.dtOld.push_back(dtOld);
      if (c.varDt) { return std::min(c.dts[size_t(iter) % c.dts.size()], tf - t); }
      return AbstractSolver2::calcStepSize(iter, t, tf, dtOld, u);
   }
   bool iterationExit(int iter, double t, double tf, double dt, const Vector &u) const override
   {
      const_cast<ToySolver *>(this)->rec.exitT.push_back(t);
      return AbstractSolver2::iterationExit(iter, t, tf, dt, u);
   }
};
// ------------------------------------------------------------- generation
Problem genProblem(bool entropy, bool diagMass)
{
   Problem P;
   P.N = genInt(2, 7);
   P.kind = entropy ? int(gen(3)) : int(gen(4));
   size_t N = size_t(P.N);
   P.M.assign(N * N, 0);
   P.S.assign(N * N, 0);
   P.D.assign(N * N, 0);
   bool dm = diagMass || P.kind == 1;
   for (size_t i = 0; i < N; ++i) { P.M[i * N + i] = genIn(0.5, 2); P.F.push_back(genIn(-1, 1)); }
   bool cons = gen(3) == 0;
   for (size_t i = 0; i < N; ++i)
   {
      for (size_t j = i + 1; j < N; ++j)
      {
         double m = dm ? 0 : 0.25 * genIn(-1, 1) / double(N);
         P.M[i * N + j] = P.M[j * N + i] = m;
         double s = gen(4) == 0 ? 0 : genIn(-1, 1);
         P.S[i * N + j] = s;
         P.S[j * N + i] = -s;
         double d = cons ? 0 : genIn(0, 0.4);
         P.D[i * N + j] -= d;
         P.D[j * N + i] -= d;
         P.D[i * N + i] += d;
         P.D[j * N + j] += d;
      }
   }
   if (P.kind == 3) { for (size_t i = 0; i < N; ++i) { P.D[i * N + i] += 0.5; } }
   P.forced = P.kind == 3 || gen(3) == 0;
   if (P.forced && P.kind != 3) { for (double &f : P.F) { f *= 0.4; } }
   P.om = genIn(0.5, 6);
   return P;
}
Layout genLayout(int N, int maxRanks)
{
   Layout l;
   l.n = genInt(1, maxRanks);
   std::vector<int> cut;
   for (int i = 0; i + 1 < l.n; ++i) { cut.push_back(int(gen(uint32_t(N + 1)))); }
   std::sort(cut.begin(), cut.end());
   l.off.push_back(0);
   for (int c : cut) { l.off.push_back(c); }
   l.off.push_back(N);
   return l;
}
bool relaxType(const std::string &t) { return t.substr(0, 3) == "RRK"; }
void genConfig(Config &c, Layout &l, bool relax, Problem &P)
{
   static const char *all[] = {"RK1", "RK4", "MIDPOINT", "PTC", "RRK", "RRK6", "RRKMIDPOINT"};
   c.type = relax ? all[4 + gen(3)] : all[gen(P.kind == 3 ? 4 : 6)];
   c.mass = int(gen(3));
   if (c.mass == 2)
   {
      l.n = 1;
      l.off = {0, P.N};
      for (int i = 0; i < P.N; ++i) { for (int j = 0; j < P.N; ++j) { P.M[size_t(i * P.N + j)] = i == j; } }
   }
   static const char *lin[] = {"gmres", "fgmres", "hypregmres", "hyprefgmres"};
   bool emptyRank = false;
   for (int i = 0; i < l.n; ++i) { emptyRank = emptyRank || l.off[size_t(i)] == l.off[size_t(i) + 1]; }
   c.lin = lin[gen(c.mass == 0 ? 4 : 2)];
   c.newton = gen(3) == 2 ? "relaxednewton" : "newton";
   c.t0 = gen(2) ? 0.0 : genIn(-1, 2);
   c.dt = genIn(0.04, 0.22);
   int k = genInt(1, 9);
   c.tf = c.t0 + (gen(3) ? c.dt * (k - 1 + genUnit()) + 1e-3 : c.dt * k);
   c.exactGiven = gen(2);
   c.exact = !c.exactGiven || gen(2);
   if (gen(6) == 5) { c.maxIter = genInt(0, 4); }
   c.varDt = gen(5) == 4;
   if (c.varDt)
   {
      c.exact = true;
      for (int i = 0; i < 4; ++i) { c.dts.push_back(c.dt * genIn(0.4, 1.4)); }
   }
   c.p = gen(2) ? 1.0 : genIn(0.2, 3);
   {
      // explicit schemes blow up, and the relaxation factor leaves one, when
      // the step does not resolve the dynamics
      V J = P.jac(V(size_t(P.N), 0.5), 0, c.p);
      double L = 1e-6;
      for (int i = 0; i < P.N; ++i)
      {
         double s = 0;
         for (int j = 0; j < P.N; ++j) { s += std::fabs(J[size_t(i * P.N + j)]); }
         L = std::max(L, s / (0.5 * P.diag(i)));
      }
      double f = std::min(1.0, (relaxType(c.type) ? 0.8 : 1.6) / (L * c.dt));
      c.dt *= f;
      for (double &d : c.dts) { d *= f; }
      c.tf = c.t0 + (c.tf - c.t0) * f;
   }
}
V genState(const Problem &P)
{
   V u;
   for (int i = 0; i < P.N; ++i) { u.push_back(genIn(-1, 1)); }
   return u;
}

/// one solve on all ranks; returns the records with global states
struct RunOut { Record rec; };
Record globalise(const std::vector<Record> &r, const Layout &l)
{
   // all ranks must have seen the same sequence
   const Record &a = r[0];
   Record g = a;
   for (int q = 1; q < l.n; ++q)
   {
      const Record &b = r[size_t(q)];
      SIM_CHECK(a.steps.size() == b.steps.size() && a.initial == b.initial && a.terminal == b.terminal && a.termIter == b.termIter && a.termT == b.termT,
                "ranks-disagree", "rank 0 took %zu steps to time %.17g, rank %d took %zu to time %.17g", a.steps.size(), a.termT, q, b.steps.size(), b.termT);
      for (size_t k = 0; k < a.steps.size(); ++k)
      {
         SIM_CHECK(a.steps[k].t == b.steps[k].t && a.steps[k].dt == b.steps[k].dt && a.steps[k].iter == b.steps[k].iter, "ranks-disagree",
                   "step %zu: time %.17g and size %.17g on rank 0, %.17g and %.17g on rank %d", k, a.steps[k].t, a.steps[k].dt, b.steps[k].t, b.steps[k].dt, q);
         g.steps[k].u.insert(g.steps[k].u.end(), b.steps[k].u.begin(), b.steps[k].u.end());
      }
      g.init.insert(g.init.end(), b.init.begin(), b.init.end());
      g.fin.insert(g.fin.end(), b.fin.begin(), b.fin.end());
   }
   return g;
}
double maxabs(const V &u) { double m = 0; for (double x : u) { m = std::max(m, std::fabs(x)); } return m; }
double dist(const V &a, const V &b)
{
   if (a.size() != b.size()) { return INFINITY; }
   double m = 0;
   for (size_t i = 0; i < a.size(); ++i) { double d = std::fabs(a[i] - b[i]); m = d > m || d != d ? (d != d ? INFINITY : d) : m; }
   return m;
}
bool bitsame(const V &a, const V &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }

/// checks one run against the scheme; returns the expected number of steps
void checkRun(const Problem &P, const Config &c, const Record &r, const V &u0, bool entropyOnly)
{
   bool relax = relaxType(c.type);
   SIM_CHECK(r.initial == 1 && r.terminal == 1, "hooks", "the initial hook ran %d times and the terminal hook %d times", r.initial, r.terminal);
   SIM_CHECK(bitsame(r.init, u0), "hooks", "the initial hook did not see the initial state");
   double t = c.t0;
   V u = u0;
   size_t n = r.steps.size();
   SIM_CHECK(r.exitT.size() == n && r.dtOld.size() == n, "hooks", "%zu steps, but %zu step sizes and %zu exit tests", n, r.dtOld.size(), r.exitT.size());
   double eps = 1e-13 * (1 + std::fabs(c.t0) + std::fabs(c.tf));
   for (size_t k = 0; k < n; ++k)
   {
      const Visit &v = r.steps[k];
      SIM_CHECK(v.iter == int(k), "step-number", "step %zu was announced as step %d", k, v.iter);
      SIM_CHECK(k == 0 ? v.t == c.t0 : v.t == r.exitT[k - 1], "step-time", "step %zu starts at time %.17g, the one before ended at %.17g", k, v.t, k ? r.exitT[k - 1] : c.t0);
      SIM_CHECK(v.t < c.tf || k == 0, "step-past-end", "step %zu starts at time %.17g, not before the final time %.17g", k, v.t, c.tf);
      SIM_CHECK(k == 0 ? r.dtOld[0] == 0.0 : r.dtOld[k] == r.steps[k - 1].dt, "step-size", "step %zu was sized with %.17g as the size of the step before", k, r.dtOld[k]);
      double want = c.varDt ? std::min(c.dts[k % c.dts.size()], c.tf - v.t) : c.exact ? std::min(c.dt, c.tf - v.t) : c.dt;
      SIM_CHECK(std::fabs(v.dt - want) <= eps, "step-size", "step %zu at time %.17g has size %.17g instead of %.17g", k, v.t, v.dt, want);
      SIM_CHECK(k == 0 ? bitsame(v.u, u0) : true, "step-state", "step 0 did not start from the initial state");
      const V &un = k + 1 < n ? r.steps[k + 1].u : r.fin;
      double tn = r.exitT[k], dt = v.dt;
      for (double x : un) { SIM_CHECK(std::isfinite(x), "not-finite", "the state after step %zu is not finite", k); }
      if (maxabs(v.u) > 1e3) { probe("runs that blew up"); return; }
      RefStep s = refStep(P, c.type, v.u, v.t, dt, c.p);
      double gam = 1.0;
      if (relax)
      {
         gam = (tn - v.t) / dt;
         SIM_CHECK(gam > 0.5 && gam < 1.5, "relaxation", "step %zu: relaxation factor %.17g", k, gam);
      }
      else { SIM_CHECK(std::fabs(tn - v.t - dt) <= eps, "step-time", "step %zu of size %.17g went from time %.17g to %.17g", k, dt, v.t, tn); }
      V e(v.u);
      for (size_t i = 0; i < e.size(); ++i) { e[i] += gam * s.d[i]; }
      // gam is known to about rounding of t / dt
      double tol = 1e-9 * (1 + maxabs(v.u)) + (relax ? 4e-16 * (1 + std::fabs(tn)) / dt * maxabs(s.d) : 0);
      if (!entropyOnly || relax)
      {
         SIM_CHECK(dist(un, e) <= tol, "scheme", "%s step %zu (t %.10g, dt %.10g) differs from the scheme by %.3g", c.type.c_str(), k, v.t, dt, dist(un, e));
      }
      if (relax)
      {
         double S0 = P.entropy(v.u), S1 = P.entropy(un), bal = S1 - S0 + gam * dt * s.prod;
         // the solver stops at 1e-12, or when the factor is known to 1e-12
         double slope = std::fabs(P.entropy(e) - S0) / std::max(1e-300, gam) + std::fabs(dt * s.prod);
         double etol = 3e-12 + 1e-11 * slope + 4e-15 * (std::fabs(S0) + 1) + 1e-9 * 0;
         SIM_CHECK(std::fabs(bal) <= etol, "entropy-balance", "%s step %zu (dt %.10g): entropy %.17g -> %.17g, expected change %.17g (off by %.3g)", c.type.c_str(), k, dt,
                   S0, S1, -gam * dt * s.prod, bal);
         probe("relaxed steps");
         if (std::fabs(gam - 1) > 1e-6) { probe("relaxed steps with factor away from one"); }
      }
      if (k + 1 < n) { SIM_CHECK(tn < c.tf, "step-past-end", "stepping went on past the final time"); }
      hashD(tn);
      for (double x : un) { hashD(x); }
   }
   if (n == 0) { SIM_CHECK(bitsame(r.fin, u0), "step-state", "no step was taken but the state changed"); SIM_CHECK(c.maxIter == 0, "no-steps", "no step was taken"); }
   SIM_CHECK(int(n) <= c.maxIter, "max-iter", "%zu steps with a limit of %d", n, c.maxIter);
   double tEnd = n ? r.exitT.back() : c.t0;
   SIM_CHECK(r.termT == tEnd, "hooks", "the terminal hook saw time %.17g, the last step ended at %.17g", r.termT, tEnd);
   SIM_CHECK(r.termIter == int(n), "terminal-step", "after %zu steps the terminal hook was called for step %d", n, r.termIter);
   if (int(n) < c.maxIter)
   {
      SIM_CHECK(tEnd >= c.tf - eps, "stopped-early", "stopped at time %.17g before the final time %.17g", tEnd, c.tf);
   }
   if (!relax && c.exact) { SIM_CHECK(tEnd <= c.tf + eps, "overshoot", "ended at time %.17g past the final time %.17g", tEnd, c.tf); }
}
std::vector<Record> solve(const Problem &P, const Layout &l, const Config &c, const std::vector<V> &u0s, std::vector<std::vector<Record>> &all, const std::vector<Config> &later = {})
{
   all.assign(u0s.size(), std::vector<Record>(size_t(l.n)));
   JobConfig jc;
   jc.nranks = l.n;
   auto res = runJob(jc, [&](int r)
   {
      ToySolver s(P, l, c);
      for (size_t k = 0; k < u0s.size(); ++k)
      {
         s.rec = Record();
         if (k && k <= later.size())
         {
            // options given between two solves hold for the next one
            const Config &n = later[k - 1];
            s.c = n;
            s.setOptions({{"time-dis", {{"t-initial", n.t0}, {"t-final", n.tf}, {"dt", n.dt}, {"max-iter", n.maxIter}}}});
         }
         Vector u(l.len());
         for (int i = 0; i < u.Size(); ++i) { u(i) = u0s[k][size_t(l.lo() + i)]; }
         s.solveForState({{"p", c.p}}, u);
         SIM_CHECK(bitsame(s.loc(u), s.rec.fin), "step-state", "the returned state is not the one the terminal hook saw");
         all[k][size_t(r)] = s.rec;
      }
   });
   femsim::checkThrew(res);
   std::vector<Record> out;
   for (auto &a : all) { out.push_back(globalise(a, l)); }
   return out;
}
void runStepping(bool relax)
{
   Problem P = genProblem(relax, false);
   Layout l = genLayout(P.N, 4);
   Config c;
   genConfig(c, l, relax, P);
   int solves = genInt(1, 3);
   std::vector<V> u0;
   for (int k = 0; k < solves; ++k) { u0.push_back(k && gen(3) == 0 ? u0[0] : genState(P)); }
   std::vector<std::vector<Record>> all;
   std::vector<Config> later;
   for (int k = 1; k < solves; ++k)
   {
      Config n = k == 1 ? c : later.back();
      if (!c.varDt && gen(2))
      {
         n.t0 = gen(2) ? n.t0 : genIn(-1, 2);
         n.dt *= genIn(0.4, 1);
         n.tf = n.t0 + n.dt * (genInt(0, 5) + genUnit()) + 1e-3;
         n.maxIter = gen(4) == 3 ? genInt(1, 4) : 10000;
         probe("solves with changed options");
      }
      later.push_back(n);
   }
   auto recs = solve(P, l, c, u0, all, later);
   size_t steps = 0;
   for (size_t k = 0; k < recs.size(); ++k) { checkRun(P, k ? later[k - 1] : c, recs[k], u0[k], false); steps += recs[k].steps.size(); }
   probe("steps", long(steps));
   signature(uint64_t(P.N) * 1000 + uint64_t(P.kind) * 100 + uint64_t(l.n) * 10 + uint64_t(c.mass));
   signature(steps * 64 + uint64_t(c.exact) * 2 + uint64_t(c.varDt));
   for (char ch : c.type + c.lin) { signature(uint64_t(ch)); }
   for (int o : l.off) { signature(uint64_t(o)); }
   if (steps > 0 && (l.n > 1 || c.mass == 2)) { nontrivial(); }
   describe(fmt("%s with %s, %d unknowns on %d ranks, problem %d, %zu steps in %d solves", c.type.c_str(), c.lin.c_str(), P.N, l.n, P.kind, steps, solves));
}
// ------------------------------------------------------------------- T03
template <typename L>
bool readEntry(int step, int n, double &t, V &u)
{
   Vector v(n);
   v = 0.5;
   try { L::readState("state", step, sim::rank(), t, v); }
   catch (const std::exception &) { return false; }
   u.assign(v.GetData(), v.GetData() + v.Size());
   return true;
}
bool readEntry(int kind, int step, int n, double &t, V &u)
{
   return kind == 0 ? readEntry<miso::ASCIILogger>(step, n, t, u) : readEntry<miso::BinaryLogger>(step, n, t, u);
}
void runLog()
{
   Problem P = genProblem(false, false);
   Layout l = genLayout(P.N, 4);
   Config c;
   genConfig(c, l, false, P);
   c.logKind = int(gen(2));
   c.logI = gen(3) > 0;
   c.logE = gen(4) > 0;
   c.logF = gen(3) > 0;
   c.varDt = false;
   c.maxIter = gen(6) == 5 ? genInt(0, 4) : 10000;
   bool relax = relaxType(c.type);
   written.clear();
   V u0 = genState(P);
   // the uninterrupted run
   Config q = c;
   q.logKind = -1;
   std::vector<std::vector<Record>> all;
   auto ref = solve(P, l, q, {u0}, all)[0];
   int nref = int(ref.steps.size());
   int attempts = 0, crashes = 0, restarts = 0, damaged = 0;
   double t = c.t0;
   V u = u0;
   int doneSteps = 0;  // steps of the whole run already behind `u`
   bool finished = false;
   V fin;
   int maxCrash = genInt(0, 2);
   while (!finished)
   {
      ++attempts;
      JobConfig jc;
      jc.nranks = l.n;
      jc.mayCrash = attempts <= maxCrash;
      static const uint32_t span[] = {8, 30, 90, 200};
      jc.crashAt = jc.mayCrash ? long(fault(span[fault(4)])) : -1;
      simfs::plan() = simfs::Plan();
      simfs::plan().benign = fault(3) == 2;
      Config cc = c;
      cc.t0 = t;
      if (c.maxIter < 10000) { cc.maxIter = c.maxIter - doneSteps; }
      std::fill(inSave, inSave + 8, false);
      std::vector<Record> rr(size_t(l.n));
      std::vector<V> f(size_t(l.n));
      auto res = runJob(jc, [&](int r)
      {
         ToySolver s(P, l, cc);
         Vector x(l.len());
         for (int i = 0; i < x.Size(); ++i) { x(i) = u[size_t(l.lo() + i)]; }
         s.solveForState({{"p", c.p}}, x);
         f[size_t(r)] = s.loc(x);
         rr[size_t(r)] = s.rec;
      });
      femsim::checkThrew(res);
      simfs::plan() = simfs::Plan();
      if (res.crashed)
      {
         ++crashes;
         int infl = 0;
         for (bool b : inSave) { infl += b; }
         if (infl) { probe("crash inside a save"); }
         nontrivial();
         if (fault(4) == 3)
         {
            int d = simfs::powerLoss(".");
            damaged += d;
            if (d) { for (auto &kv : written) { kv.second.torn = true; } }
         }
      }
      else
      {
         finished = true;
         for (auto &x : f) { fin.insert(fin.end(), x.begin(), x.end()); }
      }
      // what a restart finds
      int top = nref + 2;
      for (auto &kv : written) { top = std::max(top, kv.first.first + 2); }
      std::vector<std::map<int, Cand>> found(static_cast<size_t>(l.n));
      bool crashed = res.crashed;
      JobConfig j2;
      j2.nranks = l.n;
      auto r2 = runJob(j2, [&](int r)
      {
         for (int k = 0; k <= top; ++k)
         {
            auto it = written.find({k, r});
            int n = l.len();
            Cand e;
            bool ok = readEntry(c.logKind, k, n, e.t, e.u);
            if (!ok)
            {
               // only an entry that was being written may be unreadable
               SIM_CHECK(it == written.end() || it->second.torn, "log-missing", "rank %d: step %d was logged but cannot be read", r, k);
               continue;
            }
            SIM_CHECK(it != written.end(), "log-unexpected", "rank %d: the log has an entry for step %d that was never to be written (time %.17g)", r, k, e.t);
            bool match = false;
            for (const Cand &w : it->second.may)
            {
               bool same = w.t == e.t && w.u.size() == e.u.size();
               for (size_t i = 0; i < w.u.size() && same; ++i) { same = w.u[i] == e.u[i]; }
               match = match || same;
            }
            SIM_CHECK(match, "log-wrong", "rank %d: the entry of step %d (time %.17g) is not the state the run had at that step (time %.17g)", r, k, e.t, it->second.may.back().t);
            found[size_t(r)][k] = e;
            probe("log entries verified");
         }
      });
      femsim::checkThrew(r2);
      if (!crashed)
      {
         // the completeness of the log of a finished run
         auto g = globalise(rr, l);
         int n = int(g.steps.size());
         for (int r = 0; r < l.n; ++r)
         {
            auto need = [&](int k, const char *what)
            { SIM_CHECK(found[size_t(r)].count(k), "log-missing", "rank %d: %s of a run of %d steps is not in the log as step %d", r, what, n, k); };
            if (c.logI) { need(0, "the initial state"); }
            if (c.logE) { for (int k = 0; k < n; ++k) { need(k, "a state"); } }
            if (c.logF) { need(n, "the final state"); }
            auto at = [&](int k, const V &whole, double tt, const char *what)
            {
               const Cand &e = found[size_t(r)][k];
               V part(whole.begin() + l.off[size_t(r)], whole.begin() + l.off[size_t(r) + 1]);
               bool same = e.t == tt && dist(e.u, part) == 0;
               SIM_CHECK(same || part.empty(), "log-trajectory", "rank %d: step %d of the log is not %s (time %.17g, should be %.17g)", r, k, what, e.t, tt);
               SIM_CHECK(e.t == tt, "log-trajectory", "rank %d: step %d of the log has time %.17g instead of %.17g", r, k, e.t, tt);
            };
            if (c.logE) { for (int k = 0; k < n; ++k) { at(k, g.steps[size_t(k)].u, g.steps[size_t(k)].t, "the state at the start of that step"); } }
            if (c.logI && (n > 0 || !c.logF)) { at(0, g.init, cc.t0, "the initial state"); }
            if (c.logF) { at(n, g.fin, g.termT, "the final state"); }
         }
         checkRun(P, cc, g, u, false);
         break;
      }
      // restart from the newest entry that every rank can read
      int best = -1;
      for (int k = top; k >= 0 && best < 0; --k)
      {
         bool ok = true;
         for (int r = 0; r < l.n; ++r) { ok = ok && found[size_t(r)].count(k) && found[size_t(r)][k].t == found[0][k].t; }
         if (ok) { best = k; }
      }
      if (best >= 0 && c.logE && (attempts == 1))
      {
         t = found[0][best].t;
         u.clear();
         for (int r = 0; r < l.n; ++r) { auto &e = found[size_t(r)][best]; u.insert(u.end(), e.u.begin(), e.u.end()); }
         doneSteps += best;
         ++restarts;
         probe("restarts from the log");
         if (best > 0) { probe("restarts from a step after the first"); }
         if (!(t < c.tf - 1e-13) || (c.maxIter < 10000 && doneSteps >= c.maxIter)) { fin = u; finished = true; }
      }
      else if (attempts > 1) { /* run the same leg again */ }
   }
   // a run resumed from its log ends where the uninterrupted one does
   double growth = 1 + maxabs(ref.fin);
   if (!relax)
   {
      SIM_CHECK(dist(fin, ref.fin) <= 1e-8 * growth, "restart-differs", "%s: after %d crashes and %d restarts the final state differs from the uninterrupted one by %.3g", c.type.c_str(),
                crashes, restarts, dist(fin, ref.fin));
   }
   for (double x : fin) { hashD(x); }
   signature(uint64_t(P.N) * 1000 + uint64_t(l.n) * 100 + uint64_t(nref) * 4 + uint64_t(c.logKind));
   signature(uint64_t(c.logI) + 2 * uint64_t(c.logE) + 4 * uint64_t(c.logF) + 8 * uint64_t(crashes) + 64 * uint64_t(restarts) + 1000 * uint64_t(doneSteps));
   for (int o : l.off) { signature(uint64_t(o)); }
   if (!crashes && nref > 0) { nontrivial(); }
   describe(fmt("%s on %d ranks, %s log%s%s%s, %d steps, %d crashes, %d restarts, %d files damaged", c.type.c_str(), l.n, c.logKind ? "binary" : "text",
                c.logI ? " initial" : "", c.logE ? " each" : "", c.logF ? " final" : "", nref, crashes, restarts, damaged));
}
}  // namespace

void driverRun()
{
   std::string p = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "T01";
   written.clear();
   if (p == "T01") { runStepping(false); }
   else if (p == "T02") { runStepping(true); }
   else { runLog(); }
}
