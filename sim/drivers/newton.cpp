// SOURCES: common/linesearch.cpp common/relaxed_newton.cpp common/inexact_newton.cpp utils/utils.cpp
// N01 line search safeguards, N02 merit function, N03 Newton solvers in
// parallel and under failing evaluations.
#include <cmath>
#include <cstring>
#include <memory>
#include "mfem.hpp"
#include "linesearch.hpp"
#include "relaxed_newton.hpp"
#include "inexact_newton.hpp"
#include "sim.hpp"
using namespace sim;
using mfem::Vector;
const char *driverProperty() { return "newton"; }

namespace
{
struct EvalFailed : std::runtime_error { EvalFailed() : std::runtime_error("evaluation failed") {} };

// ------------------------------------------------------------------- N01
struct Objective
{
   int kind = 0;
   double phi0 = 1, d0 = -1, a = 0, b = 0, cut = 0, scale = 1;
   int faultAt = -1, faultKind = 0, second = -1;
   double eval(double x, int call) const
   {
      if (call == faultAt || call == second)
      {
         switch (faultKind)
         {
            case 0: return NAN;
            case 1: return INFINITY;
            case 2: return -NAN;
            case 3: throw EvalFailed();
            default: return 1e308;
         }
      }
      double v;
      switch (kind)
      {
         case 0: v = phi0 + d0 * x + a * x * x; break;
         case 1: v = phi0 + d0 * x + a * x * x + b * x * x * x; break;
         case 2: v = phi0 + std::fabs(d0) * x * a; break;                     // never decreases
         case 3: v = x > cut ? NAN : phi0 + d0 * x * 0.9; break;              // outside the domain
         case 4: v = x > cut ? INFINITY : phi0 + d0 * x * 0.9; break;
         case 5: v = phi0 * std::exp(a * x) + d0 * x; break;
         case 6: v = phi0 + d0 * x + a * std::fabs(std::sin(40 * x)); break;  // rough
         case 7: v = x > cut ? NAN : phi0 + (x > 0.3 * cut ? 1 : -0.5) * std::fabs(d0) * x; break;
         case 8: v = NAN; break;
         default: v = phi0 + d0 * x + a * std::sqrt(x); break;
      }
      return v;
   }
};
struct Trial { double alpha, phi; };

/// minimiser of the interpolant, with the spread caused by rounding of its data
void refTrial(int order, int iter, double phi0, double dphi0, const std::vector<Trial> &t, double &lo, double &hi, bool &ok)
{
   double cancel = 0;
   auto quad = [&](long double p0, long double d, long double p, long double a) -> long double
   {
      long double A = (p - d * a - p0) / (a * a);
      return -d / (2 * A);
   };
   auto cubic = [&](long double p0, long double d, long double p1, long double a1, long double p2, long double a2) -> long double
   {
      long double den = a1 * a1 * a2 * a2 * (a2 - a1);
      long double A = (a1 * a1 * (p2 - p0 - d * a2) - a2 * a2 * (p1 - p0 - d * a1)) / den;
      long double B = (-a1 * a1 * a1 * (p2 - p0 - d * a2) + a2 * a2 * a2 * (p1 - p0 - d * a1)) / den;
      if (fabsl(A) < 1e-17L && fabsl(B) < 1e150L && fabsl(p1 - p0) < 1e100L) { return -d / (2 * B); }
      if (fabsl(A) < 1e-11L || fabsl(A) < 1e-9L * fabsl(B) || fabsl(A) > 1e100L) { return NAN; }
      long double D = B * B - 3 * A * d;
      if (D < 0) { return NAN; }
      if (B > 0) { cancel = std::max(cancel, double(1e-13L * B * B / fabsl(3 * A * d))); }
      return (-B + sqrtl(D)) / (3 * A);
   };
   size_t n = t.size();
   ok = true;
   lo = INFINITY;
   hi = -INFINITY;
   long double eps = 4e-15L;
   for (int s = 0; s < 9; ++s)
   {
      long double e0 = s == 1 ? eps : s == 2 ? -eps : 0, e1 = s == 3 ? eps : s == 4 ? -eps : 0,
                  e2 = s == 5 ? eps : s == 6 ? -eps : 0, ed = s == 7 ? eps : s == 8 ? -eps : 0;
      long double v;
      if (order == 2 || iter == 1) { v = quad(phi0 * (1 + e0), dphi0 * (1 + ed), t[n - 1].phi * (1 + e2), t[n - 1].alpha); }
      else
      {
         v = cubic(phi0 * (1 + e0), dphi0 * (1 + ed), t[n - 2].phi * (1 + e1), t[n - 2].alpha, t[n - 1].phi * (1 + e2), t[n - 1].alpha);
      }
      if (!std::isfinite(double(v))) { ok = false; return; }
      lo = std::min(lo, double(v));
      hi = std::max(hi, double(v));
   }
   double w = 20 * (hi - lo) + (1e-9 + cancel) * std::max(std::fabs(lo), std::fabs(hi));
   lo -= w;
   hi += w;
}

struct LSParams
{
   double mu = 1e-4, hi = 0.9, lo = 0.1;
   int order = 3, maxIter = 10;
};
LSParams genParams()
{
   LSParams p;
   if (gen(3))
   {
      static const double mus[] = {1e-4, 1e-3, 0.1, 0.3, 0.0};
      p.mu = mus[gen(5)];
      p.lo = genIn(0.02, 0.5);
      p.hi = genIn(std::max(0.5, p.lo), 0.98);
      p.order = genInt(2, 3);
      p.maxIter = genInt(0, 14);
   }
   return p;
}
template <class T> T applyParams(const LSParams &p)
{
   T l;
   l.mu = p.mu;
   l.rho_hi = p.hi;
   l.rho_lo = p.lo;
   l.interp_order = p.order;
   l.max_iter = p.maxIter;
   return l;
}
bool decreases(double phi, double phi0, double mu, double a, double d0, double slack)
{
   double t = phi0 + mu * a * d0;
   return phi <= t + slack * (std::fabs(phi0) + std::fabs(mu * a * d0));
}
/// everything the history of one search must satisfy
void checkSearch(const LSParams &p, double phi0, double d0, double a0, const std::vector<Trial> &t, double ret, bool threw)
{
   SIM_CHECK(!t.empty(), "ls-no-evaluation", "the search ended without evaluating the merit function");
   SIM_CHECK(t[0].alpha == a0, "ls-first-step", "the first step tried is %.17g instead of the initial step %.17g", t[0].alpha, a0);
   SIM_CHECK(int(t.size()) <= p.maxIter + 1, "ls-too-many", "%zu evaluations with an iteration limit of %d", t.size(), p.maxIter);
   for (size_t i = 1; i < t.size(); ++i)
   {
      double q = t[i].alpha / t[i - 1].alpha;
      SIM_CHECK(std::isfinite(t[i].alpha) && q >= p.lo * (1 - 1e-12) && q <= p.hi * (1 + 1e-12), "ls-safeguard",
                "step %zu is %.17g after %.17g: the ratio %.6g is outside [%g, %g]", i, t[i].alpha, t[i - 1].alpha, q, p.lo, p.hi);
      SIM_CHECK(!decreases(t[i - 1].phi, phi0, p.mu, t[i - 1].alpha, d0, -1e-13), "ls-continues",
                "the search went on after step %.17g with merit %.17g, which is a sufficient decrease from %.17g", t[i - 1].alpha,
                t[i - 1].phi, phi0);
      std::vector<Trial> h(t.begin(), t.begin() + long(i));
      double lo, hi;
      bool ok;
      refTrial(p.order, int(i), phi0, d0, h, lo, hi, ok);
      if (ok)
      {
         double a = t[i - 1].alpha;
         double l = std::max(std::min(lo, a * p.hi), a * p.lo), u = std::max(std::min(hi, a * p.hi), a * p.lo);
         SIM_CHECK(t[i].alpha >= l * (1 - 1e-9) && t[i].alpha <= u * (1 + 1e-9), "ls-interpolation",
                   "step %zu is %.17g, the safeguarded minimiser of the order-%d interpolant is in [%.17g, %.17g]", i, t[i].alpha,
                   (i == 1) ? 2 : p.order, l, u);
         probe("trial step compared with the interpolant");
      }
   }
   if (threw) { return; }
   SIM_CHECK(std::isfinite(ret), "ls-nonfinite", "the returned step is %g", ret);
   if (ret != 0.0)
   {
      SIM_CHECK(ret == t.back().alpha, "ls-returned-step", "the returned step %.17g is not the last one evaluated, %.17g", ret, t.back().alpha);
      SIM_CHECK(std::isfinite(t.back().phi) && decreases(t.back().phi, phi0, p.mu, ret, d0, 1e-13), "ls-no-decrease",
                "the returned step %.17g has merit %.17g: no sufficient decrease from %.17g (slope %.17g)", ret, t.back().phi, phi0, d0);
      probe("search succeeds");
   }
   else
   {
      SIM_CHECK(int(t.size()) == p.maxIter + 1, "ls-gives-up-early", "the search gave up after %zu evaluations with an iteration limit of %d",
                t.size(), p.maxIter);
      SIM_CHECK(!decreases(t.back().phi, phi0, p.mu, t.back().alpha, d0, -1e-13), "ls-gives-up-early",
                "the search gave up although its last step %.17g is a sufficient decrease", t.back().alpha);
      probe("search gives up");
   }
}
void runLineSearch()
{
   LSParams p = genParams();
   auto ls = applyParams<miso::BacktrackingLineSearch>(p);
   int searches = genInt(1, 4);
   for (int s = 0; s < searches; ++s)
   {
      Objective f;
      f.scale = std::pow(10.0, genInt(-12, 12));
      f.kind = int(gen(10));
      f.phi0 = genIn(0.1, 10) * f.scale;
      f.d0 = -genIn(0.01, 2) * f.phi0;
      static const double as[] = {0.1, 0.5, 1, 3, 30, 1000};
      f.a = as[gen(6)] * genIn(0.3, 1.5) * f.phi0;
      if (f.kind == 5) { f.a = genIn(0.1, 30); }
      f.b = genIn(-2, 6) * f.phi0;
      double a0 = gen(3) ? 1.0 : genIn(0.05, 4);
      f.cut = a0 * std::pow(10.0, -genIn(0, 3));
      if (fault(2))
      {
         f.faultAt = int(fault(uint32_t(p.maxIter + 2)));
         f.faultKind = int(fault(5));
         if (fault(3) == 2) { f.second = int(fault(uint32_t(p.maxIter + 2))); }
      }
      std::vector<Trial> first;
      double firstRet = 0;
      for (int rep = 0; rep < 2; ++rep)
      {
         std::vector<Trial> t;
         int call = 0;
         bool threw = false;
         double ret = 0;
         try
         {
            miso::LineSearch &l = ls;
            ret = l.search([&](double a)
            {
               SIM_CHECK(call <= 10000, "ls-endless", "more than 10000 evaluations");
               int c = call++;
               t.push_back({a, NAN});
               if (c == f.faultAt || c == f.second)
               {
                  static const char *names[] = {"evaluation returns NaN", "evaluation returns Inf", "evaluation returns -NaN",
                                                "evaluation throws", "evaluation overflows"};
                  countFault(names[f.faultKind]);
               }
               t.back().phi = f.eval(a, c);
               return t.back().phi;
            }, f.phi0, f.d0, a0);
         }
         catch (const EvalFailed &) { threw = true; }
         bool thrower = f.faultKind == 3 && ((f.faultAt >= 0 && f.faultAt < call) || (f.second >= 0 && f.second < call));
         SIM_CHECK(threw == thrower, "ls-swallows", "an exception of the merit function did not reach the caller");
         checkSearch(p, f.phi0, f.d0, a0, t, ret, threw);
         if (rep == 0) { first = t; firstRet = ret; }
         else
         {
            bool eq = t.size() == first.size() && ret == firstRet;
            for (size_t i = 0; eq && i < t.size(); ++i) { eq = t[i].alpha == first[i].alpha; }
            SIM_CHECK(eq, "ls-history", "the same search on the same object took different steps the second time");
         }
      }
      for (auto &t : first) { hashD(t.alpha); hashD(t.phi); }
      signature(first.size() * 100 + uint64_t(f.kind) * 10 + uint64_t(f.faultAt + 1) + uint64_t(f.faultKind) * 1000 + (firstRet != 0));
      if (first.size() > 1) { nontrivial(); }
      describe(fmt("objective %d, fault %d at evaluation %d, %zu evaluations, step %g; ", f.kind, f.faultKind, f.faultAt, first.size(), firstRet));
   }
}

// ------------------------------------------------ distributed nonlinear system
struct Problem
{
   int N = 1;
   std::vector<double> K;   // dense coupling
   std::vector<double> c, rhs;
   int nl = 0;              // nonlinearity
   double dom = 1e300;      // the residual cannot be evaluated for |x_i| > dom
   int badRow = -1;         // ... and only this row shows it (-1: the row itself)
   int badKind = 0;
   std::vector<double> eval(const std::vector<double> &x) const
   {
      std::vector<double> r(static_cast<size_t>(N));
      bool out = false;
      for (int i = 0; i < N; ++i)
      {
         double s = -rhs[size_t(i)];
         for (int j = 0; j < N; ++j) { s += K[size_t(i * N + j)] * x[size_t(j)]; }
         r[size_t(i)] = s + g(i, x[size_t(i)]);
         if (!(std::fabs(x[size_t(i)]) <= dom))
         {
            out = true;
            if (badRow < 0) { r[size_t(i)] = badKind ? INFINITY : NAN; }
         }
      }
      if (out && badRow >= 0) { r[size_t(badRow)] = badKind ? INFINITY : NAN; }
      return r;
   }
   double g(int i, double x) const
   {
      double k = c[size_t(i)];
      switch (nl)
      {
         case 0: return k * x * x * x;
         case 1: return k * std::atan(5 * x);
         case 2: return k * (std::exp(std::min(x, 50.0)) - 1);
         default: return 0.0;
      }
   }
   double dg(int i, double x) const
   {
      double k = c[size_t(i)];
      switch (nl)
      {
         case 0: return 3 * k * x * x;
         case 1: return k * 5 / (1 + 25 * x * x);
         case 2: return x < 50 ? k * std::exp(x) : 0;
         default: return 0.0;
      }
   }
};
struct Layout
{
   int n = 1;
   std::vector<int> off;  // n + 1 offsets
};
Problem genProblem()
{
   Problem p;
   p.N = genInt(1, 10);
   size_t N = size_t(p.N);
   p.K.assign(N * N, 0.0);
   for (size_t i = 0; i < N; ++i)
   {
      double rs = 0;
      for (size_t j = 0; j < i; ++j)
      {
         double v = gen(3) ? genIn(-1, 1) : 0.0;
         p.K[i * N + j] = p.K[j * N + i] = v;
      }
      (void)rs;
   }
   for (size_t i = 0; i < N; ++i)
   {
      double rs = 0;
      for (size_t j = 0; j < N; ++j) { if (j != i) { rs += std::fabs(p.K[i * N + j]); } }
      p.K[i * N + i] = rs + genIn(0.2, 2);   // diagonally dominant: one root
   }
   p.nl = int(gen(4));
   for (size_t i = 0; i < N; ++i)
   {
      p.c.push_back(genIn(0.1, 10));
      p.rhs.push_back(genIn(-4, 4));
   }
   return p;
}
Layout genLayout(int N)
{
   Layout l;
   l.n = genInt(1, 4);
   std::vector<int> cut;
   for (int i = 0; i + 1 < l.n; ++i) { cut.push_back(int(gen(uint32_t(N + 1)))); }
   std::sort(cut.begin(), cut.end());
   l.off.push_back(0);
   for (int c : cut) { l.off.push_back(c); }
   l.off.push_back(N);
   return l;
}
std::vector<double> gather(const Vector &x, const Layout &l)
{
   std::vector<int> cnt, dis;
   for (int i = 0; i < l.n; ++i) { cnt.push_back(l.off[size_t(i) + 1] - l.off[size_t(i)]); dis.push_back(l.off[size_t(i)]); }
   std::vector<double> g(size_t(l.off.back()));
   MPI_Allgatherv(x.GetData(), x.Size(), MPI_DOUBLE, g.data(), cnt.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
   return g;
}
class JacOp : public mfem::Operator
{
public:
   const Problem *p;
   const Layout *l;
   std::vector<double> at;
   JacOp(const Problem &p_, const Layout &l_, int s) : Operator(s), p(&p_), l(&l_) {}
   void Mult(const Vector &x, Vector &y) const override
   {
      auto g = gather(x, *l);
      int o = l->off[size_t(rank())];
      for (int i = 0; i < Height(); ++i)
      {
         double s = p->dg(o + i, at[size_t(o + i)]) * g[size_t(o + i)];
         for (int j = 0; j < p->N; ++j) { s += p->K[size_t((o + i) * p->N + j)] * g[size_t(j)]; }
         y(i) = s;
      }
   }
};
struct Ev { char what; std::vector<double> x; };  // E residual evaluated, G linearised, D direction solved
struct Rec { std::vector<std::vector<double>> accepted; std::vector<Ev> ev; int evals = 0; };
class ResOp : public mfem::Operator
{
public:
   const Problem *p;
   const Layout *l;
   mutable JacOp J;
   mutable Rec rec;
   ResOp(const Problem &p_, const Layout &l_) : Operator(l_.off[size_t(rank()) + 1] - l_.off[size_t(rank())]), p(&p_), l(&l_), J(p_, l_, Height()) {}
   void Mult(const Vector &x, Vector &y) const override
   {
      SIM_CHECK(++rec.evals < 20000, "newton-endless", "more than 20000 residual evaluations");
      auto g = gather(x, *l);
      rec.ev.push_back({'E', g});
      auto r = p->eval(g);
      int o = l->off[size_t(rank())];
      for (int i = 0; i < Height(); ++i) { y(i) = r[size_t(o + i)]; }
      bool out = false;
      for (double v : g) { out = out || !(std::fabs(v) <= p->dom); }
      if (out && rank() == 0) { countFault(p->badKind ? "residual Inf on one rank" : "residual NaN on one rank"); }
   }
   mfem::Operator &GetGradient(const Vector &x) const override
   {
      J.at = gather(x, *l);
      rec.accepted.push_back(J.at);
      rec.ev.push_back({'G', J.at});
      return J;
   }
};
/// linear solver; its quality is part of the environment
class Lin : public mfem::Solver
{
public:
   const Problem *p;
   const Layout *l;
   const JacOp *J = nullptr;
   double err;      // relative error of the direction
   int badAt, badKind;
   mutable int calls = 0;
   const ResOp *log = nullptr;
   Lin(const Problem &p_, const Layout &l_, double e, int ba, int bk)
    : Solver(l_.off[size_t(rank()) + 1] - l_.off[size_t(rank())], true), p(&p_), l(&l_), err(e), badAt(ba), badKind(bk) {}
   void SetOperator(const mfem::Operator &op) override { J = dynamic_cast<const JacOp *>(&op); }
   void Mult(const Vector &b, Vector &x) const override
   {
      auto g = gather(b, *l);
      int N = p->N;
      // dense Gaussian elimination, the same on every rank
      std::vector<double> A(p->K);
      for (int i = 0; i < N; ++i) { A[size_t(i * N + i)] += p->dg(i, J->at[size_t(i)]); }
      for (int k = 0; k < N; ++k)
      {
         for (int i = k + 1; i < N; ++i)
         {
            double f = A[size_t(i * N + k)] / A[size_t(k * N + k)];
            for (int j = k; j < N; ++j) { A[size_t(i * N + j)] -= f * A[size_t(k * N + j)]; }
            g[size_t(i)] -= f * g[size_t(k)];
         }
      }
      for (int i = N - 1; i >= 0; --i)
      {
         for (int j = i + 1; j < N; ++j) { g[size_t(i)] -= A[size_t(i * N + j)] * g[size_t(j)]; }
         g[size_t(i)] /= A[size_t(i * N + i)];
      }
      int c = calls++;
      int o = l->off[size_t(rank())];
      // told to start from the given vector, an iterative solver keeps a part of it
      Vector x0;
      if (iterative_mode && x.Size() == Height()) { x0 = x; }
      SIM_CHECK(x.Size() == Height(), "newton-direction", "the linear solver is handed a vector of %d entries for a solution of %d", x.Size(), Height());
      for (int i = 0; i < Height(); ++i)
      {
         double s = 1.0 + err * std::sin(1.7 * (o + i) + c);
         if (c == badAt) { s = badKind == 0 ? 0.0 : badKind == 1 ? 1e6 : badKind == 2 ? -1.0 : 40.0; }
         x(i) = g[size_t(o + i)] * s;
         if (x0.Size()) { x(i) += 0.3 * x0(i); }
      }
      if (log) { log->rec.ev.push_back({'D', gather(x, *l)}); }
      if (c == badAt && rank() == 0)
      {
         static const char *nm[] = {"linear solver returns zero", "linear solver overshoots by 1e6", "linear solver returns an ascent direction", "linear solver overshoots"};
         countFault(nm[badKind]);
      }
   }
};
double nrm(const std::vector<double> &r)
{
   double s = 0;
   for (double v : r) { s += v * v; }
   return std::sqrt(s);
}

// ------------------------------------------------------------------- N02
void runMerit()
{
   Problem p = genProblem();
   Layout l = genLayout(p.N);
   if (gen(3) == 2) { p.dom = genIn(0.5, 3); p.badRow = int(gen(uint32_t(p.N))); p.badKind = int(gen(2)); }
   std::vector<double> x, c;
   for (int i = 0; i < p.N; ++i) { x.push_back(genIn(-0.4, 0.4)); c.push_back(genIn(-2, 2)); }
   int nev = genInt(1, 6);
   std::vector<double> al;
   for (int i = 0; i < nev; ++i) { al.push_back(gen(4) == 0 ? 0.0 : gen(4) == 0 && i ? al[size_t(i) - 1] : genIn(-1, 2)); }
   auto r0 = p.eval(x);
   double phi0 = nrm(r0), d0 = 0;
   for (int i = 0; i < p.N; ++i)
   {
      double s = p.dg(i, x[size_t(i)]) * c[size_t(i)];
      for (int j = 0; j < p.N; ++j) { s += p.K[size_t(i * p.N + j)] * c[size_t(j)]; }
      d0 -= s * r0[size_t(i)];
   }
   d0 /= phi0;
   std::vector<std::vector<double>> got(size_t(l.n), std::vector<double>(size_t(nev) + 2));
   bool viaDefault = l.n == 1 && gen(2);
   JobConfig jc;
   jc.nranks = l.n;
   auto res = runJob(jc, [&](int r)
   {
      ResOp F(p, l);
      int o = l.off[size_t(r)], n = F.Height();
      Vector X(n), C(n), R(n);
      for (int i = 0; i < n; ++i) { X(i) = x[size_t(o + i)]; C(i) = c[size_t(o + i)]; }
      F.Mult(X, R);
      mfem::Operator &J = F.GetGradient(X);
      auto cr = [&](const Vector &a, Vector &b) { F.Mult(a, b); };
      std::unique_ptr<miso::Phi> ph;
      if (viaDefault) { ph = std::make_unique<miso::Phi>(cr, X, C, R, J); }
      else { ph = std::make_unique<miso::Phi>(cr, X, C, R, J, MPI_COMM_WORLD); }
      got[size_t(r)][0] = ph->phi0;
      got[size_t(r)][1] = ph->dphi0;
      for (int k = 0; k < nev; ++k)
      {
         got[size_t(r)][size_t(k) + 2] = (*ph)(al[size_t(k)]);
         SIM_CHECK(ph->phi0 == got[size_t(r)][0] && ph->dphi0 == got[size_t(r)][1], "merit-constants", "phi(0) or its slope changed after an evaluation");
      }
      for (int i = 0; i < n; ++i)
      {
         SIM_CHECK(X(i) == x[size_t(o + i)] && C(i) == c[size_t(o + i)], "merit-modifies", "evaluating the merit function changed the state or the direction");
      }
   });
   for (auto &t : res.threw) { SIM_CHECK(t.empty(), "unexpected-exception", "%s", t.c_str()); }
   double scale = phi0;
   for (int r = 0; r < l.n; ++r)
   {
      auto &g = got[size_t(r)];
      for (size_t k = 0; k < g.size(); ++k)
      {
         SIM_CHECK(memcmp(&g[k], &got[0][k], sizeof(double)) == 0 || (g[k] != g[k] && got[0][k] != got[0][k]), "merit-ranks-disagree",
                   "rank %d has %.17g where rank 0 has %.17g (value %zu)", r, g[k], got[0][k], k);
      }
      SIM_CHECK(std::fabs(g[0] - phi0) <= 1e-11 * scale, "merit-phi0", "phi(0) is %.17g, the norm of the residual is %.17g", g[0], phi0);
      double dsc = 0;
      for (int i = 0; i < p.N; ++i) { dsc += (std::fabs(p.K[size_t(i * p.N + i)]) * 4 + std::fabs(p.dg(i, x[size_t(i)]))) * std::fabs(c[size_t(i)]); }
      SIM_CHECK(std::fabs(g[1] - d0) <= 1e-10 * (dsc + 1e-30) + 1e-12 * std::fabs(d0), "merit-slope", "the slope is %.17g instead of %.17g", g[1], d0);
      for (int k = 0; k < nev; ++k)
      {
         std::vector<double> xn(x);
         double big = 0;
         for (int i = 0; i < p.N; ++i) { xn[size_t(i)] -= al[size_t(k)] * c[size_t(i)]; big = std::max(big, std::fabs(std::fabs(xn[size_t(i)]) - p.dom)); }
         double e = nrm(p.eval(xn)), v = g[size_t(k) + 2];
         bool same = (!std::isfinite(e) && !std::isfinite(v)) || std::fabs(v - e) <= 1e-11 * (1 + e);
         SIM_CHECK(same, "merit-value", "phi(%.17g) is %.17g, the norm of the residual there is %.17g", al[size_t(k)], v, e);
         hashD(v);
      }
   }
   signature(uint64_t(p.N) * 1000 + uint64_t(l.n) * 100 + uint64_t(p.nl) * 10 + uint64_t(nev));
   for (int o : l.off) { signature(uint64_t(o)); }
   if (l.n > 1) { nontrivial(); }
   describe(fmt("%d unknowns on %d ranks, nonlinearity %d, %d evaluations", p.N, l.n, p.nl, nev));
}

// ------------------------------------------------------------------- N03
struct Out
{
   int conv = 0, iters = 0;
   double norm = 0;
   std::vector<double> x;
   std::vector<std::vector<double>> accepted;
   std::vector<Ev> ev;
   std::string err;
};
struct Setup
{
   bool inexact = false, useB = false, iterative = true;
   LSParams ls;
   double rel = 1e-8, abst = 1e-10, err = 0;
   int maxIter = 40, badAt = -1, badKind = 0, solves = 1;
   std::vector<double> b;
   std::vector<std::vector<double>> x0;
   bool viaOptions = false;
};
std::vector<std::vector<Out>> solveAll(const Problem &p, const Layout &l, const Setup &s, bool plain)
{
   std::vector<std::vector<Out>> out(size_t(l.n), std::vector<Out>(size_t(s.solves)));
   JobConfig jc;
   jc.nranks = l.n;
   jc.plain = plain;
   auto res = runJob(jc, [&](int r)
   {
      ResOp F(p, l);
      int o = l.off[size_t(r)], n = F.Height();
      Lin lin(p, l, s.err, s.badAt, s.badKind);
      lin.log = &F;
      std::unique_ptr<mfem::NewtonSolver> N;
      if (s.inexact) { N = std::make_unique<mfem::InexactNewton>(MPI_COMM_WORLD, 1e-4, 1e-1, 1e-4); }
      else
      {
         nlohmann::json opt;
         if (s.viaOptions)
         {
            opt["linesearch"] = {{"type", "backtracking"}, {"mu", s.ls.mu}, {"rhohi", s.ls.hi}, {"rholo", s.ls.lo},
                                 {"interp-order", s.ls.order}, {"maxiter", s.ls.maxIter}};
         }
         N = std::make_unique<miso::RelaxedNewton>(MPI_COMM_WORLD, opt);
      }
      N->iterative_mode = s.iterative;
      N->SetPrintLevel(-1);
      N->SetMaxIter(s.maxIter);
      N->SetRelTol(s.rel);
      N->SetAbsTol(s.abst);
      N->SetSolver(lin);
      N->SetOperator(F);
      for (int k = 0; k < s.solves; ++k)
      {
         Out &q = out[size_t(r)][size_t(k)];
         Vector b, x(n);
         if (s.useB) { b.SetSize(n); for (int i = 0; i < n; ++i) { b(i) = s.b[size_t(o + i)]; } }
         for (int i = 0; i < n; ++i) { x(i) = s.x0[size_t(k)][size_t(o + i)]; }
         lin.calls = 0;
         F.rec = Rec();
         try { N->Mult(b, x); }
         catch (const std::exception &e) { q.err = e.what(); }
         q.conv = N->GetConverged();
         q.iters = N->GetNumIterations();
         q.norm = N->GetFinalNorm();
         q.accepted = F.rec.accepted;
         q.ev = F.rec.ev;
         // every rank must still be able to take part in a collective
         q.x = gather(x, l);
         for (int i = 0; i < b.Size(); ++i) { SIM_CHECK(b(i) == s.b[size_t(o + i)], "newton-modifies-b", "the solve changed the right-hand side"); }
      }
   });
   for (auto &t : res.threw) { SIM_CHECK(t.empty(), "unexpected-exception", "%s", t.c_str()); }
   return out;
}
double resNorm(const Problem &p, const Setup &s, const std::vector<double> &x)
{
   auto r = p.eval(x);
   if (s.useB) { for (size_t i = 0; i < r.size(); ++i) { r[i] -= s.b[i]; } }
   return nrm(r);
}
/// the globalisation of every step: shortening the full step within the
/// safeguards, until the norm has decreased sufficiently
void checkSteps(const Problem &p, const Setup &s, const Out &a)
{
   size_t n = a.ev.size();
   auto eval = [&](const std::vector<double> &x) { auto r = p.eval(x); if (s.useB) { for (size_t i = 0; i < r.size(); ++i) { r[i] -= s.b[i]; } } return r; };
   double n0 = n ? nrm(eval(a.ev[0].x)) : 0;
   for (size_t i = 0; i < n; ++i)
   {
      if (a.ev[i].what != 'D') { continue; }
      size_t q = i;
      while (q > 0 && a.ev[q].what != 'G') { --q; }
      if (a.ev[q].what != 'G') { continue; }
      const auto &x = a.ev[q].x, &c = a.ev[i].x;
      std::vector<std::vector<double>> tr;
      bool next = false;
      size_t e = i + 1;
      for (; e < n && a.ev[e].what == 'E'; ++e) { tr.push_back(a.ev[e].x); }
      next = e < n;
      // the last evaluation of a step that was taken is that of the new state
      auto r0 = eval(x);
      double f0 = nrm(r0), d0 = 0, cm = 0, xm = 0;
      size_t im = 0;
      for (size_t k = 0; k < c.size(); ++k)
      {
         double t = p.dg(int(k), x[k]) * c[k];
         for (size_t j = 0; j < c.size(); ++j) { t += p.K[k * c.size() + j] * c[j]; }
         d0 -= t * r0[k];
         if (std::fabs(c[k]) > cm) { cm = std::fabs(c[k]); im = k; }
         xm = std::max(xm, std::fabs(x[k]));
      }
      d0 /= f0;
      if (tr.empty() || cm < 1e-7 * (1 + xm) || !std::isfinite(d0) || d0 > 0) { continue; }
      std::vector<double> al, f;
      for (auto &t : tr) { al.push_back((x[im] - t[im]) / c[im]); f.push_back(nrm(eval(t))); }
      double err = 1e-13 * (1 + xm) / cm + 1e-13;
      bool taken = tr.size() > 1 && tr[tr.size() - 1] == tr[tr.size() - 2];
      SIM_CHECK(!next || taken, "newton-step", "the step taken (%.17g of the direction) is not the last one tried (%.17g)", al.back(), tr.size() > 1 ? al[al.size() - 2] : 0.0);
      if (taken) { al.pop_back(); f.pop_back(); }
      SIM_CHECK(std::fabs(al[0] - 1) <= err, "newton-step", "the first trial is %.17g of the full step", al[0]);
      double lo = s.inexact ? 0.1 : s.viaOptions ? s.ls.lo : 0.1, hi = s.inexact ? 0.5 : s.viaOptions ? s.ls.hi : 0.9;
      double mu = s.viaOptions ? s.ls.mu : 1e-4;
      int lim = s.inexact ? s.maxIter + 1 : s.viaOptions ? s.ls.maxIter : -1;
      double theta = 0, tol = 1e-11 * f0 + 1e-14 * n0;
      for (size_t k = 0; k < al.size(); ++k)
      {
         if (k)
         {
            theta = al[k] / al[k - 1];
            double er = 3 * err / al[k - 1];
            if (er > 1e-3) { return; }
            if (s.inexact || s.viaOptions)
            {
               SIM_CHECK(theta >= lo - er && theta <= hi + er, "newton-safeguard", "trial %zu is %.17g of the one before, outside [%g, %g]", k, theta, lo, hi);
               if (!s.inexact && er < 1e-6)
               {
                  std::vector<Trial> h;
                  for (size_t j = 0; j < k; ++j) { h.push_back({al[j], f[j]}); }
                  double l, u;
                  bool ok;
                  refTrial(s.ls.order, int(k), f0, d0, h, l, u, ok);
                  double a1 = al[k - 1], w = 500 * (u - l) + 1e-6 * a1 + er * a1;
                  if (ok && u - l < 1e-6 * a1)
                  {
                     l = std::max(std::min(l - w, a1 * hi), a1 * lo);
                     u = std::max(std::min(u + w, a1 * hi), a1 * lo);
                     SIM_CHECK(al[k] >= l - er * a1 && al[k] <= u + er * a1, "newton-interpolation", "trial %zu is %.17g, the safeguarded minimiser of the order-%d interpolant is in [%.17g, %.17g]", k, al[k], k == 1 ? 2 : s.ls.order, l, u);
                     if (k > 1 && l > a1 * lo * 1.001 && u < a1 * hi * 0.999) { probe("step interpolated"); }
                  }
               }
            }
            else { SIM_CHECK(theta > 0 && theta < 1, "newton-safeguard", "trial %zu is %.17g of the one before", k, theta); }
         }
         double goal = s.inexact ? (1 - 1e-4 * (1 - theta)) * f0 : f0 + mu * al[k] * d0;
         bool last = k + 1 == al.size();
         if (last && taken) { SIM_CHECK(f[k] <= goal + tol, "newton-decrease", "a step of %.17g was taken, norm %.17g -> %.17g, required was %.17g", al[k], f0, f[k], goal); }
         if (!last && (s.inexact || s.viaOptions)) { SIM_CHECK(!(f[k] < goal - tol), "newton-decrease", "the search went on after a step of %.17g, norm %.17g -> %.17g, required was %.17g", al[k], f0, f[k], goal); }
         if (!last) { probe("steps shortened"); }
      }
      if (lim >= 0)
      {
         SIM_CHECK(int(al.size()) <= lim + 1, "newton-search-limit", "%zu trials with a limit of %d", al.size(), lim);
         if (!taken) { SIM_CHECK(int(al.size()) == lim + 1, "newton-search-limit", "the search gave up after %zu trials with a limit of %d", al.size(), lim); }
      }
   }
}
void runNewton()
{
   Problem p = genProblem();
   Layout l = genLayout(p.N);
   Setup s;
   s.inexact = gen(3) == 2;
   s.useB = gen(2);
   s.iterative = gen(4) > 0;
   if (gen(2))
   {
      s.viaOptions = true;
      s.ls.mu = gen(2) ? 1e-4 : 1e-2;
      s.ls.lo = genIn(0.05, 0.4);
      s.ls.hi = genIn(0.5, 0.95);
      s.ls.order = genInt(2, 3);
      s.ls.maxIter = genInt(5, 14);
   }
   s.err = gen(2) ? 0.0 : genIn(0.0, 0.3);
   s.maxIter = gen(6) == 5 ? genInt(0, 3) : 60;
   s.solves = genInt(1, 3);
   for (int i = 0; i < p.N; ++i) { s.b.push_back(genIn(-1, 1)); }
   double x0max = 0;
   for (int k = 0; k < s.solves; ++k)
   {
      std::vector<double> x;
      double sc = gen(2) ? 1 : 5;
      for (int i = 0; i < p.N; ++i) { x.push_back(genIn(-sc, sc)); x0max = std::max(x0max, std::fabs(x.back())); }
      s.x0.push_back(x);
   }
   bool faulty = fault(2) == 1;
   if (faulty)
   {
      if (fault(2))
      {
         // the residual cannot be evaluated far from the start
         p.dom = x0max * (1.02 + 0.01 * fault(100)) + 0.3;
         p.badRow = fault(2) ? int(fault(uint32_t(p.N))) : -1;
         p.badKind = int(fault(2));
      }
      if (fault(2)) { s.badAt = int(fault(4)); s.badKind = int(fault(4)); }
   }
   auto got = solveAll(p, l, s, false);
   Layout one;
   one.n = 1;
   one.off = {0, p.N};
   auto ref = solveAll(p, one, s, true);
   for (int k = 0; k < s.solves; ++k)
   {
      const Out &a = got[0][size_t(k)], &f = ref[0][size_t(k)];
      for (int r = 1; r < l.n; ++r)
      {
         const Out &b = got[size_t(r)][size_t(k)];
         SIM_CHECK(a.conv == b.conv && a.iters == b.iters && (a.norm == b.norm || (a.norm != a.norm && b.norm != b.norm)) && a.err.empty() == b.err.empty(),
                   "newton-ranks-disagree", "rank 0: converged %d, %d iterations, norm %.17g %s; rank %d: converged %d, %d iterations, norm %.17g %s", a.conv,
                   a.iters, a.norm, a.err.c_str(), r, b.conv, b.iters, b.norm, b.err.c_str());
      }
      std::vector<double> start = s.iterative ? s.x0[size_t(k)] : std::vector<double>(size_t(p.N), 0.0);
      double n0 = resNorm(p, s, start);
      for (double v : a.x) { SIM_CHECK(std::isfinite(v), "newton-nonfinite", "the solve left a state that is not finite (residual norm %g at the start)", n0); }
      for (double v : a.x) { hashD(v); }
      double n1 = resNorm(p, s, a.x);
      bool ascent = s.badAt >= 0 && s.badKind == 2;
      if (a.err.empty())
      {
         SIM_CHECK(std::fabs(n1 - a.norm) <= 1e-9 * n0 + 1e-12, "newton-norm-wrong", "the reported final norm is %.17g, the residual at the returned state has norm %.17g",
                   a.norm, n1);
         double goal = std::max(s.rel * n0, s.abst);
         if (a.conv) { SIM_CHECK(n1 <= goal * (1 + 1e-6) + 1e-13 * n0, "newton-false-convergence", "convergence reported with residual norm %.17g above the goal %.17g", n1, goal); }
         else { SIM_CHECK(n1 > goal * (1 - 1e-6) - 1e-13 * n0, "newton-false-failure", "failure reported with residual norm %.17g below the goal %.17g", n1, goal); }
         SIM_CHECK(a.iters <= s.maxIter, "newton-iterations", "%d iterations with a limit of %d", a.iters, s.maxIter);
      }
      if (!ascent)
      {
         double prev = n0;
         for (size_t i = 1; i < a.accepted.size() + 1; ++i)
         {
            const auto &x = i < a.accepted.size() ? a.accepted[i] : a.x;
            if (i == a.accepted.size() && !a.err.empty()) { break; }
            double v = resNorm(p, s, x);
            SIM_CHECK(v <= prev * (1 + 1e-10) + 1e-13 * n0, "newton-not-monotone", "an accepted step raised the residual norm from %.17g to %.17g", prev, v);
            prev = v;
         }
      }
      checkSteps(p, s, a);
      if (!a.accepted.empty())
      {
         for (int i = 0; i < p.N; ++i) { SIM_CHECK(a.accepted[0][size_t(i)] == start[size_t(i)], "newton-start", "the solve did not start from the given state"); }
      }
      // the parallel run against the same solve on one rank
      if (a.err.empty() && f.err.empty() && a.conv && f.conv)
      {
         double dmax = 0, xm = 0;
         for (int i = 0; i < p.N; ++i) { dmax = std::max(dmax, std::fabs(a.x[size_t(i)] - f.x[size_t(i)])); xm = std::max(xm, std::fabs(f.x[size_t(i)])); }
         double goal = std::max(s.rel * n0, s.abst);
         SIM_CHECK(dmax <= 20 * goal + 1e-9 * (1 + xm), "newton-partition", "the solution on %d ranks differs from the one on one rank by %.3g", l.n, dmax);
         probe("solutions compared with one rank");
      }
      bool anyConv = a.conv || f.conv;
      if (anyConv && a.conv != f.conv)
      {
         const Out &c = a.conv ? a : f;
         SIM_CHECK(c.iters > s.maxIter - 4 || faulty, "newton-partition", "the solve %s on %d ranks but %s on one rank (%d and %d iterations)",
                   a.conv ? "converges" : "fails", l.n, f.conv ? "converges" : "fails", a.iters, f.iters);
      }
      if (a.conv) { probe("solve converges"); } else { probe("solve reports failure"); }
      if (!a.err.empty()) { probe("solve ends with an error on all ranks"); }
      signature(uint64_t(a.iters) * 16 + uint64_t(a.conv) + uint64_t(l.n) * 1000 + uint64_t(p.N) * 10000);
      signature(uint64_t(s.badAt + 1) * 8 + uint64_t(s.badKind) + (p.dom < 1e299 ? 100 : 0));
      if (l.n > 1 && a.iters > 0) { nontrivial(); }
      describe(fmt("%s, %d unknowns on %d ranks: converged %d after %d iterations, %d evaluations; ", s.inexact ? "inexact Newton" : "relaxed Newton", p.N, l.n,
                   a.conv, a.iters, 0));
   }
}
}  // namespace

void driverRun()
{
   std::string p = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "N03";
   if (p == "N01") { runLineSearch(); }
   else if (p == "N02") { runMerit(); }
   else { runNewton(); }
}
