// SOURCES: common/abstract_solver.cpp common/ode.cpp common/mfem_extensions.cpp common/matrix_operators.cpp common/relaxed_newton.cpp common/linesearch.cpp common/default_options.cpp physics/miso_input.cpp utils/utils.cpp
// O01 operators composed from others and from a residual, O02 linear solvers
// made from options, G01 scalar root finders
// (src/common/matrix_operators.cpp, mfem_extensions.cpp, src/utils/utils.cpp).
#include <cstring>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
#include "mfem.hpp"
#include "matrix_operators.hpp"
#include "mfem_extensions.hpp"
#include "miso_residual.hpp"
#include "femsim.hpp"
#include "simfs.hpp"
using namespace sim;
using mfem::Vector;
using mfem::HypreParMatrix;

const char *driverProperty() { return "algebra"; }

namespace
{
using V = std::vector<double>;
double maxabs(const V &a) { double m = 0; for (double x : a) { m = std::max(m, std::fabs(x)); } return m; }
double dist(const V &a, const V &b)
{
   if (a.size() != b.size()) { return INFINITY; }
   double m = 0;
   for (size_t i = 0; i < a.size(); ++i) { double d = std::fabs(a[i] - b[i]); if (!(d <= m)) { m = d; } }
   return m;
}
/// dense matrix of global size
struct Mat
{
   int m = 0, n = 0;
   V a;
   Mat() {}
   Mat(int m_, int n_) : m(m_), n(n_), a(size_t(m_) * size_t(n_), 0.0) {}
   double &operator()(int i, int j) { return a[size_t(i) * size_t(n) + size_t(j)]; }
   double operator()(int i, int j) const { return a[size_t(i) * size_t(n) + size_t(j)]; }
   V mult(const V &x) const
   {
      V y(size_t(m), 0.0);
      for (int i = 0; i < m; ++i) { long double s = 0; for (int j = 0; j < n; ++j) { s += (long double)(*this)(i, j) * x[size_t(j)]; } y[size_t(i)] = double(s); }
      return y;
   }
   V multT(const V &x) const
   {
      V y(size_t(n), 0.0);
      for (int j = 0; j < n; ++j) { long double s = 0; for (int i = 0; i < m; ++i) { s += (long double)(*this)(i, j) * x[size_t(i)]; } y[size_t(j)] = double(s); }
      return y;
   }
   double norm() const { double w = 0; for (int i = 0; i < m; ++i) { double s = 0; for (int j = 0; j < n; ++j) { s += std::fabs((*this)(i, j)); } w = std::max(w, s); } return w; }
};
Mat genMat(int m, int n)
{
   Mat A(m, n);
   for (double &x : A.a) { x = gen(4) == 0 ? 0.0 : genIn(-2, 2); }
   return A;
}
/// rows of one block owned by each rank
struct Part
{
   int N = 0;
   std::vector<int> off;
   int lo(int r) const { return off[size_t(r)]; }
   int len(int r) const { return off[size_t(r) + 1] - off[size_t(r)]; }
};
Part genPart(int N, int nr)
{
   Part p;
   p.N = N;
   p.off.push_back(0);
   for (int r = 1; r < nr; ++r) { p.off.push_back(genInt(0, N)); }
   p.off.push_back(N);
   std::sort(p.off.begin(), p.off.end());
   return p;
}
/// A space of several blocks; the local vector is the concatenation of the
/// local parts of the blocks, the global one of the global blocks
struct Space
{
   int nr = 1;
   std::vector<Part> b;
   int N() const { int s = 0; for (auto &p : b) { s += p.N; } return s; }
   int start(size_t k) const { int s = 0; for (size_t i = 0; i < k; ++i) { s += b[i].N; } return s; }
   int len(int r) const { int s = 0; for (auto &p : b) { s += p.len(r); } return s; }
   /// global index of local entry i
   int global(int r, int i) const
   {
      int s = 0;
      for (auto &p : b)
      {
         if (i < p.len(r)) { return s + p.lo(r) + i; }
         i -= p.len(r);
         s += p.N;
      }
      return -1;
   }
   V local(const V &g, int r) const { V x; for (int i = 0; i < len(r); ++i) { x.push_back(g[size_t(global(r, i))]); } return x; }
   V gather(const double *x) const
   {
      std::vector<int> cnt, dis;
      int s = 0;
      for (int r = 0; r < nr; ++r) { cnt.push_back(len(r)); dis.push_back(s); s += cnt.back(); }
      V all(static_cast<size_t>(s)), g(static_cast<size_t>(s));
      MPI_Allgatherv(x, len(sim::rank()), MPI_DOUBLE, all.data(), cnt.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
      for (int r = 0; r < nr; ++r) { for (int i = 0; i < cnt[size_t(r)]; ++i) { g[size_t(global(r, i))] = all[size_t(dis[size_t(r)] + i)]; } }
      return g;
   }
};
Space genSpace(int nr, int nb, int maxN)
{
   Space s;
   s.nr = nr;
   for (int k = 0; k < nb; ++k) { s.b.push_back(genPart(genInt(1, maxN), nr)); }
   return s;
}
std::unique_ptr<HypreParMatrix> distribute(const Mat &A, const Part &rp, const Part &cp)
{
   int r = sim::rank(), n = rp.len(r), lo = rp.lo(r);
   std::vector<int> I;
   std::vector<HYPRE_BigInt> J;
   V d;
   I.push_back(0);
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < A.n; ++j) { J.push_back(j); d.push_back(A(lo + i, j)); }
      I.push_back(int(J.size()));
   }
   HYPRE_BigInt rows[2] = {lo, lo + n}, cols[2] = {cp.lo(r), cp.lo(r) + cp.len(r)};
   return std::make_unique<HypreParMatrix>(MPI_COMM_WORLD, n, A.m, A.n, I.data(), J.data(), d.data(), rows, rp.off == cp.off ? rows : cols);
}
std::unique_ptr<mfem::DenseMatrix> dense(const Mat &A)
{
   auto D = std::make_unique<mfem::DenseMatrix>(A.m, A.n);
   for (int i = 0; i < A.m; ++i) { for (int j = 0; j < A.n; ++j) { (*D)(i, j) = A(i, j); } }
   return D;
}
Mat block(const Mat &A, const Space &s, size_t i, size_t j)
{
   Mat B(s.b[i].N, s.b[j].N);
   for (int a = 0; a < B.m; ++a) { for (int c = 0; c < B.n; ++c) { B(a, c) = A(s.start(i) + a, s.start(j) + c); } }
   return B;
}
Vector toVec(const V &x)
{
   Vector v(int(x.size()));
   for (int i = 0; i < v.Size(); ++i) { v(i) = x[size_t(i)]; }
   return v;
}
V fromVec(const Vector &v) { return V(v.GetData(), v.GetData() + v.Size()); }
/// what a caller's output vector may hold before the call
void soil(Vector &y, uint32_t how)
{
   for (int i = 0; i < y.Size(); ++i) { y(i) = how == 0 ? 0.0 : how == 1 ? 3.5 + i : how == 2 ? NAN : 1e300; }
}
double coef()
{
   switch (gen(8))
   {
   case 0: return 0.0;
   case 1: return 1.0;
   case 2: return -1.0;
   case 3: return genIn(0.9, 1.1);
   case 4: return 1.0 + 1e-9;
   case 5: return genIn(-1, 1) * 1e-8;
   case 6: return 0.0;
   default: return genIn(-3, 3);
   }
}
// ------------------------------------------------------------ the residual
// R(u)_i = sum_j A_ij u_j + nl (sin(u_i) + c_i u_i u_{i+1}) - b_i
struct System
{
   Space s;
   Mat A;
   V b, c;
   double nl = 0;
   V res(const V &u) const
   {
      V r = A.mult(u);
      int n = int(u.size());
      for (int i = 0; i < n; ++i) { r[size_t(i)] += nl * (std::sin(u[size_t(i)]) + c[size_t(i)] * u[size_t(i)] * u[size_t((i + 1) % n)]) - b[size_t(i)]; }
      return r;
   }
   Mat jac(const V &u) const
   {
      Mat J = A;
      int n = int(u.size());
      for (int i = 0; i < n; ++i)
      {
         J(i, i) += nl * (std::cos(u[size_t(i)]) + c[size_t(i)] * u[size_t((i + 1) % n)]);
         J(i, (i + 1) % n) += nl * c[size_t(i)] * u[size_t(i)];
      }
      return J;
   }
   /// bound of the second derivative of R along unit vectors
   double curv() const { return std::fabs(nl) * (1 + 2 * maxabs(c)) * 2; }
};
struct ToyResidual final
{
   const System *S;
   bool hypreBlocks = true, transposable = true;
   double p = 0;
   std::vector<std::unique_ptr<mfem::Operator>> J;
   int *evals;
   ToyResidual(const System &s, bool h, int *ev) : S(&s), hypreBlocks(h), J(s.s.b.size()), evals(ev) {}
   friend MPI_Comm getMPIComm(const ToyResidual &) { return MPI_COMM_WORLD; }
   friend int getSize(const ToyResidual &r) { return r.S->s.len(sim::rank()); }
   friend void setInputs(ToyResidual &, const miso::MISOInputs &) {}
   friend void setOptions(ToyResidual &, const nlohmann::json &) {}
   friend void evaluate(ToyResidual &r, const miso::MISOInputs &in, Vector &out)
   {
      ++*r.evals;
      Vector x;
      miso::setVectorFromInputs(in, "state", x, false, true);
      V g = r.S->s.local(r.S->res(r.S->s.gather(x.GetData())), sim::rank());
      out.SetSize(int(g.size()));
      for (int i = 0; i < out.Size(); ++i) { out(i) = g[size_t(i)]; }
   }
   friend mfem::Operator &getJacobian(ToyResidual &, const miso::MISOInputs &, const std::string &) { throw miso::MISOException("no explicit Jacobian\n"); }
   friend mfem::Operator &getJacobianBlock(ToyResidual &r, const miso::MISOInputs &in, int i)
   {
      Vector x;
      miso::setVectorFromInputs(in, "state", x, false, true);
      Mat B = block(r.S->jac(r.S->s.gather(x.GetData())), r.S->s, size_t(i), size_t(i));
      if (r.hypreBlocks) { r.J[size_t(i)] = distribute(B, r.S->s.b[size_t(i)], r.S->s.b[size_t(i)]); }
      else { r.J[size_t(i)] = dense(B); }
      return *r.J[size_t(i)];
   }
};
/// A "preconditioner" that multiplies by its operator, so that the operator it
/// was given can be checked
class Echo : public mfem::Solver
{
public:
   const mfem::Operator *op = nullptr;
   int sets = 0;
   double f;
   Echo(double f_) : mfem::Solver(0), f(f_) {}
   void SetOperator(const mfem::Operator &o) override { op = &o; ++sets; }
   void Mult(const Vector &x, Vector &y) const override { op->Mult(x, y); y *= f; }
   void MultTranspose(const Vector &x, Vector &y) const override { op->MultTranspose(x, y); y *= f; }
};
V genX(int n)
{
   V x(static_cast<size_t>(n));
   uint32_t k = gen(8);
   double sc = k == 0 ? 0.0 : k == 1 ? 1e-4 : k == 2 ? 1e3 : k == 3 ? 1e-2 : 1.0;
   for (double &e : x) { e = sc * genIn(-1, 1); }
   if (k == 4 && n) { std::fill(x.begin(), x.end(), 0.0); x[gen(uint32_t(n))] = 1.0; }
   return x;
}
struct Out { V y; };
struct Step
{
   int kind = 0, which = 0;
   double a = 0, b = 0;
   int op1 = 0, op2 = 0;
   V x;
   uint32_t soil = 0;
};
// ---------------------------------------------------- linear combinations
void runSum()
{
   int nr = genInt(1, 4);
   bool hyp = nr > 1 || gen(2);
   Space S;
   S.nr = nr;
   Part rp, cp;
   bool square = gen(2);
   int m = genInt(1, 6), n = square ? m : genInt(1, 6);
   cp = genPart(n, nr);
   rp = square ? cp : genPart(m, nr);
   if (!hyp) { rp.off = {0, m}; cp.off = {0, n}; }
   Space R;
   R.nr = nr;
   R.b = {rp};
   S.b = {cp};
   std::vector<Mat> A;
   for (int k = 0; k < 3; ++k) { A.push_back(genMat(m, n)); }
   // history: 0 = Add, 1 = Mult; the sum may itself contain a sum
   int ctor = int(gen(square ? 3 : 2)), steps = genInt(2, 8);
   bool nested = gen(4) == 0;
   double na = coef(), nb = coef();
   std::vector<Step> h;
   Step first;
   first.a = coef();
   first.b = coef();
   first.op1 = genInt(0, nested ? 3 : 2);
   first.op2 = genInt(0, nested ? 3 : 2);
   h.push_back(first);
   for (int k = 0; k < steps; ++k)
   {
      Step s;
      s.kind = gen(3) ? 1 : 0;
      if (s.kind == 0) { s.a = coef(); s.b = coef(); s.op1 = genInt(0, nested ? 3 : 2); s.op2 = genInt(0, nested ? 3 : 2); }
      else { s.x = genX(n); s.soil = gen(4); s.which = int(gen(3)); }
      h.push_back(s);
   }
   bool badAdd = gen(6) == 0;
   Mat odd = genMat(m + 1, n);
   // reference
   std::vector<V> want;
   {
      auto val = [&](int k, const V &x)
      {
         if (k < 3) { return A[size_t(k)].mult(x); }
         V p = A[0].mult(x), q = A[1].mult(x);
         for (size_t i = 0; i < p.size(); ++i) { p[i] = na * p[i] + nb * q[i]; }
         return p;
      };
      const Step *c = &h[0];
      for (auto &s : h)
      {
         if (s.kind == 0) { c = &s; continue; }
         V p = val(c->op1, s.x), q = val(c->op2, s.x);
         for (size_t i = 0; i < p.size(); ++i) { p[i] = c->a * p[i] + c->b * q[i]; }
         want.push_back(p);
      }
   }
   JobConfig jc;
   jc.nranks = nr;
   auto res = runJob(jc, [&](int r)
   {
      std::vector<std::unique_ptr<mfem::Operator>> O;
      for (auto &M : A) { if (hyp) { O.push_back(distribute(M, rp, cp)); } else { O.push_back(dense(M)); } }
      if (nested) { O.push_back(std::make_unique<miso::SumOfOperators>(na, *O[0], nb, *O[1])); }
      std::unique_ptr<miso::SumOfOperators> sum;
      int lm = rp.len(r), ln = cp.len(r);
      if (ctor == 0) { sum = std::make_unique<miso::SumOfOperators>(first.a, *O[size_t(first.op1)], first.b, *O[size_t(first.op2)]); }
      else
      {
         if (ctor == 1) { sum = std::make_unique<miso::SumOfOperators>(lm, ln); }
         else { sum = std::make_unique<miso::SumOfOperators>(lm); }
         sum->Add(first.a, *O[size_t(first.op1)], first.b, *O[size_t(first.op2)]);
      }
      SIM_CHECK(sum->Height() == lm && sum->Width() == ln, "size", "rank %d: the sum is %d by %d instead of %d by %d", r, sum->Height(), sum->Width(), lm, ln);
      size_t w = 0;
      const Step *c = &h[0];
      for (size_t k = 1; k < h.size(); ++k)
      {
         const Step &s = h[k];
         if (s.kind == 0) { sum->Add(s.a, *O[size_t(s.op1)], s.b, *O[size_t(s.op2)]); c = &s; continue; }
         Vector x = toVec(S.local(s.x, r)), y(lm);
         V x0 = fromVec(x);
         soil(y, s.soil);
         const mfem::Operator &op = *sum;
         op.Mult(x, y);
         SIM_CHECK(y.Size() == lm, "size", "rank %d: the product has %d entries instead of %d", r, y.Size(), lm);
         V g = R.gather(y.GetData());
         double sc = 0;
         for (auto &M : A) { sc = std::max(sc, M.norm()); }
         sc *= (1 + std::fabs(na) + std::fabs(nb)) * (std::fabs(c->a) + std::fabs(c->b)) * maxabs(s.x);
         double d = dist(g, want[w]);
         SIM_CHECK(d <= 1e-13 * sc + 1e-15 * maxabs(s.x) * 100, "sum", "%.10g * op%d + %.10g * op%d (%d by %d on %d ranks), product %zu of the history, output vector holding %s before: off by %.3g (scale %.3g)",
                   c->a, c->op1, c->b, c->op2, m, n, nr, w, s.soil == 2 ? "NaN" : s.soil == 0 ? "zeros" : "other numbers", d, sc);
         SIM_CHECK(fromVec(x) == x0, "input-modified", "the vector multiplied was modified");
         for (double e : g) { hashD(e); }
         ++w;
      }
      if (badAdd && !hyp)
      {
         auto D = dense(odd);
         bool threw = false;
         try { miso::SumOfOperators bad(1.0, *O[0], 1.0, *D); }
         catch (const std::exception &) { threw = true; }
         SIM_CHECK(threw, "mismatch", "a sum of operators of different heights was accepted");
         threw = false;
         try { sum->Add(1.0, *O[0], 1.0, *D); }
         catch (const std::exception &) { threw = true; }
         SIM_CHECK(threw, "mismatch", "Add accepted operators of different heights");
      }
   });
   femsim::checkThrew(res);
   if (!want.empty()) { nontrivial(); }
   probe("products of sums", long(want.size()));
   signature(uint64_t(m) * 1000 + uint64_t(n) * 100 + uint64_t(nr) * 10 + uint64_t(ctor) + (nested ? 7 : 0));
   for (auto &s : h) { signature(uint64_t(s.kind) * 100 + uint64_t(s.op1) * 10 + uint64_t(s.op2) + (s.a == 0) * 1000 + (s.b == 0) * 2000 + (s.a == 1) * 4000); }
   for (int o : rp.off) { signature(uint64_t(o)); }
   describe(fmt("sum of %s operators, %d by %d on %d ranks%s, %zu products", hyp ? "distributed" : "dense", m, n, nr, nested ? ", nested" : "", want.size()));
}
// -------------------------------------------------- Jacobian-free products
void runJacFree()
{
   int nr = genInt(1, 4), nb = genInt(1, 3);
   System S;
   S.s = genSpace(nr, nb, 4);
   int N = S.s.N();
   S.A = genMat(N, N);
   for (int i = 0; i < N; ++i) { S.A(i, i) += genIn(1, 4); }
   S.nl = gen(3) ? genIn(0.1, 1.0) : 0.0;
   for (int i = 0; i < N; ++i) { S.b.push_back(genIn(-1, 1)); S.c.push_back(genIn(-1, 1)); }
   int expl = int(gen(3));      // 0 none, 1 block operator (diagonal), 2 block operator (full)
   bool hypB = nr > 1 || gen(2);  // kind of diagonal blocks
   Mat E(N, N);
   std::vector<std::vector<Mat>> EB(static_cast<size_t>(nb));
   for (int i = 0; i < nb; ++i)
   {
      for (int j = 0; j < nb; ++j)
      {
         Mat B = genMat(S.s.b[size_t(i)].N, S.s.b[size_t(j)].N);
         if (i != j && expl == 1) { B = Mat(B.m, B.n); }
         EB[size_t(i)].push_back(B);
         for (int a = 0; a < B.m; ++a) { for (int c = 0; c < B.n; ++c) { E(S.s.start(size_t(i)) + a, S.s.start(size_t(j)) + c) = expl ? B(a, c) : 0.0; } }
      }
   }
   // 0 setScaling, 1 setState, 2 Mult, 3 getDiagonalBlock, 4 preconditioner SetOperator + Mult, 5 Mult of the preconditioner's transpose, 6 print
   std::vector<Step> h;
   int steps = genInt(3, 9);
   Step s0;
   s0.kind = 1;
   s0.x = genX(N);
   h.push_back(s0);
   for (int k = 0; k < steps; ++k)
   {
      Step s;
      uint32_t d = gen(12);
      s.kind = d < 2 ? 0 : d < 4 ? 1 : d < 8 ? 2 : d < 9 ? 3 : d < 10 ? 4 : d < 11 ? 5 : 6;
      s.a = gen(3) == 0 ? genIn(1e-3, 0.5) : coef();
      s.x = genX(N);
      s.soil = gen(4);
      s.which = int(gen(uint32_t(nb)));
      s.op1 = int(gen(2));
      h.push_back(s);
   }
   std::vector<bool> hasBlock;
   for (int k = 0; k < nb; ++k) { hasBlock.push_back(gen(4) > 0); }
   double fac[3] = {genIn(0.5, 2), genIn(0.5, 2), genIn(0.5, 2)};
   int products = 0;
   std::vector<int> evalCount(static_cast<size_t>(nr), 0);
   simfs::plan() = simfs::Plan();
   JobConfig jc;
   jc.nranks = nr;
   auto res = runJob(jc, [&](int r)
   {
      miso::MISOResidual resid(ToyResidual(S, hypB, &evalCount[size_t(r)]));
      mfem::Array<int> offs(nb + 1);
      offs[0] = 0;
      for (int k = 0; k < nb; ++k) { offs[k + 1] = offs[k] + S.s.b[size_t(k)].len(r); }
      std::vector<std::unique_ptr<mfem::Operator>> own;
      std::unique_ptr<mfem::BlockOperator> B;
      std::unique_ptr<miso::JacobianFree> jf;
      if (expl)
      {
         B = std::make_unique<mfem::BlockOperator>(offs);
         for (int i = 0; i < nb; ++i)
         {
            for (int j = 0; j < nb; ++j)
            {
               if (expl == 1 && i != j) { continue; }
               const Mat &M = EB[size_t(i)][size_t(j)];
               if (hypB) { own.push_back(distribute(M, S.s.b[size_t(i)], S.s.b[size_t(j)])); }
               else { own.push_back(dense(M)); }
               B->SetBlock(i, j, own.back().get());
            }
         }
         jf = std::make_unique<miso::JacobianFree>(resid, *B);
      }
      else { jf = std::make_unique<miso::JacobianFree>(resid); }
      miso::BlockJacobiPreconditioner prec(offs);
      std::vector<std::unique_ptr<Echo>> echo;
      for (int k = 0; k < nb; ++k)
      {
         echo.push_back(std::make_unique<Echo>(fac[k]));
         if (hasBlock[size_t(k)]) { prec.SetDiagonalBlock(k, echo.back().get()); }
      }
      double scale = 1.0;
      V u;
      Vector caller;
      for (auto &s : h)
      {
         if (s.kind == 0) { jf->setScaling(s.a); scale = s.a; }
         else if (s.kind == 1)
         {
            u = s.x;
            caller = toVec(S.s.local(u, r));
            if (s.op1) { jf->setState(caller); }
            else { jf->setState(miso::MISOInputs({{"state", caller}})); }
            SIM_CHECK(fromVec(caller) == S.s.local(u, r), "input-modified", "setState modified the state it was given");
            // the caller may go on to use its vector for something else
            if (s.soil == 1) { caller = 77.0; }
         }
         Mat T = S.jac(u);
         for (size_t i = 0; i < T.a.size(); ++i) { T.a[i] = scale * T.a[i] + E.a[i]; }
         if (s.kind == 2 || s.kind == 6)
         {
            double pn = 0;
            for (double e : s.x) { pn += e * e; }
            pn = std::sqrt(pn);
            double eps = pn * pn > 1e-6 ? 1e-5 / pn : 1e-7;
            auto tol = [&](double len, double e)
            {
               double round = 1e-14 * (maxabs(S.res(u)) + S.A.norm() * (maxabs(u) + e * len) + maxabs(S.b) + std::fabs(S.nl) * (2 + maxabs(u) * maxabs(u))) / e;
               return std::fabs(scale) * (10 * S.curv() * len * len * e + 10 * round) + 1e-13 * (E.norm() + std::fabs(scale) * S.A.norm()) * (len + 1e-3);
            };
            if (s.kind == 2)
            {
               Vector x = toVec(S.s.local(s.x, r)), y(x.Size());
               V x0 = fromVec(x);
               soil(y, s.soil);
               const mfem::Operator &op = *jf;
               op.Mult(x, y);
               V g = S.s.gather(y.GetData()), w = T.mult(s.x);
               double d = dist(g, w), t = tol(pn, eps);
               SIM_CHECK(d <= t, "jacobian-free", "%.10g * J%s applied to a vector of norm %.3g (%d unknowns in %d blocks on %d ranks, output vector holding %s before): off by %.3g, more than %.3g", scale, expl ? " + E" : "", pn, N,
                         nb, nr, s.soil == 2 ? "NaN" : s.soil == 0 ? "zeros" : "other numbers", d, t);
               SIM_CHECK(fromVec(x) == x0, "input-modified", "the vector multiplied was modified");
               for (double e : g) { hashD(e); }
               if (r == 0) { ++products; }
            }
            else if (nr == 1)
            {
               double un = 0;
               for (double e : u) { un += e * e; }
               un = std::sqrt(un);
               double e2 = un * un > 1e-6 ? 1e-5 / un : 1e-7;
               simfs::plan() = simfs::Plan();
               jf->print("matrix.dat");
               std::ifstream in("matrix.dat");
               std::string line;
               int rows = 0;
               while (std::getline(in, line))
               {
                  SIM_CHECK(rows < N, "print", "the matrix file has more than %d lines", N);
                  std::stringstream ls(line);
                  std::string item;
                  int i = 0;
                  while (std::getline(ls, item, ','))
                  {
                     double v = strtod(item.c_str(), nullptr), t = tol(1.0, e2);
                     SIM_CHECK(i < N && std::fabs(v - T(i, rows)) <= t, "print", "entry (%d,%d) is written as %.10g instead of %.10g", i, rows, v, i < N ? T(i, rows) : NAN);
                     ++i;
                  }
                  SIM_CHECK(i == N, "print", "line %d of the matrix file has %d entries instead of %d", rows, i, N);
                  ++rows;
               }
               SIM_CHECK(rows == N, "print", "the matrix file has %d lines instead of %d", rows, N);
               probe("matrices printed");
            }
         }
         else if (s.kind == 3)
         {
            for (int rep = 0; rep < 2; ++rep)
            {
               mfem::Operator &D = jf->getDiagonalBlock(s.which);
               const Part &p = S.s.b[size_t(s.which)];
               SIM_CHECK(D.Height() == p.len(r) && D.Width() == p.len(r), "size", "rank %d: diagonal block %d is %d by %d instead of %d", r, s.which, D.Height(), D.Width(), p.len(r));
               V xb(s.x.begin() + S.s.start(size_t(s.which)), s.x.begin() + S.s.start(size_t(s.which)) + p.N);
               Space one;
               one.nr = nr;
               one.b = {p};
               Vector x = toVec(one.local(xb, r)), y(x.Size());
               soil(y, s.soil);
               D.Mult(x, y);
               V g = one.gather(y.GetData()), w = block(T, S.s, size_t(s.which), size_t(s.which)).mult(xb);
               double sc = (T.norm() + E.norm() + std::fabs(scale) * S.A.norm()) * (maxabs(xb) + 1e-6);
               SIM_CHECK(dist(g, w) <= 1e-12 * sc, "diagonal-block", "block %d of %.10g * J%s, request %d: off by %.3g", s.which, scale, expl ? " + E" : "", rep, dist(g, w));
               probe("diagonal blocks");
            }
         }
         else if (s.kind == 4 || s.kind == 5)
         {
            Mat P(N, N);
            bool fromJf = s.op1 || expl != 2 || gen(1);
            bool hasAll = true;
            for (int k = 0; k < nb; ++k) { hasAll = hasAll && (expl != 0); }
            if (fromJf || !hasAll) { prec.SetOperator(*jf); }
            else { prec.SetOperator(*B); }
            const Mat &Src = fromJf || !hasAll ? T : E;
            for (int k = 0; k < nb; ++k)
            {
               int o = S.s.start(size_t(k));
               for (int i = 0; i < S.s.b[size_t(k)].N; ++i)
               {
                  if (!hasBlock[size_t(k)]) { P(o + i, o + i) = 1.0; continue; }
                  for (int j = 0; j < S.s.b[size_t(k)].N; ++j) { P(o + i, o + j) = fac[k] * Src(o + i, o + j); }
               }
            }
            Vector x = toVec(S.s.local(s.x, r)), y(x.Size());
            V x0 = fromVec(x);
            soil(y, s.soil);
            // the transpose of a distributed block is well defined too
            if (s.kind == 4) { prec.Mult(x, y); }
            else { prec.MultTranspose(x, y); }
            V g = S.s.gather(y.GetData()), w = s.kind == 4 ? P.mult(s.x) : P.multT(s.x);
            double sc = 4 * (T.norm() + E.norm() + std::fabs(scale) * S.A.norm() + 1) * double(N) * (maxabs(s.x) + 1e-6);
            SIM_CHECK(dist(g, w) <= 1e-12 * sc, "block-jacobi", "%s of the block-Jacobi preconditioner (%d blocks on %d ranks, set from %s): off by %.3g", s.kind == 4 ? "product" : "transposed product", nb, nr,
                      fromJf ? "a Jacobian-free operator" : "a block operator", dist(g, w));
            SIM_CHECK(fromVec(x) == x0, "input-modified", "the vector preconditioned was modified");
            probe("preconditioner products");
         }
      }
      for (int k = 0; k < nb; ++k) { SIM_CHECK(hasBlock[size_t(k)] || echo[size_t(k)]->sets == 0, "block-jacobi", "a block that was not set was given an operator"); }
      if (nr == 1)
      {
         auto D = dense(genMat(2, 2));
         bool threw = false;
         try { prec.SetOperator(*D); }
         catch (const std::exception &) { threw = true; }
         SIM_CHECK(threw, "block-jacobi", "an operator without blocks was accepted");
      }
   });
   femsim::checkThrew(res);
   for (int r = 1; r < nr; ++r) { SIM_CHECK(evalCount[size_t(r)] == evalCount[0], "ranks-differ", "rank %d evaluated the residual %d times, rank 0 %d times", r, evalCount[size_t(r)], evalCount[0]); }
   if (products) { nontrivial(); }
   probe("Jacobian-free products", products);
   signature(uint64_t(N) * 1000 + uint64_t(nr) * 100 + uint64_t(nb) * 10 + uint64_t(expl) + (hypB ? 5 : 0));
   for (auto &s : h) { signature(uint64_t(s.kind) * 10 + uint64_t(s.which) + (s.a == 0) * 100 + (s.a == 1) * 200); }
   for (auto &p : S.s.b) { for (int o : p.off) { signature(uint64_t(o)); } }
   describe(fmt("Jacobian-free operator, %d unknowns in %d blocks on %d ranks, explicit part %d, %zu operations", N, nb, nr, expl, h.size()));
}
// ---------------------------------------------------------------- O02
struct Counted : public mfem::Operator
{
   const mfem::Operator &A;
   mutable long mults = 0;
   Counted(const mfem::Operator &A_) : Operator(A_.Height(), A_.Width()), A(A_) {}
   void Mult(const Vector &x, Vector &y) const override { ++mults; A.Mult(x, y); }
};
struct CountedPrec : public mfem::Solver
{
   Vector dinv;
   mutable long mults = 0;
   CountedPrec(const Vector &d) : mfem::Solver(d.Size()), dinv(d) {}
   void SetOperator(const mfem::Operator &) override {}
   void Mult(const Vector &x, Vector &y) const override
   {
      ++mults;
      for (int i = 0; i < x.Size(); ++i) { y(i) = x(i) * dinv(i); }
   }
};
bool solveDense(Mat A, V &b)
{
   int n = A.n;
   for (int k = 0; k < n; ++k)
   {
      int pv = k;
      for (int i = k + 1; i < n; ++i) { if (std::fabs(A(i, k)) > std::fabs(A(pv, k))) { pv = i; } }
      if (A(pv, k) == 0) { return false; }
      for (int j = 0; j < n; ++j) { std::swap(A(k, j), A(pv, j)); }
      std::swap(b[size_t(k)], b[size_t(pv)]);
      for (int i = k + 1; i < n; ++i)
      {
         double f = A(i, k) / A(k, k);
         for (int j = k; j < n; ++j) { A(i, j) -= f * A(k, j); }
         b[size_t(i)] -= f * b[size_t(k)];
      }
   }
   for (int i = n - 1; i >= 0; --i)
   {
      for (int j = i + 1; j < n; ++j) { b[size_t(i)] -= A(i, j) * b[size_t(j)]; }
      b[size_t(i)] /= A(i, i);
   }
   return true;
}
/// the solver the options describe, made directly
std::unique_ptr<mfem::Solver> plainSolver(const std::string &type, double reltol, double abstol, int maxiter, int kdim, mfem::Solver *prec)
{
   auto it = [&](std::unique_ptr<mfem::IterativeSolver> s)
   {
      s->SetRelTol(reltol);
      s->SetAbsTol(abstol);
      s->SetMaxIter(maxiter);
      s->SetPrintLevel(-1);
      if (prec) { s->SetPreconditioner(*prec); }
      return s;
   };
   auto *hp = dynamic_cast<mfem::HypreSolver *>(prec);
   if (type == "gmres") { auto s = std::make_unique<mfem::GMRESSolver>(MPI_COMM_WORLD); if (kdim > 0) { s->SetKDim(kdim); } return it(std::move(s)); }
   if (type == "fgmres") { auto s = std::make_unique<mfem::FGMRESSolver>(MPI_COMM_WORLD); if (kdim > 0) { s->SetKDim(kdim); } return it(std::move(s)); }
   if (type == "pcg") { return it(std::make_unique<mfem::CGSolver>(MPI_COMM_WORLD)); }
   if (type == "minres") { return it(std::make_unique<mfem::MINRESSolver>(MPI_COMM_WORLD)); }
   if (type == "hyprepcg")
   {
      auto s = std::make_unique<mfem::HyprePCG>(MPI_COMM_WORLD);
      s->SetTol(reltol);
      s->SetAbsTol(abstol);
      s->SetMaxIter(maxiter);
      if (hp) { s->SetPreconditioner(*hp); }
      return s;
   }
   if (type == "hypregmres")
   {
      auto s = std::make_unique<mfem::HypreGMRES>(MPI_COMM_WORLD);
      s->SetTol(reltol);
      s->SetAbsTol(abstol);
      s->SetMaxIter(maxiter);
      if (kdim > 0) { s->SetKDim(kdim); }
      if (hp) { s->SetPreconditioner(*hp); }
      return s;
   }
   auto s = std::make_unique<mfem::HypreFGMRES>(MPI_COMM_WORLD);
   s->SetTol(reltol);
   s->SetMaxIter(maxiter);
   if (kdim > 0) { s->SetKDim(kdim); }
   if (hp) { s->SetPreconditioner(*hp); }
   return s;
}
/// iterations, -1 when unknown
long iterations(mfem::Solver *s, int maxiter)
{
   if (auto *it = dynamic_cast<mfem::IterativeSolver *>(s)) { return it->GetConverged() ? it->GetNumIterations() : maxiter; }
   int n = -1;
   if (auto *q = dynamic_cast<mfem::HypreGMRES *>(s)) { q->GetNumIterations(n); }
   if (auto *q = dynamic_cast<mfem::HypreFGMRES *>(s)) { q->GetNumIterations(n); }
   if (auto *q = dynamic_cast<mfem::HyprePCG *>(s)) { q->GetNumIterations(n); }
   return n;
}
void runLinear()
{
   static const char *types[] = {"hypregmres", "gmres", "hyprefgmres", "fgmres", "hyprepcg", "pcg", "minres", "nonsense"};
   static const bool isHypre[] = {true, false, true, false, true, false, false, false};
   static const bool sym[] = {false, false, false, false, true, true, true, false};
   int nr = genInt(1, 4);
   int ty = int(gen(29)) / 4;
   std::string type = types[ty];
   Space S = genSpace(nr, 1, 12);
   int N = S.N();
   // well conditioned: identity plus a small (symmetric) part, rows scaled
   Mat A(N, N);
   double off = genIn(0, 0.8);
   for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { A(i, j) = (gen(2) ? genIn(-1, 1) : 0.0) * off / N; } }
   if (sym[ty]) { for (int i = 0; i < N; ++i) { for (int j = 0; j < i; ++j) { A(i, j) = A(j, i); } } }
   V d;
   double spread = gen(3) ? 1.0 : 10.0;
   for (int i = 0; i < N; ++i) { d.push_back(std::pow(spread, genIn(-0.5, 0.5))); }
   for (int i = 0; i < N; ++i) { A(i, i) += 1.0; }
   for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { A(i, j) *= d[size_t(i)] * d[size_t(j)]; } }
   static const double tols[] = {1e-2, 1e-4, 1e-8, 1e-12};
   double reltol = tols[gen(4)];
   bool absGiven = gen(2);
   double abstol = absGiven ? (gen(3) ? 1e-14 : tols[gen(3)]) : 0.0;
   bool kdimGiven = gen(2);
   int kdim = genInt(1, 20);
   int maxiter = gen(3) ? 400 : genInt(1, 4);
   bool havePrec = gen(2);
   int solves = genInt(1, 3);
   std::vector<V> b;
   for (int k = 0; k < solves; ++k) { b.push_back(genX(N)); }
   bool guess = gen(2);
   bool one = gen(2);  // object used again for another matrix
   Mat A2 = A;
   double f2 = genIn(0.5, 2.0);
   for (double &x : A2.a) { x *= f2; }
   std::vector<V> sol(b.size(), V(static_cast<size_t>(N)));
   JobConfig jc;
   jc.nranks = nr;
   auto res = runJob(jc, [&](int r)
   {
      nlohmann::json o = {{"type", type}, {"reltol", reltol}, {"maxiter", maxiter}, {"printlevel", isHypre[ty] ? 0 : -1}};
      if (absGiven) { o["abstol"] = abstol; }
      if (kdimGiven) { o["kdim"] = kdim; }
      auto H = distribute(A, S.b[0], S.b[0]), H2 = distribute(A2, S.b[0], S.b[0]);
      std::unique_ptr<mfem::Solver> prec;
      V di;
      for (int i = 0; i < N; ++i) { di.push_back(1.0 / A(i, i)); }
      if (havePrec)
      {
         if (isHypre[ty]) { prec = std::make_unique<mfem::HypreDiagScale>(); }
         else { prec = std::make_unique<CountedPrec>(toVec(S.local(di, r))); }
      }
      std::unique_ptr<mfem::Solver> s;
      bool threw = false;
      try { s = miso::constructLinearSolver(MPI_COMM_WORLD, o, prec.get()); }
      catch (const std::exception &) { threw = true; }
      SIM_CHECK(threw == (ty == 7), "unknown-type", "a linear solver of type \"%s\" %s", type.c_str(), threw ? "was refused" : "was made");
      if (threw) { return; }
      Counted C(*H), C2(*H2);
      for (size_t k = 0; k < b.size(); ++k)
      {
         bool second = one && k == 1;
         if (isHypre[ty]) { s->SetOperator(second ? *H2 : *H); }
         else { s->SetOperator(second ? C2 : C); }
         C.mults = C2.mults = 0;
         auto *cp = dynamic_cast<CountedPrec *>(prec.get());
         if (cp) { cp->mults = 0; }
         Vector x(S.len(r)), rhs = toVec(S.local(b[k], r));
         s->iterative_mode = guess;
         if (guess) { for (int i = 0; i < x.Size(); ++i) { x(i) = 0.01 * (i + 1); } }
         else { soil(x, 2); }
         V r0 = fromVec(rhs);
         s->Mult(rhs, x);
         SIM_CHECK(fromVec(rhs) == r0, "input-modified", "the right-hand side was modified");
         V g = S.gather(x.GetData());
         const Mat &M = second ? A2 : A;
         V ref = b[k];
         if (!solveDense(M, ref)) { harnessError("singular system"); }
         V rr = M.mult(g);
         double rn = 0, bn = 0;
         for (size_t i = 0; i < rr.size(); ++i) { double e = b[k][i] - rr[i]; rn += e * e; bn += b[k][i] * b[k][i]; }
         rn = std::sqrt(rn);
         bn = std::sqrt(bn);
         for (double v : g) { SIM_CHECK(std::isfinite(v), "not-finite", "%s%s%s returned a value that is not finite (solve %zu, right-hand side of size %.3g, initial guess %d)", type.c_str(), havePrec ? " preconditioned" : "", second ? " for a second matrix" : "", k, maxabs(b[k]), guess); }
         // the iterations used
         long its = iterations(s.get(), maxiter);
         if (!isHypre[ty] && its >= maxiter)
         {
            SIM_CHECK(C.mults + C2.mults >= maxiter, "max-iter", "%s gave up after applying the operator %ld times with a limit of %d iterations", type.c_str(), C.mults + C2.mults, maxiter);
         }
         // as many as the solver the options ask for (a borderline residual may
         // go either way: sums over the ranks are not exactly reproducible)
         {
            std::unique_ptr<mfem::Solver> p2;
            if (havePrec)
            {
               if (isHypre[ty]) { p2 = std::make_unique<mfem::HypreDiagScale>(); }
               else { p2 = std::make_unique<CountedPrec>(toVec(S.local(di, r))); }
            }
            auto ps = plainSolver(type, reltol, abstol, maxiter, kdimGiven ? kdim : -1, p2.get());
            if (isHypre[ty]) { ps->SetOperator(second ? *H2 : *H); }
            else { ps->SetOperator(second ? *H2 : *H); }
            ps->iterative_mode = guess;
            Vector x2(S.len(r));
            for (int i = 0; i < x2.Size(); ++i) { x2(i) = guess ? 0.01 * (i + 1) : 0.0; }
            ps->Mult(rhs, x2);
            long want = iterations(ps.get(), maxiter);
            SIM_CHECK(bn == 0 || std::labs(want - its) <= 1 + want / 8, "options", "%s%s with reltol %.1g, abstol %.1g%s, at most %d iterations, space of %d%s used %ld iterations, the solver these options describe needs %ld", type.c_str(),
                      havePrec ? " preconditioned" : "", reltol, abstol, absGiven ? "" : " (not given)", maxiter, kdim, kdimGiven ? "" : " (not given)", its, want);
         }
         SIM_CHECK(its <= maxiter, "max-iter", "%s used %ld iterations with a limit of %d", type.c_str(), its, maxiter);
         SIM_CHECK(C.mults + C2.mults <= 3 * long(maxiter) + 4, "max-iter", "%s applied the operator %ld times with a limit of %d iterations", type.c_str(), C.mults + C2.mults, maxiter);
         // stopped because of the tolerance: the residual is small enough in any of the
         // norms the solvers use (the preconditioners here change norms by at most `spread`)
         double gn = 0;
         if (guess) { V gx(static_cast<size_t>(N)); int i = 0; (void)i; gn = 0.01 * 13 * M.norm() * std::sqrt(double(N)); }
         if (its < maxiter && its >= 0)
         {
            double lim = (reltol * (bn + gn) + abstol * std::sqrt(double(N))) * spread * spread * 8 + 1e-13 * (bn + gn);
            SIM_CHECK(rn <= lim, "tolerance", "%s%s (reltol %.1g, abstol %.1g) stopped after %ld of %d iterations with a residual of %.3g for a right-hand side of %.3g (solve %zu, guess %d, second %d, N %d)", type.c_str(), havePrec ? " preconditioned" : "", reltol, abstol,
                      its, maxiter, rn, bn, k, guess, second, N);
            probe("converged solves");
         }
         else { probe("solves that hit the limit"); }
         // a tight tolerance is not left early, a loose one is not overdone
         if (cp && its > 0) { SIM_CHECK(cp->mults > 0, "preconditioner", "%s never applied its preconditioner", type.c_str()); }
         for (size_t i = 0; i < g.size(); ++i) { hashD(std::round(g[i] * 1e6)); }
         if (r == 0) { sol[k] = g; }
         if (r == 0) { probe("linear iterations", its); signature(uint64_t(its)); }
      }
   });
   femsim::checkThrew(res);
   if (ty < 7) { nontrivial(); }
   signature(uint64_t(ty) * 1000 + uint64_t(N) * 10 + uint64_t(nr) + (havePrec ? 100000 : 0));
   for (int o : S.b[0].off) { signature(uint64_t(o)); }
   describe(fmt("%s%s, %d unknowns on %d ranks, reltol %.0e, limit %d, %zu solves", type.c_str(), havePrec ? " preconditioned" : "", N, nr, reltol, maxiter, b.size()));
}
// ---------------------------------------------------------------- G01
struct Fn
{
   int kind = 0;
   double root = 0, sc = 1, w = 1, jump = 0;
   int faultAt = -1, faultKind = 0;  // 1 throw once, 2 throw from then on, 3 NaN once, 4 NaN from then on, 5 inf once
   double eval(double x) const
   {
      double z = (x - root) * w;
      switch (kind)
      {
      case 0: return sc * z;
      case 1: return sc * (z + 0.3 * z * z * z);
      case 2: return sc * (std::exp(z) - 1);
      case 3: return sc * z * z * z;
      case 4: return sc * std::atan(z * 5);
      case 5: return sc * (z * z + 0.5);           // no root
      case 6: return sc * (z < 0 ? -1 : 1);        // a jump, no root
      case 7: return sc * std::round(z * 1e6) / 1e6;  // stagnates
      case 8: return sc * (z + jump);
      case 9: return sc * 1.0;                     // constant
      default: return sc * std::sin(z * 3);
      }
   }
};
struct FnError : std::exception { const char *what() const noexcept override { return "generated failure"; } };
void runRoot()
{
   int nr = gen(3) ? 1 : genInt(2, 4);
   bool bis = gen(2);
   Fn f;
   f.kind = int(gen(11));
   f.root = gen(4) == 0 ? 0.0 : genIn(-2, 2);
   static const double scs[] = {1, 1, 1e-6, 1e6, 1e-14};
   f.sc = scs[gen(5)] * (gen(2) ? 1 : -1);
   f.w = gen(3) ? 1.0 : genIn(0.1, 10);
   double x1 = f.root + genIn(-1, 1) * (gen(2) ? 1 : 0.01), x2 = f.root + genIn(-1, 1) * (gen(2) ? 1 : 0.01);
   if (bis && gen(4)) { x1 = f.root - genIn(0, 1); x2 = f.root + genIn(0, 1); }
   if (gen(8) == 0) { x1 = f.root; }
   else if (gen(8) == 0) { x2 = f.root; }
   if (x1 == x2) { x2 = x1 + 0.125; }
   if (bis && x1 > x2 && gen(2)) { std::swap(x1, x2); }
   static const double tl[] = {1e-12, 1e-6, 0.0, 1e-3};
   double ftol = tl[gen(4)], xtol = tl[gen(4)];
   int maxiter = gen(3) ? 100 : genInt(0, 8);
   if (fault(3) == 2) { f.faultAt = int(fault(8)); f.faultKind = 1 + int(fault(5)); }
   int bad = 0, evals = 0;
   std::vector<std::pair<double, double>> trace;
   std::vector<double> root(size_t(nr), 0.0);
   std::vector<int> outcome(size_t(nr), 0);
   JobConfig jc;
   jc.nranks = nr;
   auto res = runJob(jc, [&](int r)
   {
      int n = 0;
      auto fun = [&](double x)
      {
         if (++n > 5 * maxiter + 20) { sim::violation("endless", fmt("%d evaluations with a limit of %d iterations", n, maxiter)); }
         // a sum over the ranks, like the entropy of a distributed state
         double part = r == 0 ? f.eval(x) : 0.0, tot = 0;
         MPI_Allreduce(&part, &tot, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
         if (f.faultAt >= 0 && (n - 1 == f.faultAt || (n - 1 > f.faultAt && (f.faultKind == 2 || f.faultKind == 4))))
         {
            if (r == 0) { ++bad; countFault("failing evaluation"); }
            if (f.faultKind <= 2) { if (r == 0) { trace.push_back({x, NAN}); } throw FnError(); }
            tot = f.faultKind == 5 ? INFINITY : NAN;
         }
         if (r == 0) { trace.push_back({x, tot}); ++evals; }
         return tot;
      };
      try
      {
         root[size_t(r)] = bis ? miso::bisection(fun, x1, x2, ftol, xtol, maxiter) : miso::secant(fun, x1, x2, ftol, xtol, maxiter);
         outcome[size_t(r)] = 1;
      }
      catch (const std::exception &) { outcome[size_t(r)] = 2; }
      catch (int) { outcome[size_t(r)] = 2; }
      hashU(uint64_t(n));
   });
   femsim::checkThrew(res);
   for (int r = 1; r < nr; ++r)
   {
      SIM_CHECK(outcome[size_t(r)] == outcome[0] && (outcome[0] == 2 || memcmp(&root[size_t(r)], &root[0], 8) == 0), "ranks-differ", "rank %d ended with %d and %.17g, rank 0 with %d and %.17g", r, outcome[size_t(r)],
                root[size_t(r)], outcome[0], root[0]);
   }
   std::string what = fmt("%s from %.17g and %.17g (ftol %.1g, xtol %.1g, at most %d iterations, function %d scale %.1g%s)", bis ? "bisection" : "secant", x1, x2, ftol, xtol, maxiter, f.kind, f.sc,
                          bad ? ", failing evaluations" : "");
   if (outcome[0] == 1)
   {
      double x = root[0];
      SIM_CHECK(std::isfinite(x), "not-a-root", "%s returned %g", what.c_str(), x);
      // the value at the returned point, as the finder saw it
      bool seen = false;
      double fx = NAN;
      for (auto &t : trace) { if (t.first == x) { seen = true; fx = t.second; } }
      bool small = seen && std::fabs(fx) <= ftol;
      // ... or the last change was below xtol: another evaluated point lies within xtol, and for
      // bisection the function changes sign between points that close
      bool close = false;
      if (bis)
      {
         double lo = -INFINITY, hi = INFINITY;
         double fl = NAN, fh = NAN;
         for (auto &t : trace)
         {
            if (t.first <= x && t.first > lo) { lo = t.first; fl = t.second; }
            if (t.first >= x && t.first < hi && !(t.first == x)) { hi = t.first; fh = t.second; }
         }
         (void)fl; (void)fh;
         // the neighbours of x among the evaluated points
         double left = -INFINITY, right = INFINITY, vl = NAN, vr = NAN;
         for (auto &t : trace)
         {
            if (t.first < x && t.first > left) { left = t.first; vl = t.second; }
            if (t.first > x && t.first < right) { right = t.first; vr = t.second; }
         }
         close = std::isfinite(left) && std::isfinite(right) && right - left <= xtol * (1 + 1e-9) + 4e-16 * std::fabs(x) && !(vl * vr > 0) && !std::isnan(vl * vr);
         // a function that answers differently the second time has no sign to rely on
         for (auto &t : trace) { close = close || (t.first == x && memcmp(&t.second, &fx, 8) != 0 && std::isfinite(fx)); }
         SIM_CHECK(x >= std::min(x1, x2) && x <= std::max(x1, x2), "outside", "%s left the bracket: %.17g", what.c_str(), x);
      }
      else
      {
         for (auto &t : trace) { close = close || (t.first != x && std::fabs(t.first - x) < xtol * (1 + 1e-9) + 4e-16 * std::fabs(x) && std::isfinite(fx)); }
         // a step smaller than the spacing of numbers does not move
         if (trace.size() >= 2 && trace.back().first == x && trace[trace.size() - 2].first == x && xtol > 0) { close = close || std::isfinite(fx); }
      }
      SIM_CHECK(small || close, "not-a-root", "%s returned %.17g where the function is %.3g, without having converged (%d evaluations)", what.c_str(), x, seen ? fx : f.eval(x), evals);
      probe("roots found");
   }
   else
   {
      // an error needs a reason: a failing evaluation, no bracket, no root, or the limit
      bool noBracket = bis && f.eval(x1) * f.eval(x2) > 0;
      bool limited = evals + bad >= maxiter + 2 || f.kind == 5 || f.kind == 6 || f.kind == 9 || f.kind == 7 || f.kind == 4 || f.kind == 10 || f.kind == 3 || f.sc == 1e-14 || f.sc == -1e-14 || ftol == 0.0;
      for (auto &t : trace) { limited = limited || !std::isfinite(t.second); }
      for (size_t i = 1; i < trace.size(); ++i) { limited = limited || trace[i].second == trace[i - 1].second; }
      SIM_CHECK(bad > 0 || noBracket || limited, "spurious-error", "%s raised an error after %d evaluations", what.c_str(), evals);
      probe("errors reported");
   }
   if (nr > 1 || bad || evals > 3) { nontrivial(); }
   signature(uint64_t(f.kind) * 100 + uint64_t(bis) * 50 + uint64_t(f.faultKind) * 4 + uint64_t(outcome[0]));
   signature(uint64_t(evals) * 8 + uint64_t(nr));
   signature(uint64_t(f.faultAt + 1));
   describe(what + fmt(": %s, %d evaluations", outcome[0] == 1 ? "root" : "error", evals));
}
}  // namespace

void driverRun()
{
   std::string p = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "O01";
   if (p == "O01")
   {
      if (gen(3) == 0) { runSum(); }
      else { runJacFree(); }
   }
   else if (p == "O02") { runLinear(); }
   else { runRoot(); }
}
