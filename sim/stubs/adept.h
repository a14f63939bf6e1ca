// Minimal tape-based stand-in for the Adept 2 automatic-differentiation
// library (which is not installed here). It implements only the interface the
// sources under /repo use. It is a declared stub: see DESIGN.md.
#ifndef VERIF_ADEPT_SHIM
#define VERIF_ADEPT_SHIM
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <iostream>
#include <stdexcept>
#include <vector>

namespace adept
{
typedef double Real;
typedef int Index;

namespace shim
{
struct Op { Index idx; double mult; };
struct Stmt { Index lhs; unsigned op_begin, op_end; };
struct Tape
{
   std::vector<Op> ops;
   std::vector<Stmt> stmts;
   std::vector<Index> free_list;
   Index n_index = 0;
   std::vector<double> grad;
   bool recording = true;
   Index reg()
   {
      if (!free_list.empty())
      {
         Index i = free_list.back();
         free_list.pop_back();
         return i;
      }
      return n_index++;
   }
   void unreg(Index i) { free_list.push_back(i); }
};
inline Tape &tape()
{
   static Tape *t = new Tape;
   return *t;
}
inline bool &active()
{
   static bool a = false;
   return a;
}
}  // namespace shim

class adouble
{
public:
   adouble() : v(0.0), i(shim::tape().reg()) { }
   adouble(double x) : v(x), i(shim::tape().reg()) { leaf(); }
   adouble(int x) : adouble(double(x)) { }
   adouble(const adouble &o) : v(o.v), i(shim::tape().reg()) { rec1(o, 1.0); }
   adouble(double x, const adouble &a, double da)
    : v(x), i(shim::tape().reg())
   { rec1(a, da); }
   adouble(double x,
           const adouble &a, double da,
           const adouble &b, double db)
    : v(x), i(shim::tape().reg())
   { rec2(a, da, b, db); }
   ~adouble() { shim::tape().unreg(i); }
   adouble &operator=(double x) { v = x; leaf(); return *this; }
   adouble &operator=(const adouble &o)
   {
      rec1(o, 1.0);
      v = o.v;
      return *this;
   }
   adouble &operator+=(const adouble &o) { rec2(*this, 1.0, o, 1.0); v += o.v; return *this; }
   adouble &operator-=(const adouble &o) { rec2(*this, 1.0, o, -1.0); v -= o.v; return *this; }
   adouble &operator*=(const adouble &o) { double a = v, b = o.v; rec2(*this, b, o, a); v = a * b; return *this; }
   adouble &operator/=(const adouble &o) { double a = v, b = o.v; rec2(*this, 1.0 / b, o, -a / (b * b)); v = a / b; return *this; }
   adouble &operator+=(double o) { v += o; return *this; }
   adouble &operator-=(double o) { v -= o; return *this; }
   adouble &operator*=(double o) { rec1(*this, o); v *= o; return *this; }
   adouble &operator/=(double o) { rec1(*this, 1.0 / o); v /= o; return *this; }
   double value() const { return v; }
   void set_value(double x) { v = x; }
   Index gradient_index() const { return i; }
   void set_gradient(double g) const
   {
      grow();
      shim::tape().grad[i] = g;
   }
   double get_gradient() const { grow(); return shim::tape().grad[i]; }
   void get_gradient(double &g) const { g = get_gradient(); }

private:
   void grow() const
   {
      auto &t = shim::tape();
      if (t.grad.size() < std::size_t(t.n_index)) { t.grad.resize(t.n_index, 0.0); }
   }
   void leaf()
   {
      auto &t = shim::tape();
      if (!shim::active()) { return; }
      unsigned b = t.ops.size();
      t.stmts.push_back({i, b, b});
   }
   void rec1(const adouble &a, double da)
   {
      auto &t = shim::tape();
      if (!shim::active()) { return; }
      unsigned b = t.ops.size();
      t.ops.push_back({a.i, da});
      t.stmts.push_back({i, b, b + 1});
   }
   void rec2(const adouble &a, double da, const adouble &bb, double db)
   {
      auto &t = shim::tape();
      if (!shim::active()) { return; }
      unsigned b = t.ops.size();
      t.ops.push_back({a.i, da});
      t.ops.push_back({bb.i, db});
      t.stmts.push_back({i, b, b + 2});
   }
   double v;
   Index i;
};

inline double value(double x) { return x; }
inline double value(const adouble &x) { return x.value(); }

inline adouble operator+(const adouble &a, const adouble &b) { return {a.value() + b.value(), a, 1.0, b, 1.0}; }
inline adouble operator+(const adouble &a, double b) { return {a.value() + b, a, 1.0}; }
inline adouble operator+(double a, const adouble &b) { return {a + b.value(), b, 1.0}; }
inline adouble operator-(const adouble &a, const adouble &b) { return {a.value() - b.value(), a, 1.0, b, -1.0}; }
inline adouble operator-(const adouble &a, double b) { return {a.value() - b, a, 1.0}; }
inline adouble operator-(double a, const adouble &b) { return {a - b.value(), b, -1.0}; }
inline adouble operator*(const adouble &a, const adouble &b) { return {a.value() * b.value(), a, b.value(), b, a.value()}; }
inline adouble operator*(const adouble &a, double b) { return {a.value() * b, a, b}; }
inline adouble operator*(double a, const adouble &b) { return {a * b.value(), b, a}; }
inline adouble operator/(const adouble &a, const adouble &b)
{
   double y = b.value();
   return {a.value() / y, a, 1.0 / y, b, -a.value() / (y * y)};
}
inline adouble operator/(const adouble &a, double b) { return {a.value() / b, a, 1.0 / b}; }
inline adouble operator/(double a, const adouble &b)
{
   double y = b.value();
   return {a / y, b, -a / (y * y)};
}
inline adouble operator-(const adouble &a) { return {-a.value(), a, -1.0}; }
inline adouble operator+(const adouble &a) { return a; }

#define VERIF_ADEPT_CMP(OP) \
   inline bool operator OP(const adouble &a, const adouble &b) { return a.value() OP b.value(); } \
   inline bool operator OP(const adouble &a, double b) { return a.value() OP b; } \
   inline bool operator OP(double a, const adouble &b) { return a OP b.value(); }
VERIF_ADEPT_CMP(<)
VERIF_ADEPT_CMP(>)
VERIF_ADEPT_CMP(<=)
VERIF_ADEPT_CMP(>=)
VERIF_ADEPT_CMP(==)
VERIF_ADEPT_CMP(!=)
#undef VERIF_ADEPT_CMP

#define VERIF_ADEPT_FN(NAME, VAL, DER) \
   inline adouble NAME(const adouble &a) { double x = a.value(); double y = VAL; (void)y; return {y, a, DER}; }
VERIF_ADEPT_FN(sqrt, std::sqrt(x), 0.5 / y)
VERIF_ADEPT_FN(exp, std::exp(x), y)
VERIF_ADEPT_FN(log, std::log(x), 1.0 / x)
VERIF_ADEPT_FN(log10, std::log10(x), 1.0 / (x * std::log(10.0)))
VERIF_ADEPT_FN(sin, std::sin(x), std::cos(x))
VERIF_ADEPT_FN(cos, std::cos(x), -std::sin(x))
VERIF_ADEPT_FN(tan, std::tan(x), 1.0 + y * y)
VERIF_ADEPT_FN(asin, std::asin(x), 1.0 / std::sqrt(1 - x * x))
VERIF_ADEPT_FN(acos, std::acos(x), -1.0 / std::sqrt(1 - x * x))
VERIF_ADEPT_FN(atan, std::atan(x), 1.0 / (1 + x * x))
VERIF_ADEPT_FN(sinh, std::sinh(x), std::cosh(x))
VERIF_ADEPT_FN(cosh, std::cosh(x), std::sinh(x))
VERIF_ADEPT_FN(tanh, std::tanh(x), 1.0 - y * y)
VERIF_ADEPT_FN(abs, std::fabs(x), (x < 0 ? -1.0 : (x > 0 ? 1.0 : 0.0)))
VERIF_ADEPT_FN(fabs, std::fabs(x), (x < 0 ? -1.0 : (x > 0 ? 1.0 : 0.0)))
#undef VERIF_ADEPT_FN
inline adouble round(const adouble &a) { return {std::round(a.value()), a, 0.0}; }
inline adouble floor(const adouble &a) { return {std::floor(a.value()), a, 0.0}; }
inline adouble pow(const adouble &a, double b)
{
   double x = a.value();
   return {std::pow(x, b), a, b == 0.0 ? 0.0 : b * std::pow(x, b - 1.0)};
}
inline adouble pow(const adouble &a, int b) { return pow(a, double(b)); }
inline adouble pow(double a, const adouble &b)
{
   double y = std::pow(a, b.value());
   return {y, b, y * std::log(a)};
}
inline adouble pow(const adouble &a, const adouble &b)
{
   double y = std::pow(a.value(), b.value());
   return {y, a, b.value() * std::pow(a.value(), b.value() - 1.0), b,
           a.value() > 0 ? y * std::log(a.value()) : 0.0};
}
inline adouble atan2(const adouble &a, const adouble &b)
{
   double y = a.value(), x = b.value(), r = x * x + y * y;
   return {std::atan2(y, x), a, x / r, b, -y / r};
}
inline adouble max(const adouble &a, const adouble &b) { return a.value() > b.value() ? a : b; }
inline adouble max(const adouble &a, double b) { return a.value() > b ? a : adouble(b); }
inline adouble max(double a, const adouble &b) { return a > b.value() ? adouble(a) : b; }
inline adouble min(const adouble &a, const adouble &b) { return a.value() < b.value() ? a : b; }
inline adouble min(const adouble &a, double b) { return a.value() < b ? a : adouble(b); }
inline adouble min(double a, const adouble &b) { return a < b.value() ? adouble(a) : b; }
inline double max(double a, double b) { return a > b ? a : b; }
inline double min(double a, double b) { return a < b ? a : b; }
inline bool isnan(const adouble &a) { return std::isnan(a.value()); }
inline bool isfinite(const adouble &a) { return std::isfinite(a.value()); }
inline std::ostream &operator<<(std::ostream &os, const adouble &a) { return os << a.value(); }

inline void set_values(adouble *a, Index n, const double *x)
{
   for (Index k = 0; k < n; ++k) { a[k].set_value(x[k]); }
}
inline void get_values(const adouble *a, Index n, double *x)
{
   for (Index k = 0; k < n; ++k) { x[k] = a[k].value(); }
}
inline void set_gradients(adouble *a, Index n, const double *x)
{
   for (Index k = 0; k < n; ++k) { a[k].set_gradient(x[k]); }
}
inline void get_gradients(const adouble *a, Index n, double *x)
{
   for (Index k = 0; k < n; ++k) { x[k] = a[k].get_gradient(); }
}

class Stack
{
public:
   Stack(bool = true) { shim::active() = true; }
   ~Stack() = default;
   void new_recording()
   {
      auto &t = shim::tape();
      t.ops.clear();
      t.stmts.clear();
      t.grad.assign(t.n_index, 0.0);
      ind.clear();
      dep.clear();
      shim::active() = true;
   }
   bool pause_recording() { shim::active() = false; return true; }
   bool continue_recording() { shim::active() = true; return true; }
   void clear_gradients() { shim::tape().grad.assign(shim::tape().n_index, 0.0); }
   void clear_independents() { ind.clear(); }
   void clear_dependents() { dep.clear(); }
   void independent(const adouble &a) { ind.push_back(a.gradient_index()); }
   void dependent(const adouble &a) { dep.push_back(a.gradient_index()); }
   void independent(const adouble *a, Index n) { for (Index k = 0; k < n; ++k) { independent(a[k]); } }
   void dependent(const adouble *a, Index n) { for (Index k = 0; k < n; ++k) { dependent(a[k]); } }
   void compute_adjoint()
   {
      auto &t = shim::tape();
      if (t.grad.size() < std::size_t(t.n_index)) { t.grad.resize(t.n_index, 0.0); }
      for (std::size_t s = t.stmts.size(); s-- > 0;)
      {
         const auto &st = t.stmts[s];
         double a = t.grad[st.lhs];
         t.grad[st.lhs] = 0.0;
         if (a != 0.0)
         {
            for (unsigned o = st.op_begin; o < st.op_end; ++o)
            {
               t.grad[t.ops[o].idx] += a * t.ops[o].mult;
            }
         }
      }
   }
   void reverse() { compute_adjoint(); }
   void jacobian(double *jac) { jacobian_reverse(jac); }
   void jacobian_forward(double *jac) { jacobian_reverse(jac); }
   // column-major: jac[d + i*n_dep]
   void jacobian_reverse(double *jac)
   {
      auto &t = shim::tape();
      if (ind.empty() || dep.empty())
      {
         throw std::runtime_error("adept shim: dependents or independents not identified");
      }
      for (std::size_t d = 0; d < dep.size(); ++d)
      {
         t.grad.assign(t.n_index, 0.0);
         t.grad[dep[d]] = 1.0;
         compute_adjoint();
         for (std::size_t k = 0; k < ind.size(); ++k)
         {
            jac[d + k * dep.size()] = t.grad[ind[k]];
         }
      }
   }
   bool is_active() const { return shim::active(); }
   void activate() { shim::active() = true; }
   void deactivate() { shim::active() = false; }

private:
   std::vector<Index> ind, dep;
};
}  // namespace adept
#endif
