// Minimal stand-in for tinyspline (not installed here): a one-dimensional
// B-spline with de Boor evaluation. Declared stub: see DESIGN.md.
#ifndef VERIF_TINYSPLINE_SHIM
#define VERIF_TINYSPLINE_SHIM
#include <cstddef>
#include <stdexcept>
#include <vector>
namespace tinyspline
{
typedef double real;
class DeBoorNet
{
public:
   std::vector<double> r;
   std::vector<double> result() const { return r; }
};
class BSpline
{
public:
   BSpline() : BSpline(2, 1, 1) { }
   BSpline(std::size_t n, std::size_t dim = 2, std::size_t degree = 3)
    : deg(degree), dm(dim), cps(n * dim, 0.0), kn(n + degree + 1)
   {
      if (dim != 1) { throw std::runtime_error("tinyspline shim: only dim 1"); }
      for (std::size_t i = 0; i < kn.size(); ++i)
      {
         if (i <= degree) { kn[i] = 0.0; }
         else if (i >= n) { kn[i] = 1.0; }
         else { kn[i] = double(i - degree) / double(n - degree); }
      }
   }
   void setControlPoints(const std::vector<double> &c)
   {
      if (c.size() != cps.size()) { throw std::runtime_error("tinyspline shim: control points"); }
      cps = c;
   }
   void setKnots(const std::vector<double> &k)
   {
      if (k.size() != kn.size()) { throw std::runtime_error("tinyspline shim: knots"); }
      kn = k;
   }
   std::vector<double> controlPoints() const { return cps; }
   std::vector<double> knots() const { return kn; }
   BSpline derive(std::size_t n = 1) const
   {
      BSpline s = *this;
      for (std::size_t k = 0; k < n; ++k)
      {
         if (s.deg == 0) { s.cps.assign(s.cps.size(), 0.0); continue; }
         BSpline d(s.cps.size() - 1, 1, s.deg - 1);
         for (std::size_t i = 0; i + 1 < s.cps.size(); ++i)
         {
            double h = s.kn[i + s.deg + 1] - s.kn[i + 1];
            d.cps[i] = h == 0.0 ? 0.0 : double(s.deg) * (s.cps[i + 1] - s.cps[i]) / h;
         }
         d.kn.assign(s.kn.begin() + 1, s.kn.end() - 1);
         s = d;
      }
      return s;
   }
   DeBoorNet eval(double t) const
   {
      std::size_t n = cps.size(), p = deg, k = p;
      if (t < kn[p]) { t = kn[p]; }
      if (t > kn[n]) { t = kn[n]; }
      while (k + 1 < n && t >= kn[k + 1]) { ++k; }
      std::vector<double> d(p + 1);
      for (std::size_t j = 0; j <= p; ++j) { d[j] = cps[j + k - p]; }
      for (std::size_t r = 1; r <= p; ++r)
      {
         for (std::size_t j = p; j >= r; --j)
         {
            double lo = kn[j + k - p], hi = kn[j + 1 + k - r];
            double a = hi == lo ? 0.0 : (t - lo) / (hi - lo);
            d[j] = (1 - a) * d[j - 1] + a * d[j];
         }
      }
      return DeBoorNet{{d[p]}};
   }
   std::vector<double> operator()(double t) const { return eval(t).result(); }

private:
   std::size_t deg, dm;
   std::vector<double> cps, kn;
};
}  // namespace tinyspline
#endif
