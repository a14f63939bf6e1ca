// Outputs that both physics share, from their definitions, on a copy of the
// mesh: averages, aggregates, boundary fluxes, volumes, energies and errors.
#ifndef VERIF_OUTREF_HPP
#define VERIF_OUTREF_HPP
#include "formref.hpp"
#include "magref.hpp"

namespace pdesim
{
/// the quadrature of an output: order on an element
using Order = std::function<int(const FiniteElement &, ElementTransformation &)>;
struct OutRef : Form
{
   const Op &op;
   OutRef(Sol &s, const Op &o) : Form(s, o), op(o) {}
   double integral(const Order &order, const json &o, const std::function<double(int, ElementTransformation &, const IntegrationPoint &)> &g)
   {
      double s = 0;
      for (int e = 0; e < pm.GetNE(); ++e)
      {
         int at = pm.GetAttribute(e);
         bool in = !o.contains("attributes");
         if (!in) { for (int a : o["attributes"]) { in = in || a == at; } }
         if (!in) { continue; }
         IsoparametricTransformation tr;
         pm.GetElementTransformation(e, &tr);
         const IntegrationRule &ir = IntRules.Get(tr.GetGeometryType(), order(*sf.GetFE(e), tr));
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            tr.SetIntPoint(&ir.IntPoint(q));
            s += ir.IntPoint(q).weight * tr.Weight() * g(at, tr, ir.IntPoint(q));
         }
      }
      return gsum(s);
   }
   double flux(ElementTransformation &tr)
   {
      Vector b;
      if (sp.nd) { A.GetCurl(tr, b); }
      else { A.GetGradient(tr, b); }
      return b.Norml2();
   }
   /// an error against a field, over the whole domain
   double error(const Field &f)
   {
      double s = integral([](const FiniteElement &fe, ElementTransformation &) { return 2 * fe.GetOrder() + 3; }, json::object(), [&](int, ElementTransformation &tr, const IntegrationPoint &ip) {
         Vector x;
         tr.Transform(ip, x);
         if (!sp.nd) { return std::pow(A.GetValue(tr, ip) - f.sca()(x), 2); }
         Vector u, v(sp.ms.dim);
         A.GetVectorValue(tr, ip, u);
         f.vec()(x, v);
         u -= v;
         return u * u;
      });
      return std::sqrt(std::max(0.0, s));
   }
   double value(const OutSpec &o)
   {
      auto full = [](const FiniteElement &fe, ElementTransformation &) { return 2 * fe.GetOrder(); };
      auto less = [](const FiniteElement &fe, ElementTransformation &) { return 2 * fe.GetOrder() - (fe.Space() == FunctionSpace::Pk ? 2 : 0); };
      auto more = [](const FiniteElement &fe, ElementTransformation &tr) { return 2 * fe.GetOrder() + tr.OrderW(); };
      auto geom = [](const FiniteElement &, ElementTransformation &tr) { return tr.OrderW(); };
      using E = ElementTransformation;
      using P = IntegrationPoint;
      auto one = [](int, E &, const P &) { return 1.0; };
      auto val = [&](int, E &tr, const P &ip) { return A.GetValue(tr, ip); };
      auto mag = [&](int, E &tr, const P &) { return flux(tr); };
      auto mean = [&](const Order &od, const std::function<double(int, E &, const P &)> &g, double rho, double shift) {
         double n = integral(od, o.opts, [&](int a, E &tr, const P &ip) { double x = g(a, tr, ip); return x * std::exp(rho * (x - shift)); });
         return n / integral(od, o.opts, [&](int a, E &tr, const P &ip) { return std::exp(rho * (g(a, tr, ip) - shift)); });
      };
      if (o.name == "volume") { return integral(geom, o.opts, one); }
      if (o.name == "average_state") { return integral(more, o.opts, val) / integral(geom, o.opts, one); }
      if (o.name == "average_flux_magnitude") { return integral(less, o.opts, mag) / integral(geom, o.opts, one); }
      if (o.name == "max_state") { return mean(full, val, op.rho, gmax(so.st[size_t(op.u)].Max())); }
      if (o.name == "max_flux_magnitude") { return mean(less, mag, op.rho, 0); }
      if (o.name == "energy")
      {
         const IntegrationRule &ir = IntRules.Get(Geometry::SEGMENT, 20);
         return integral(less, o.opts, [&](int a, E &tr, const P &) {
            double b = flux(tr), s = 0;
            for (int q = 0; q < ir.GetNPoints(); ++q) { double x = ir.IntPoint(q).x * b; s += ir.IntPoint(q).weight * x * refNu(sp, a, x); }
            return s * b;
         });
      }
      // thermal_flux: the heat that leaves through the sides named
      std::vector<int> at;
      if (o.opts.contains("attributes")) { for (int a : o.opts["attributes"]) { at.push_back(a); } }
      else { for (int a = 1; a <= sp.sides() + sp.nif; ++a) { at.push_back(a); } }
      double s = 0;
      for (int a : at)
      {
         boundary(a, [](const FiniteElement &fe, FaceElementTransformations &T) { return fe.GetOrder() + T.OrderW(); }, [&](int m, double) { return sp.kappa[m]; },
                  [&](const Side &x, double w, const Vector &, Vector &) { s -= w * x.k * x.un; });
      }
      return gsum(s);
   }
};
}  // namespace pdesim
#endif
