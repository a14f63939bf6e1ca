// The magnetostatic residual from its definition: currents, magnets and
// reluctivity evaluated by the driver on a copy of the mesh.
#ifndef VERIF_MAGREF_HPP
#define VERIF_MAGREF_HPP
#include "formref.hpp"

namespace pdesim
{
/// B-spline by the Cox-de Boor recursion
inline double spline(const std::vector<double> &c, const std::vector<double> &k, int deg, double x)
{
   int n = int(c.size());
   std::vector<double> b(k.size() - 1, 0.0);
   for (size_t i = 0; i + 1 < k.size(); ++i) { b[i] = (x >= k[i] && x < k[i + 1]) || (x == k.back() && k[i] < k[i + 1] && k[i + 1] == k.back()) ? 1.0 : 0.0; }
   for (int d = 1; d <= deg; ++d)
   {
      for (size_t i = 0; i + size_t(d) + 1 < k.size(); ++i)
      {
         double l = k[i + size_t(d)] - k[i], r = k[i + size_t(d) + 1] - k[i + 1];
         b[i] = (l > 0 ? (x - k[i]) / l * b[i] : 0.0) + (r > 0 ? (k[i + size_t(d) + 1] - x) / r * b[i + 1] : 0.0);
      }
   }
   double s = 0;
   for (int i = 0; i < n; ++i) { s += c[size_t(i)] * b[size_t(i)]; }
   return s;
}
inline double refNu(const Spec &sp, int attr, double b)
{
   if (!(sp.nonlinear && attr == 1)) { return sp.mag.nu[attr]; }
   const double nu0 = 1 / (4e-7 * M_PI), bmax = 8.0;
   const auto &m = sp.mag;
   if (m.model == "lognu") { return b <= bmax ? std::exp(spline(m.cps, m.knots, 3, b)) : nu0; }
   if (m.model == "bh")
   {
      if (b > bmax) { return m.cps.back() / b + nu0 * (1 - bmax / b); }
      if (b < 1e-9) { b = 1e-9; }
      return spline(m.cps, m.knots, 3, b) / b;
   }
   return 0;
}
/// unit current density of a group
inline void refCurrent(const std::string &s, const Vector &x, double slots, double stack, double *J)
{
   J[0] = J[1] = J[2] = 0;
   double r = std::hypot(x(0), x(1));
   if (s == "x") { J[0] = 1; }
   else if (s == "y") { J[1] = 1; }
   else if (s == "z") { J[2] = 1; }
   else if (s == "-z") { J[2] = -1; }
   else if (s == "box1") { J[2] = -6 * (x(1) - 0.5); }
   else if (s == "box2") { J[2] = 6 * (x(1) - 0.5); }
   else if (s == "ring") { J[0] = -x(1) / r; J[1] = x(0) / r; }
   else if (s == "team13")
   {
      const double c = 0.075;
      double X = x(0), Y = x(1);
      if (std::fabs(Y) <= c) { J[1] = X > 0 ? 1 : -1; }
      else if (std::fabs(X) <= c) { J[0] = Y > 0 ? -1 : 1; }
      else
      {
         double cx = X > 0 ? c : -c, cy = Y > 0 ? c : -c, d = std::hypot(X - cx, Y - cy);
         J[0] = -(Y - cy) / d;
         J[1] = (X - cx) / d;
      }
   }
   else
   {
      int n = int(slots);
      double w = 2 * M_PI / n, a = std::atan2(x(1), x(0)), k = std::round(a / w), th = a - k * w;
      double sgn = s == "ccwStator" ? 1 : -1;
      if (std::fabs(x(2)) <= stack / 2) { J[2] = sgn * (th > 0 ? -1 : th < 0 ? 1 : 0); return; }
      double z = x(2) > 0 ? x(2) - stack / 2 : x(2) + stack / 2, ax = std::cos(k * w), ay = std::sin(k * w);
      double v[3] = {-z * ay, z * ax, x(0) * ay - x(1) * ax}, nv = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
      for (int d = 0; d < 3; ++d) { J[d] = sgn * v[d] / nv; }
   }
}
inline void refMagnet(const Magnet &g, const Vector &x, double T, double *M)
{
   double br = g.Br * (1 + g.alpha / 100 * (T - g.Tref)), r = std::hypot(x(0), x(1));
   double d[3] = {0, 0, 0};
   if (g.dir == "north") { d[0] = x(0) / r; d[1] = x(1) / r; }
   else if (g.dir == "south") { d[0] = -x(0) / r; d[1] = -x(1) / r; }
   else if (g.dir == "cw") { d[0] = -x(1) / r; d[1] = x(0) / r; }
   else if (g.dir == "ccw") { d[0] = x(1) / r; d[1] = -x(0) / r; }
   else if (g.dir == "x") { d[0] = 1; }
   else if (g.dir == "y") { d[1] = 1; }
   else if (g.dir == "z") { d[2] = 1; }
   for (int k = 0; k < 3; ++k) { M[k] = br * d[k]; }
}
/// residual on the true dofs; size: sum of absolute element contributions
inline void refResidual(Sol &so, const Op &op, Vector &res, Vector &size)
{
   const Spec &sp = so.sp;
   ParMesh pm(*so.pm);
   ParFiniteElementSpace mf(*so.mfes, pm), sf(*so.fes, pm);
   ParGridFunction X(&mf), A(&sf);
   X.SetFromTrueDofs(so.mc[size_t(op.m)]);
   pm.SetNodes(X);
   A.SetFromTrueDofs(so.st[size_t(op.u)]);
   std::unique_ptr<ParFiniteElementSpace> tf;
   std::unique_ptr<ParGridFunction> T;
   if (sp.load)
   {
      tf = std::make_unique<ParFiniteElementSpace>(*so.lfes, pm);
      T = std::make_unique<ParGridFunction>(tf.get());
      T->SetFromTrueDofs(so.ld[size_t(op.ld)]);
   }
   double slots = 24, stack = 0.345;
   for (size_t i = 0; i < sp.scal.size(); ++i)
   {
      if (sp.scal[i] == "n_slots") { slots = op.sc[i]; }
      if (sp.scal[i] == "stack_length") { stack = op.sc[i]; }
   }
   int dim = sp.ms.dim;
   ParLinearForm lf(&sf), la(&sf);
   lf = 0.0;
   la = 0.0;
   for (int e = 0; e < pm.GetNE(); ++e)
   {
      int at = pm.GetAttribute(e);
      IsoparametricTransformation tr;
      pm.GetElementTransformation(e, &tr);
      const FiniteElement &fe = *sf.GetFE(e);
      int nd = fe.GetDof(), p = fe.GetOrder();
      bool pk = fe.Space() == FunctionSpace::Pk;
      Array<int> vd;
      DofTransformation *dt = sf.GetElementVDofs(e, vd);
      Vector a, ev(nd), ea(nd), x(dim);
      A.GetSubVector(vd, a);
      if (dt) { dt->InvTransformPrimal(a); }
      ev = 0.0;
      auto rule = [&](int o, const std::function<void(const IntegrationPoint &)> &f) {
         const IntegrationRule &ir = IntRules.Get(tr.GetGeometryType(), o);
         for (int q = 0; q < ir.GetNPoints(); ++q) { tr.SetIntPoint(&ir.IntPoint(q)); f(ir.IntPoint(q)); }
      };
      if (dim == 2)
      {
         DenseMatrix D(nd, 2);
         Vector g(2), sh(nd);
         rule(pk ? 2 * p : 2 * p + 1, [&](const IntegrationPoint &ip) {
            fe.CalcPhysDShape(tr, D);
            D.MultTranspose(a, g);
            double w = ip.weight * tr.Weight() * refNu(sp, at, g.Norml2());
            for (int i = 0; i < nd; ++i) { ev(i) += w * (g(0) * D(i, 0) + g(1) * D(i, 1)); }
         });
         rule(2 * p - 2, [&](const IntegrationPoint &ip) {
            double J[3];
            tr.Transform(ip, x);
            refCurrent(sp.mag.src[at], x, slots, stack, J);
            fe.CalcPhysShape(tr, sh);
            ev.Add(-op.sc[size_t(at - 1)] * J[2] * ip.weight * tr.Weight(), sh);
         });
         auto mg2 = sp.mag.magnet.find(at);
         if (mg2 != sp.mag.magnet.end())
         {
            rule(pk ? 2 * p - 1 : 2 * p + 1, [&](const IntegrationPoint &ip) {
               double M[3];
               tr.Transform(ip, x);
               refMagnet(mg2->second, x, T->GetValue(tr, ip), M);
               tr.SetIntPoint(&ip);
               fe.CalcPhysDShape(tr, D);
               double w = ip.weight * tr.Weight() * sp.mag.nu[at];
               for (int i = 0; i < nd; ++i) { ev(i) += w * (M[1] * D(i, 0) - M[0] * D(i, 1)); }
            });
         }
      }
      else
      {
         DenseMatrix C(nd, 3);
         Vector b(3);
         rule(pk ? 2 * p - 1 : 2 * p, [&](const IntegrationPoint &ip) {
            fe.CalcPhysCurlShape(tr, C);
            C.MultTranspose(a, b);
            double w = ip.weight * tr.Weight() * refNu(sp, at, b.Norml2());
            for (int i = 0; i < nd; ++i) { ev(i) += w * (b(0) * C(i, 0) + b(1) * C(i, 1) + b(2) * C(i, 2)); }
         });
      }
      auto mg = sp.mag.magnet.find(at);
      if (dim == 3 && mg != sp.mag.magnet.end())
      {
         DenseMatrix C(nd, 3);
         rule(2 * p, [&](const IntegrationPoint &ip) {
            double M[3];
            tr.Transform(ip, x);
            refMagnet(mg->second, x, 0.0, M);
            tr.SetIntPoint(&ip);
            fe.CalcPhysCurlShape(tr, C);
            double w = ip.weight * tr.Weight() * sp.mag.nu[at];
            for (int i = 0; i < nd; ++i) { ev(i) -= w * (M[0] * C(i, 0) + M[1] * C(i, 1) + M[2] * C(i, 2)); }
         });
      }
      for (int i = 0; i < nd; ++i) { ea(i) = std::fabs(ev(i)); }
      if (dt) { dt->TransformDual(ev); }
      lf.AddElementVector(vd, ev);
      Array<int> vp(vd);
      for (int i = 0; i < vp.Size(); ++i) { if (vp[i] < 0) { vp[i] = -1 - vp[i]; } }
      la.AddElementVector(vp, ea);
   }
   res.SetSize(sf.GetTrueVSize());
   size.SetSize(sf.GetTrueVSize());
   lf.ParallelAssemble(res);
   la.ParallelAssemble(size);
   if (dim == 2)
   {
      Form F(so, op);
      Coeff k = [&](int at, double b) { return refNu(sp, at, b); };
      for (int b : sp.weak) { F.weakValue(b, sp.sipg, k); }
      if (sp.dg) { F.interiorPenalty(sp.sipg, k, [](int) { return true; }); }
      Vector fr, fz;
      F.done(fr, fz);
      res += fr;
      size += fz;
      return;
   }
   // the divergence-free part of the current, as a dual vector
   int p = 1;
   H1_FECollection hc(p, 3);
   ParFiniteElementSpace h1(&pm, &hc);
   ParBilinearForm M(&sf), K(&h1);
   ParMixedBilinearForm W(&sf, &h1);
   ParDiscreteLinearOperator G(&h1, &sf);
   VectorFunctionCoefficient cur[2] = {{3, [&](const Vector &y, Vector &v) { refCurrent(sp.mag.src[1], y, slots, stack, v.GetData()); v *= op.sc[0]; }},
                                       {3, [&](const Vector &y, Vector &v) { refCurrent(sp.mag.src[2], y, slots, stack, v.GetData()); v *= op.sc[1]; }}};
   ParLinearForm b(&sf);
   Array<int> m1(2), m2(2);
   m1 = 0; m2 = 0; m1[0] = 1; m2[1] = 1;
   Array<int> a1(pm.attributes.Max()), a2(pm.attributes.Max());
   for (int i = 0; i < a1.Size(); ++i) { a1[i] = i == 0; a2[i] = i == 1; }
   b.AddDomainIntegrator(new mfem::VectorFEDomainLFIntegrator(cur[0]), a1);
   b.AddDomainIntegrator(new mfem::VectorFEDomainLFIntegrator(cur[1]), a2);
   b.Assemble();
   M.AddDomainIntegrator(new mfem::VectorFEMassIntegrator);
   M.Assemble();
   M.Finalize();
   // the rule of the first element of this rank, as everywhere
   const IntegrationRule *ir = nullptr;
   {
      int o = pm.GetNE() ? h1.GetElementTransformation(0)->OrderW() + 2 * p : 2 * p;
      int g = pm.GetNE() ? h1.GetFE(0)->GetGeomType() : Geometry::TETRAHEDRON;
      ir = &IntRules.Get(g, o);
   }
   auto *di = new mfem::DiffusionIntegrator;
   di->SetIntRule(ir);
   K.AddDomainIntegrator(di);
   K.Assemble();
   K.Finalize();
   auto *wi = new mfem::VectorFEWeakDivergenceIntegrator;
   wi->SetIntRule(ir);
   W.AddDomainIntegrator(wi);
   W.Assemble();
   W.Finalize();
   G.AddDomainInterpolator(new GradientInterpolator);
   G.Assemble();
   G.Finalize();
   std::unique_ptr<HypreParMatrix> Mh(M.ParallelAssemble()), Kh(K.ParallelAssemble()), Wh(W.ParallelAssemble()), Gh(G.ParallelAssemble());
   Vector rb(sf.GetTrueVSize()), j(sf.GetTrueVSize()), d(h1.GetTrueVSize()), psi(h1.GetTrueVSize());
   b.ParallelAssemble(rb);
   auto solve = [&](HypreParMatrix &m, const Vector &r, Vector &y) {
      y = 0.0;
      CGSolver cg(MPI_COMM_WORLD);
      cg.SetRelTol(1e-14);
      cg.SetAbsTol(0.0);
      cg.SetMaxIter(2000);
      cg.SetOperator(m);
      cg.Mult(r, y);
   };
   solve(*Mh, rb, j);
   Wh->Mult(j, d);
   d *= -1.0;
   Array<int> all(pm.bdr_attributes.Size() ? pm.bdr_attributes.Max() : 0), et;
   all = 1;
   h1.GetEssentialTrueDofs(all, et);
   for (int i = 0; i < et.Size(); ++i) { d(et[i]) = 0.0; }
   std::unique_ptr<HypreParMatrix> Ke(Kh->EliminateRowsCols(et));
   solve(*Kh, d, psi);
   Vector gp(j.Size()), ml(j.Size());
   Gh->Mult(psi, gp);
   j -= gp;
   Mh->Mult(j, ml);
   res -= ml;
   for (int i = 0; i < ml.Size(); ++i) { size(i) += std::fabs(ml(i)) + std::fabs(rb(i)); }
}
}  // namespace pdesim
#endif
