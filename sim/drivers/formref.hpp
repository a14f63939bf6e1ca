// Weak forms from their definition, on a copy of the mesh: interior-penalty
// terms of a diffusion with a coefficient k(attribute, |grad u|), and the heat
// equation with its boundary and interface conditions.
#ifndef VERIF_FORMREF_HPP
#define VERIF_FORMREF_HPP
#include "pdecommon.hpp"

namespace pdesim
{
using Coeff = std::function<double(int, double)>;
/// state, mesh and assembled form of one evaluation
struct Form
{
   Sol &so;
   const Spec &sp;
   ParMesh pm;
   ParFiniteElementSpace mf, sf;
   ParGridFunction X, A, G;
   ParLinearForm lf, la;
   std::vector<int> fattr;
   Form(Sol &s, const Op &op) : so(s), sp(s.sp), pm(*s.pm), mf(*s.mfes, pm), sf(*s.fes, pm), X(&mf), A(&sf), G(&sf), lf(&sf), la(&sf)
   {
      fattr = faceAttributes(&pm);
      X.SetFromTrueDofs(so.mc[size_t(op.m)]);
      pm.SetNodes(X);
      A.SetFromTrueDofs(so.st[size_t(op.u)]);
      G.SetFromTrueDofs(so.st[size_t(op.bc)]);
      lf = 0.0;
      la = 0.0;
   }
   void put(const Array<int> &vd, const Vector &ev)
   {
      Vector ea(ev.Size());
      for (int i = 0; i < ev.Size(); ++i) { ea(i) = std::fabs(ev(i)); }
      lf.AddElementVector(vd, ev);
      la.AddElementVector(vd, ea);
   }
   void done(Vector &res, Vector &size)
   {
      res.SetSize(sf.GetTrueVSize());
      size.SetSize(sf.GetTrueVSize());
      lf.ParallelAssemble(res);
      la.ParallelAssemble(size);
   }
   /// one side of a face at an integration point
   struct Side
   {
      Vector sh, dn, gr;
      double u = 0, un = 0, g = 0, k = 0, J = 1;
      void at(const FiniteElement &fe, ElementTransformation &tr, const IntegrationPoint &ip, const Vector &a, const Vector &nor, const Coeff &kf)
      {
         int nd = fe.GetDof(), dim = fe.GetDim();
         DenseMatrix D(nd, dim);
         sh.SetSize(nd);
         dn.SetSize(nd);
         gr.SetSize(dim);
         tr.SetIntPoint(&ip);
         fe.CalcShape(ip, sh);
         fe.CalcPhysDShape(tr, D);
         D.MultTranspose(a, gr);
         D.Mult(nor, dn);
         u = sh * a;
         un = gr * nor;
         k = kf(tr.Attribute, gr.Norml2());
         J = tr.Weight();
      }
   };
   /// boundary faces with the attribute: the face's rule, its points with the measure-weighted normal
   void boundary(int attr, const std::function<int(const FiniteElement &, FaceElementTransformations &)> &order, const Coeff &kf,
                 const std::function<void(const Side &, double w, const Vector &nor, Vector &ev)> &f, const ParGridFunction *val = nullptr)
   {
      int dim = sp.ms.dim;
      for (int b = 0; b < pm.GetNBE(); ++b)
      {
         if (pm.GetBdrAttribute(b) != attr) { continue; }
         FaceElementTransformations *T = pm.GetBdrFaceTransformations(b);
         if (!T) { continue; }
         int e = T->Elem1No;
         const FiniteElement &fe = *sf.GetFE(e);
         Array<int> vd;
         sf.GetElementVDofs(e, vd);
         Vector a, ga, ev(fe.GetDof()), nor(dim);
         A.GetSubVector(vd, a);
         if (val) { val->GetSubVector(vd, ga); }
         ev = 0.0;
         const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), order(fe, *T));
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            T->SetAllIntPoints(&ir.IntPoint(q));
            CalcOrtho(T->Jacobian(), nor);
            Side s;
            IntegrationPoint ip = T->GetElement1IntPoint();
            s.at(fe, *T->Elem1, ip, a, nor, kf);
            if (val) { s.g = s.sh * ga; }
            f(s, ir.IntPoint(q).weight, nor, ev);
         }
         put(vd, ev);
      }
   }
   /// weakly imposed value: consistent, symmetric and penalised
   void weakValue(int attr, double mu, const Coeff &kf)
   {
      boundary(attr, [](const FiniteElement &fe, FaceElementTransformations &) { return 2 * fe.GetOrder() + (fe.Space() == FunctionSpace::Pk ? 0 : fe.GetDim()); }, kf,
               [&](const Side &s, double w, const Vector &nor, Vector &ev) {
                  ev.Add(-w * s.k * s.un, s.sh);
                  ev.Add(-w * s.k * (s.u - s.g), s.dn);
                  ev.Add(w * s.k * mu * (nor * nor) / s.J * (s.u - s.g), s.sh);
               }, &G);
   }
   /// faces between elements, on this rank or between two; f gets both sides, the face's attribute and the two vectors
   void interior(const std::function<int(int, FaceElementTransformations &)> &order, const Coeff &kf,
                 const std::function<bool(int)> &take, const std::function<void(const Side &, const Side &, double w, const Vector &nor, int attr, Vector &, Vector &)> &f)
   {
      int dim = sp.ms.dim, ne = pm.GetNE();
      pm.ExchangeFaceNbrData();
      pm.ExchangeFaceNbrNodes();
      sf.ExchangeFaceNbrData();
      A.ExchangeFaceNbrData();
      auto face = [&](FaceElementTransformations *T, int fno, bool shared) {
         if (!T || !take(fattr[size_t(fno)])) { return; }
         int e1 = T->Elem1No, e2 = T->Elem2No;
         const FiniteElement &f1 = *sf.GetFE(e1), &f2 = shared ? *sf.GetFaceNbrFE(e2 - ne) : *sf.GetFE(e2);
         Array<int> v1, v2;
         Vector a1, a2, x1(f1.GetDof()), x2(f2.GetDof()), nor(dim);
         sf.GetElementVDofs(e1, v1);
         A.GetSubVector(v1, a1);
         if (shared) { sf.GetFaceNbrElementVDofs(e2 - ne, v2); A.FaceNbrData().GetSubVector(v2, a2); }
         else { sf.GetElementVDofs(e2, v2); A.GetSubVector(v2, a2); }
         x1 = 0.0;
         x2 = 0.0;
         const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), order(std::max(f1.GetOrder(), f2.GetOrder()), *T));
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            T->SetAllIntPoints(&ir.IntPoint(q));
            CalcOrtho(T->Jacobian(), nor);
            IntegrationPoint i1 = T->GetElement1IntPoint(), i2 = T->GetElement2IntPoint();
            Side s1, s2;
            s1.at(f1, *T->Elem1, i1, a1, nor, kf);
            s2.at(f2, *T->Elem2, i2, a2, nor, kf);
            f(s1, s2, ir.IntPoint(q).weight, nor, fattr[size_t(fno)], x1, x2);
         }
         put(v1, x1);
         if (!shared) { put(v2, x2); }
      };
      for (int i = 0; i < pm.GetNumFaces(); ++i) { face(pm.GetInteriorFaceTransformations(i), i, false); }
      for (int i = 0; i < pm.GetNSharedFaces(); ++i) { face(pm.GetSharedFaceTransformations(i), pm.GetSharedFace(i), true); }
   }
   /// symmetric interior penalty on the faces taken
   void interiorPenalty(double mu, const Coeff &kf, const std::function<bool(int)> &take)
   {
      interior([](int p, FaceElementTransformations &) { return 2 * p; }, kf, take, [&](const Side &s1, const Side &s2, double w, const Vector &nor, int, Vector &x1, Vector &x2) {
         double flux = 0.5 * (s1.k * s1.un + s2.k * s2.un), jump = s1.u - s2.u;
         double pen = 0.5 * mu * (nor * nor) * (s1.k / s1.J + s2.k / s2.J);
         x1.Add(w * (pen * jump - flux), s1.sh);
         x2.Add(-w * (pen * jump - flux), s2.sh);
         x1.Add(-0.5 * w * jump * s1.k, s1.dn);
         x2.Add(-0.5 * w * jump * s2.k, s2.dn);
      });
   }
};
/// the residual of the heat equation, unknown by unknown, and the size of its terms
inline void refHeat(Sol &so, const Op &op, Vector &res, Vector &size)
{
   const Spec &sp = so.sp;
   Form F(so, op);
   auto &pm = F.pm;
   auto &sf = F.sf;
   int dim = sp.ms.dim;
   Coeff k = [&](int at, double) { return sp.kappa[at]; };
   auto input = [&](const std::string &n) {
      for (size_t i = 0; i < sp.scal.size(); ++i) { if (sp.scal[i] == n) { return op.sc[i]; } }
      return 0.0;
   };
   for (int e = 0; e < pm.GetNE(); ++e)
   {
      IsoparametricTransformation tr;
      pm.GetElementTransformation(e, &tr);
      const FiniteElement &fe = *sf.GetFE(e);
      int nd = fe.GetDof(), p = fe.GetOrder();
      Array<int> vd;
      sf.GetElementVDofs(e, vd);
      Vector a, ev(nd), g(dim);
      F.A.GetSubVector(vd, a);
      DenseMatrix D(nd, dim);
      ev = 0.0;
      const IntegrationRule &ir = IntRules.Get(tr.GetGeometryType(), fe.Space() == FunctionSpace::Pk ? 2 * p : 2 * p + dim - 1);
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         const IntegrationPoint &ip = ir.IntPoint(q);
         tr.SetIntPoint(&ip);
         fe.CalcPhysDShape(tr, D);
         D.MultTranspose(a, g);
         D.AddMult_a(ip.weight * tr.Weight() * sp.kappa[pm.GetAttribute(e)], g, ev);
      }
      F.put(vd, ev);
   }
   auto bdrRule = [](const FiniteElement &fe, FaceElementTransformations &T) { return 2 * fe.GetOrder() + T.OrderW(); };
   if (sp.conv)
   {
      double h = input("h"), tf = input("fluid_temp");
      F.boundary(sp.conv, bdrRule, k, [&](const Form::Side &s, double w, const Vector &nor, Vector &ev) { ev.Add(w * nor.Norml2() * h * (s.u - tf), s.sh); });
   }
   if (sp.out)
   {
      F.boundary(sp.out, bdrRule, k, [&](const Form::Side &s, double w, const Vector &nor, Vector &ev) { ev.Add(w * nor.Norml2() * sp.flux, s.sh); });
   }
   for (int b : sp.weak) { F.weakValue(b, sp.sipg, k); }
   if (sp.dg)
   {
      auto isIf = [&](int a) { return a > sp.sides() && a <= sp.sides() + sp.nif; };
      // an interface carries its own condition in place of continuity
      F.interiorPenalty(sp.sipg, k, [&](int a) { return !isIf(a); });
      for (int i = 0; i < sp.nif; ++i)
      {
         double h = input("h:" + sp.ifName[i]);
         bool tcr = sp.ifKind[i] != "convection";
         double tf = tcr ? 0.0 : input("fluid_temp:" + sp.ifName[i]);
         F.interior([&](int p, FaceElementTransformations &T) { return 2 * p + (tcr ? 0 : T.OrderW()); }, k, [&](int a) { return a == sp.sides() + 1 + i; },
                    [&](const Form::Side &s1, const Form::Side &s2, double w, const Vector &nor, int, Vector &x1, Vector &x2) {
                       w *= nor.Norml2() * h;
                       if (tcr)
                       {
                          x1.Add(w * (s1.u - s2.u), s1.sh);
                          x2.Add(w * (s2.u - s1.u), s2.sh);
                       }
                       else
                       {
                          x1.Add(w * (s1.u - tf), s1.sh);
                          x2.Add(w * (s2.u - tf), s2.sh);
                       }
                    });
      }
   }
   F.done(res, size);
   if (sp.load)
   {
      const Vector &l = so.ld[size_t(op.ld)];
      for (int i = 0; i < res.Size(); ++i) { res(i) -= l(i); size(i) += std::fabs(l(i)); }
   }
}
}  // namespace pdesim
#endif
