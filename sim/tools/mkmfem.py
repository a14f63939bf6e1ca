#!/usr/bin/env python3
"""Make a copy of the installed MFEM headers that also declares the parts of
MISO's own MFEM fork which the uncompiled MISO sources use. Only non-virtual
inline members and move constructors are added: the layout of every class and
every virtual table stay those of the installed libmfem, which is what runs.

usage: mkmfem.py DEST   ->  DEST/mfem.hpp, DEST/mfem/...
"""
import os, shutil, sys

dest = sys.argv[1]
src = '/usr/include/mfem'
if os.path.isdir(dest):
    shutil.rmtree(dest)
os.makedirs(dest)
shutil.copytree(src, dest + '/mfem')
shutil.copy('/usr/include/mfem.hpp', dest + '/mfem_orig.hpp')
with open(dest + '/mfem.hpp', 'w') as f:
    f.write('''#ifndef VERIF_MFEM_COMPAT
#define VERIF_MFEM_COMPAT
#include <any>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
#include "nlohmann/json.hpp"
#include "mfem_orig.hpp"
// The fork has virtual functions the installed MFEM lacks; MISO marks its
// versions "override".
#define override
namespace mfem
{
// Jt_bar-free reverse mode of CalcOrtho for 2D (segment) and 3D (face)
inline void CalcOrthoRevDiff(const DenseMatrix &J, const Vector &n_bar, DenseMatrix &J_bar)
{
   J_bar = 0.0;
   if (J.Height() == 2)
   {
      J_bar(1, 0) += n_bar(0);
      J_bar(0, 0) -= n_bar(1);
   }
   else
   {
      J_bar(1, 0) += n_bar(0) * J(2, 1);  J_bar(2, 1) += n_bar(0) * J(1, 0);
      J_bar(2, 0) -= n_bar(0) * J(1, 1);  J_bar(1, 1) -= n_bar(0) * J(2, 0);
      J_bar(2, 0) += n_bar(1) * J(0, 1);  J_bar(0, 1) += n_bar(1) * J(2, 0);
      J_bar(0, 0) -= n_bar(1) * J(2, 1);  J_bar(2, 1) -= n_bar(1) * J(0, 0);
      J_bar(0, 0) += n_bar(2) * J(1, 1);  J_bar(1, 1) += n_bar(2) * J(0, 0);
      J_bar(1, 0) -= n_bar(2) * J(0, 1);  J_bar(0, 1) -= n_bar(2) * J(1, 0);
   }
}
}
#endif
''')

def edit(path, pairs):
    p = dest + '/mfem/' + path
    s = open(p).read()
    for old, new in pairs:
        if s.count(old) < 1:
            sys.exit('mkmfem: anchor not found in %s: %r' % (path, old))
        s = s.replace(old, new, 1)
    open(p, 'w').write(s)

# terms on internal boundaries: interior faces on which a boundary element lies
open(dest + '/mfem/fem/internal_faces.hpp', 'w').write('''#ifndef VERIF_INTERNAL_FACES
#define VERIF_INTERNAL_FACES
#include <functional>
#include <stdexcept>
#include <vector>
namespace mfem
{
class Mesh;
/// attribute of the boundary element on each local face (0: none); collective
inline std::function<std::vector<int>(Mesh *)> InternalFaceAttributes;
inline std::vector<int> internalFaceAttributes(Mesh *m)
{
   if (!InternalFaceAttributes) { throw std::runtime_error("not available in the installed MFEM"); }
   return InternalFaceAttributes(m);
}
}
#endif
''')

THROW = 'throw std::runtime_error("not available in the installed MFEM");'

edit('fem/eltrans.hpp', [
 ('class IsoparametricTransformation : public ElementTransformation\n{\n',
  '''class IsoparametricTransformation : public ElementTransformation
{
public:
   // ---- declared by MISO's MFEM fork
   void JacobianRevDiff(const DenseMatrix &J_bar, DenseMatrix &PM_bar)
   {
      DenseMatrix ds(FElem->GetDof(), FElem->GetDim());
      FElem->CalcDShape(GetIntPoint(), ds);
      for (int i = 0; i < J_bar.Height(); ++i)
         for (int j = 0; j < J_bar.Width(); ++j)
            for (int k = 0; k < ds.Height(); ++k)
               PM_bar(i, k) += J_bar(i, j) * ds(k, j);
   }
   void WeightRevDiff(double w_bar, DenseMatrix &PM_bar)
   {
      const DenseMatrix &J = Jacobian();
      DenseMatrix J_bar(J.Height(), J.Width());
      if (J.Height() == J.Width())
      {
         DenseMatrix adj(J.Height());
         CalcAdjugate(J, adj);
         for (int i = 0; i < J.Height(); ++i)
            for (int j = 0; j < J.Width(); ++j)
               J_bar(i, j) = w_bar * adj(j, i);
      }
      else
      {
         DenseMatrix G(J.Width()), Gi(J.Width());
         MultAtB(J, J, G);
         CalcInverse(G, Gi);
         mfem::Mult(J, Gi, J_bar);
         J_bar *= w_bar * Weight();
      }
      JacobianRevDiff(J_bar, PM_bar);
   }
   void WeightRevDiff(DenseMatrix &PM_bar) { WeightRevDiff(1.0, PM_bar); }
   void AdjugateJacobianRevDiff(const DenseMatrix &A_bar, DenseMatrix &PM_bar)
   {
      DenseMatrix J(Jacobian());
      int n = J.Height();
      DenseMatrix J_bar(n), P(n), M(n);
      if (n == 1) { return; }
      for (int p = 0; p < n; ++p)
         for (int q = 0; q < n; ++q)
         {
            // the adjugate is at most quadratic: a unit central difference is exact
            double keep = J(p, q);
            J(p, q) = keep + 1.0; CalcAdjugate(J, P);
            J(p, q) = keep - 1.0; CalcAdjugate(J, M);
            J(p, q) = keep;
            double s = 0.0;
            for (int i = 0; i < n; ++i)
               for (int j = 0; j < n; ++j)
                  s += A_bar(i, j) * 0.5 * (P(i, j) - M(i, j));
            J_bar(p, q) = s;
         }
      JacobianRevDiff(J_bar, PM_bar);
   }
   void InverseJacobianRevDiff(const DenseMatrix &I_bar, DenseMatrix &PM_bar)
   {
      const DenseMatrix &I = InverseJacobian();
      int n = I.Height();
      DenseMatrix T(n), J_bar(n);
      // J_bar = -I^T I_bar I^T
      MultAtB(I, I_bar, T);
      MultABt(T, I, J_bar);
      J_bar *= -1.0;
      JacobianRevDiff(J_bar, PM_bar);
   }
   // ----
'''),
])
p = dest + '/mfem/fem/eltrans.hpp'
s = open(p).read()
i = s.rindex('}\n\n#endif')
s = s[:i] + '''inline IsoparametricTransformation &RevDiffIso(ElementTransformation &T) { return dynamic_cast<IsoparametricTransformation &>(T); }
''' + s[i:]
open(p, 'w').write(s)
edit('fem/coefficient.hpp', [
 ('class Coefficient\n{\nprotected:\n   double time;\n\npublic:\n',
  'class Coefficient\n{\nprotected:\n   double time;\n\npublic:\n'
  '   // ---- virtual in MISO\'s MFEM fork; here it finds the type at run time\n'
  '   static inline bool (*RevDiffHook)(Coefficient *, double, ElementTransformation &, const IntegrationPoint &, DenseMatrix &) = nullptr;\n'
  '   void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar);\n'),
 ('class VectorCoefficient\n{\nprotected:\n   int vdim;\n   double time;\n\npublic:\n',
  'class VectorCoefficient\n{\nprotected:\n   int vdim;\n   double time;\n\npublic:\n'
  '   static inline bool (*RevDiffHook)(VectorCoefficient *, const Vector &, ElementTransformation &, const IntegrationPoint &, DenseMatrix &) = nullptr;\n'
  '   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar);\n'),
 ('   /// Define a time-independent coefficient from a std function\n   /** \\param F time-independent std::function */\n',
  """   struct RevWrap
   {
      std::function<double(const Vector &)> f;
      std::function<void(const Vector &, double, Vector &)> rev;
      double operator()(const Vector &x) const { return f(x); }
   };
   const RevWrap *GetRev() const { return Function.target<RevWrap>(); }
   template <class RevF> FunctionCoefficient(std::function<double(const Vector &)> F, RevF R) : Function(RevWrap{std::move(F), R}) { }
"""
  '   /// Define a time-independent coefficient from a std function\n   /** \\param F time-independent std::function */\n'),
 ('   /// Define a time-dependent vector coefficient from a std function\n   /** \\param dim - the size of the vector\n       \\param TDF',
  """   struct RevWrap
   {
      std::function<void(const Vector &, Vector &)> f;
      std::function<void(const Vector &, const Vector &, Vector &)> rev;
      void operator()(const Vector &x, Vector &v) const { f(x, v); }
   };
   const RevWrap *GetRev() const { return Function.target<RevWrap>(); }
   template <class RevF, class = decltype(std::declval<RevF>()(std::declval<const Vector &>(), std::declval<const Vector &>(), std::declval<Vector &>()))>
   VectorFunctionCoefficient(int dim, std::function<void(const Vector &, Vector &)> F, RevF R) : VectorCoefficient(dim), Function(RevWrap{std::move(F), R}), Q(nullptr) { }
"""
  '   /// Define a time-dependent vector coefficient from a std function\n   /** \\param dim - the size of the vector\n       \\param TDF'),
])
p = dest + '/mfem/fem/coefficient.hpp'
s = open(p).read()
i = s.rindex('}\n\n#endif')
s = s[:i] + """
inline void RevDiffPoint(const Vector &x_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
{
   auto &iso = dynamic_cast<IsoparametricTransformation &>(T);
   Vector shape(iso.GetFE()->GetDof());
   iso.GetFE()->CalcShape(ip, shape);
   for (int d = 0; d < x_bar.Size(); ++d)
      for (int j = 0; j < shape.Size(); ++j)
         PointMat_bar(d, j) += x_bar(d) * shape(j);
}
inline void Coefficient::EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
{
   if (RevDiffHook && RevDiffHook(this, Q_bar, T, ip, PointMat_bar)) { return; }
   if (dynamic_cast<ConstantCoefficient *>(this) || dynamic_cast<GridFunctionCoefficient *>(this)) { return; }
   if (auto *f = dynamic_cast<FunctionCoefficient *>(this))
   {
      if (f->GetRev())
      {
         double xd[3] = {0, 0, 0}, bd[3] = {0, 0, 0};
         Vector x(xd, T.GetSpaceDim()), b(bd, T.GetSpaceDim());
         T.Transform(ip, x);
         f->GetRev()->rev(x, Q_bar, b);
         RevDiffPoint(b, T, ip, PointMat_bar);
         return;
      }
   }
   if (auto *p = dynamic_cast<ProductCoefficient *>(this))
   {
      double a = p->GetACoef() ? p->GetACoef()->Eval(T, ip) : p->GetAConst();
      double b = p->GetBCoef()->Eval(T, ip);
      if (p->GetACoef()) { p->GetACoef()->EvalRevDiff(Q_bar * b, T, ip, PointMat_bar); }
      p->GetBCoef()->EvalRevDiff(Q_bar * a, T, ip, PointMat_bar);
      return;
   }
   throw std::runtime_error("EvalRevDiff: coefficient type not available in the installed MFEM");
}
inline void VectorCoefficient::EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
{
   if (RevDiffHook && RevDiffHook(this, V_bar, T, ip, PointMat_bar)) { return; }
   if (dynamic_cast<VectorConstantCoefficient *>(this)) { return; }
   if (auto *f = dynamic_cast<VectorFunctionCoefficient *>(this))
   {
      if (f->GetRev())
      {
         double xd[3] = {0, 0, 0}, bd[3] = {0, 0, 0};
         Vector x(xd, T.GetSpaceDim()), b(bd, T.GetSpaceDim());
         T.Transform(ip, x);
         f->GetRev()->rev(x, V_bar, b);
         RevDiffPoint(b, T, ip, PointMat_bar);
         return;
      }
   }
   if (auto *p = dynamic_cast<ScalarVectorProductCoefficient *>(this))
   {
      double a = p->GetACoef() ? p->GetACoef()->Eval(T, ip) : p->GetAConst();
      Vector b(V_bar.Size()), bb(V_bar.Size());
      p->GetBCoef()->Eval(b, T, ip);
      if (p->GetACoef()) { p->GetACoef()->EvalRevDiff(b * V_bar, T, ip, PointMat_bar); }
      bb = V_bar; bb *= a;
      p->GetBCoef()->EvalRevDiff(bb, T, ip, PointMat_bar);
      return;
   }
   throw std::runtime_error("EvalRevDiff: vector coefficient type not available in the installed MFEM");
}
""" + s[i:]
open(p, 'w').write(s)
edit('fem/fe/fe_base.hpp', [
 ('class FiniteElement\n{\nprotected:\n',
  '''class IsoparametricTransformation;
IsoparametricTransformation &RevDiffIso(ElementTransformation &T);
class FiniteElement
{
public:
   template <class T> void CalcPhysShapeRevDiff(T &tr, const Vector &bar, DenseMatrix &PM_bar) const
   {
      if (map_type != INTEGRAL) { return; }
      auto &iso = RevDiffIso(tr);
      Vector sh(dof);
      CalcShape(iso.GetIntPoint(), sh);
      double w = iso.Weight(), d = 0.0;
      for (int i = 0; i < dof; ++i) { d += sh(i) * bar(i); }
      iso.WeightRevDiff(-d / (w * w), PM_bar);
   }
   template <class T> void CalcPhysCurlShapeRevDiff(T &tr, const DenseMatrix &bar, DenseMatrix &PM_bar) const
   {
      auto &iso = RevDiffIso(tr);
      if (dim == 3)
      {
         DenseMatrix cs(dof, 3);
         CalcCurlShape(iso.GetIntPoint(), cs);
         RevDiffPiola(iso, cs, bar, PM_bar);
      }
      else
      {
         DenseMatrix cs(dof, 1);
         CalcCurlShape(iso.GetIntPoint(), cs);
         double w = iso.Weight(), d = 0.0;
         for (int i = 0; i < dof; ++i) { d += cs(i, 0) * bar(i, 0); }
         iso.WeightRevDiff(-d / (w * w), PM_bar);
      }
   }
   template <class I> static void RevDiffPiola(I &iso, const DenseMatrix &ref, const DenseMatrix &bar, DenseMatrix &PM_bar)
   {
      // phys = ref J^T / w
      DenseMatrix J_bar(bar.Width(), ref.Width()), J(iso.Jacobian());
      double w = iso.Weight(), d = 0.0;
      J_bar = 0.0;
      for (int k = 0; k < ref.Height(); ++k)
         for (int i = 0; i < bar.Width(); ++i)
            for (int j = 0; j < ref.Width(); ++j)
            {
               J_bar(i, j) += bar(k, i) * ref(k, j) / w;
               d += bar(k, i) * ref(k, j) * J(i, j);
            }
      iso.JacobianRevDiff(J_bar, PM_bar);
      iso.WeightRevDiff(-d / (w * w), PM_bar);
   }
   template <class T> void CalcVShapeRevDiff(T &tr, const DenseMatrix &bar, DenseMatrix &PM_bar) const
   {
      auto &iso = RevDiffIso(tr);
      DenseMatrix vs(dof, dim);
      CalcVShape(iso.GetIntPoint(), vs);
      if (map_type == H_DIV) { RevDiffPiola(iso, vs, bar, PM_bar); return; }
      DenseMatrix I_bar(dim, bar.Width());
      I_bar = 0.0;
      for (int k = 0; k < dof; ++k)
         for (int i = 0; i < dim; ++i)
            for (int j = 0; j < bar.Width(); ++j) { I_bar(i, j) += vs(k, i) * bar(k, j); }
      iso.InverseJacobianRevDiff(I_bar, PM_bar);
   }
   template <class... A> void ProjectRevDiff(A &&...) const { ''' + THROW + ''' }
protected:
'''),
])
edit('fem/nonlininteg.hpp', [
 ('class NonlinearFormIntegrator\n{\n',
  '''class NonlinearFormIntegrator
{
public:
   // ---- virtual in MISO's MFEM fork; here the driver finds the type at run time
   static inline bool (*FaceEnergyHook)(NonlinearFormIntegrator *, const FiniteElement &, const FiniteElement &, FaceElementTransformations &, const Vector &, double &) = nullptr;
   static double FaceEnergy(NonlinearFormIntegrator *in, const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &x)
   {
      double e = 0.0;
      if (FaceEnergyHook && FaceEnergyHook(in, e1, e2, T, x, e)) { return e; }
      throw std::runtime_error("GetFaceEnergy: integrator type unknown to the driver");
   }
'''),
])
edit('fem/nonlinearform.hpp', [
 ('   double GetGridFunctionEnergy(const Vector &x) const;\n',
  '''   double GetGridFunctionEnergy(const Vector &x) const
   {
      Array<int> vdofs, vdofs2;
      Vector el_x;
      Mesh *mesh = fes->GetMesh();
      double energy = 0.0;
      if (dnfi.Size())
      {
         for (int i = 0; i < fes->GetNE(); i++)
         {
            const FiniteElement *fe = fes->GetFE(i);
            DofTransformation *dt = fes->GetElementVDofs(i, vdofs);
            ElementTransformation *T = fes->GetElementTransformation(i);
            x.GetSubVector(vdofs, el_x);
            if (dt) { dt->InvTransformPrimal(el_x); }
            for (int k = 0; k < dnfi.Size(); k++) { energy += dnfi[k]->GetElementEnergy(*fe, *T, el_x); }
         }
      }
      if (fnfi.Size())
      {
         for (int i = 0; i < mesh->GetNumFaces(); i++)
         {
            FaceElementTransformations *tr = mesh->GetInteriorFaceTransformations(i);
            if (!tr) { continue; }
            fes->GetElementVDofs(tr->Elem1No, vdofs);
            fes->GetElementVDofs(tr->Elem2No, vdofs2);
            vdofs.Append(vdofs2);
            x.GetSubVector(vdofs, el_x);
            for (int k = 0; k < fnfi.Size(); k++)
            {
               energy += NonlinearFormIntegrator::FaceEnergy(fnfi[k], *fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, el_x);
            }
         }
      }
      if (bfnfi.Size())
      {
         for (int i = 0; i < fes->GetNBE(); i++)
         {
            int attr = mesh->GetBdrAttribute(i);
            FaceElementTransformations *tr = mesh->GetBdrFaceTransformations(i);
            if (!tr) { continue; }
            fes->GetElementVDofs(tr->Elem1No, vdofs);
            x.GetSubVector(vdofs, el_x);
            for (int k = 0; k < bfnfi.Size(); k++)
            {
               if (bfnfi_marker[k] && (*bfnfi_marker[k])[attr - 1] == 0) { continue; }
               const FiniteElement *fe = fes->GetFE(tr->Elem1No);
               energy += NonlinearFormIntegrator::FaceEnergy(bfnfi[k], *fe, *fe, *tr, el_x);
            }
         }
      }
      return energy;
   }
'''),
])
edit('fem/pnonlinearform.hpp', [
 ('   double GetParGridFunctionEnergy(const Vector &x) const;\n',
  '''   double GetParGridFunctionEnergy(const Vector &x) const
   {
      double loc = GetGridFunctionEnergy(x), glob;
      MPI_Allreduce(&loc, &glob, 1, MPI_DOUBLE, MPI_SUM, ParFESpace()->GetComm());
      return glob;
   }
'''),
])
edit('fem/nonlinearform.hpp', [
 ('   /// Adds new Domain Integrator.\n',
  '''   // ---- declared by MISO's MFEM fork
   /// move: the moved-from form owns nothing afterwards
   NonlinearForm(NonlinearForm &&o)
    : Operator(o), assembly(o.assembly), ext(o.ext), fes(o.fes), dnfi(o.dnfi), fnfi(o.fnfi), bfnfi(o.bfnfi),
      bfnfi_marker(o.bfnfi_marker), Grad(o.Grad), cGrad(o.cGrad), hGrad(), ess_tdof_list(o.ess_tdof_list),
      sequence(o.sequence), P(o.P), cP(o.cP)
   {
      o.dnfi.SetSize(0); o.fnfi.SetSize(0); o.bfnfi.SetSize(0); o.bfnfi_marker.SetSize(0);
      o.ext = NULL; o.Grad = NULL; o.cGrad = NULL;
   }
   void AddDomainIntegrator(NonlinearFormIntegrator *nlfi, Array<int> &attr_marker);
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *);
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *, Array<int> &);
   // ----
   /// Adds new Domain Integrator.
'''),
 ('namespace mfem\n', '#include "internal_faces.hpp"\nnamespace mfem\n'),
 ('class NonlinearForm : public Operator\n',
  '''/// Restricts a domain integrator to marked element attributes.
class MarkedNonlinearFormIntegrator : public NonlinearFormIntegrator
{
   NonlinearFormIntegrator *in;
   Array<int> *mark;
   bool on(ElementTransformation &T) const { return T.Attribute >= 1 && T.Attribute <= mark->Size() && (*mark)[T.Attribute - 1] != 0; }
public:
   MarkedNonlinearFormIntegrator(NonlinearFormIntegrator *i, Array<int> &m) : in(i), mark(&m) { }
   ~MarkedNonlinearFormIntegrator() { delete in; }
   void AssembleElementVector(const FiniteElement &el, ElementTransformation &T, const Vector &f, Vector &v)
   { if (on(T)) { in->AssembleElementVector(el, T, f, v); } else { v.SetSize(f.Size()); v = 0.0; } }
   void AssembleElementGrad(const FiniteElement &el, ElementTransformation &T, const Vector &f, DenseMatrix &m)
   { if (on(T)) { in->AssembleElementGrad(el, T, f, m); } else { m.SetSize(f.Size()); m = 0.0; } }
   double GetElementEnergy(const FiniteElement &el, ElementTransformation &T, const Vector &f)
   { return on(T) ? in->GetElementEnergy(el, T, f) : 0.0; }
};
/// Restricts a face integrator to the faces of an internal boundary.
class InternalBoundaryNonlinearFormIntegrator : public NonlinearFormIntegrator
{
public:
   NonlinearFormIntegrator *in;
   Array<int> *mark;
   std::vector<int> attr;
   bool on(FaceElementTransformations &T) const
   {
      int a = T.ElementNo >= 0 && T.ElementNo < int(attr.size()) ? attr[size_t(T.ElementNo)] : 0;
      return a > 0 && (!mark || (a <= mark->Size() && (*mark)[a - 1] != 0));
   }
   InternalBoundaryNonlinearFormIntegrator(NonlinearFormIntegrator *i, Array<int> *m, Mesh *mesh) : in(i), mark(m), attr(internalFaceAttributes(mesh)) { }
   ~InternalBoundaryNonlinearFormIntegrator() { delete in; }
   void AssembleFaceVector(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &f, Vector &v)
   { if (on(T)) { in->AssembleFaceVector(e1, e2, T, f, v); } else { v.SetSize(f.Size()); v = 0.0; } }
   void AssembleFaceGrad(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, const Vector &f, DenseMatrix &m)
   { if (on(T)) { in->AssembleFaceGrad(e1, e2, T, f, m); } else { m.SetSize(f.Size()); m = 0.0; } }
};

class NonlinearForm : public Operator
'''),
])
p = dest + '/mfem/fem/nonlinearform.hpp'
s = open(p).read()
i = s.index('class BlockNonlinearForm')
i = s.rindex('/**', 0, i)
s = s[:i] + 'inline void NonlinearForm::AddDomainIntegrator(NonlinearFormIntegrator *nlfi, Array<int> &m) { dnfi.Append(new MarkedNonlinearFormIntegrator(nlfi, m)); }\n'\
    + 'inline void NonlinearForm::AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *n) { fnfi.Append(new InternalBoundaryNonlinearFormIntegrator(n, nullptr, fes->GetMesh())); }\n'\
    + 'inline void NonlinearForm::AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *n, Array<int> &m) { fnfi.Append(new InternalBoundaryNonlinearFormIntegrator(n, &m, fes->GetMesh())); }\n\n' + s[i:]
open(p, 'w').write(s)
edit('fem/pnonlinearform.hpp', [
 ('public:\n   ParNonlinearForm(ParFiniteElementSpace *pf);\n',
  '''public:
   ParNonlinearForm(ParFiniteElementSpace *pf);
   ParNonlinearForm(ParNonlinearForm &&o)
    : NonlinearForm(std::move(o)), pGrad(Operator::Hypre_ParCSR)
   {
      X.MakeRef(ParFESpace(), NULL);
      Y.MakeRef(ParFESpace(), NULL);
   }
'''),
])
edit('fem/linearform.hpp', [
 ('private:\n   /// Copy construction is not supported; body is undefined.\n   LinearForm(const LinearForm &);\n\npublic:\n',
  '''private:
   /// Copy construction is not supported; body is undefined.
   LinearForm(const LinearForm &);

public:
   // ---- declared by MISO's MFEM fork
   LinearForm(LinearForm &&o)
    : Vector(), fes(o.fes), ext(o.ext), fast_assembly(o.fast_assembly), extern_lfs(o.extern_lfs),
      domain_integs(o.domain_integs), domain_integs_marker(o.domain_integs_marker), domain_delta_integs(o.domain_delta_integs),
      boundary_integs(o.boundary_integs), boundary_integs_marker(o.boundary_integs_marker),
      boundary_face_integs(o.boundary_face_integs), boundary_face_integs_marker(o.boundary_face_integs_marker),
      interior_face_integs(o.interior_face_integs)
   {
      Vector::Swap(o);
      UseDevice(true);
      o.ext = nullptr;
      o.domain_integs.SetSize(0); o.domain_delta_integs.SetSize(0); o.boundary_integs.SetSize(0);
      o.boundary_face_integs.SetSize(0); o.interior_face_integs.SetSize(0);
      o.domain_integs_marker.SetSize(0); o.boundary_integs_marker.SetSize(0); o.boundary_face_integs_marker.SetSize(0);
   }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *n) { interior_face_integs.Append(new InternalBoundaryLinearFormIntegrator(n, nullptr, fes->GetMesh())); }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *n, Array<int> &m) { interior_face_integs.Append(new InternalBoundaryLinearFormIntegrator(n, &m, fes->GetMesh())); }
   // ----
'''),
])
p = dest + '/mfem/fem/linearform.hpp'
s = open(p).read()
i = s.index('class LinearForm : public Vector')
i = s.rindex('namespace mfem', 0, i)
s = s[:i] + '''#include "internal_faces.hpp"
namespace mfem
{
/// Restricts a face integrator to the faces of an internal boundary.
class InternalBoundaryLinearFormIntegrator : public LinearFormIntegrator
{
   LinearFormIntegrator *in;
   Array<int> *mark;
   std::vector<int> attr;
public:
   InternalBoundaryLinearFormIntegrator(LinearFormIntegrator *i, Array<int> *m, Mesh *mesh) : in(i), mark(m), attr(internalFaceAttributes(mesh)) { }
   ~InternalBoundaryLinearFormIntegrator() { delete in; }
   void AssembleRHSElementVect(const FiniteElement &, ElementTransformation &, Vector &v) { v = 0.0; }
   void AssembleRHSElementVect(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T, Vector &v)
   {
      int a = T.ElementNo >= 0 && T.ElementNo < int(attr.size()) ? attr[size_t(T.ElementNo)] : 0;
      if (a > 0 && (!mark || (a <= mark->Size() && (*mark)[a - 1] != 0))) { in->AssembleRHSElementVect(e1, e2, T, v); }
      else { v.SetSize((e1.GetDof() + e2.GetDof()) * T.GetSpaceDim()); v = 0.0; }
   }
};
}
''' + s[i:]
open(p, 'w').write(s)
edit('fem/plinearform.hpp', [
 ('   ParLinearForm() : LinearForm() { pfes = NULL; }\n',
  '   ParLinearForm() : LinearForm() { pfes = NULL; }\n   ParLinearForm(ParLinearForm &&o) : LinearForm(std::move(o)), pfes(o.pfes) { }\n'),
])
edit('fem/bilinearform.hpp', [
 ('private:\n   /// Copy construction is not supported; body is undefined.\n   BilinearForm(const BilinearForm &);\n',
  '''public:
   // ---- moves are available in MISO's MFEM fork (here: before assembly only)
   BilinearForm(BilinearForm &&o)
    : Matrix(o.Height(), o.Width()), mat(o.mat), mat_e(o.mat_e), fes(o.fes), assembly(o.assembly), batch(o.batch), ext(o.ext),
      sort_sparse_matrix(o.sort_sparse_matrix), sequence(o.sequence), extern_bfs(o.extern_bfs),
      domain_integs(o.domain_integs), domain_integs_marker(o.domain_integs_marker),
      boundary_integs(o.boundary_integs), boundary_integs_marker(o.boundary_integs_marker),
      interior_face_integs(o.interior_face_integs), boundary_face_integs(o.boundary_face_integs),
      boundary_face_integs_marker(o.boundary_face_integs_marker),
      element_matrices(o.element_matrices), static_cond(o.static_cond), hybridization(o.hybridization),
      diag_policy(o.diag_policy), precompute_sparsity(o.precompute_sparsity)
   {
      o.mat = o.mat_e = NULL; o.ext = NULL; o.element_matrices = NULL; o.static_cond = NULL; o.hybridization = NULL;
      o.domain_integs.SetSize(0); o.boundary_integs.SetSize(0); o.interior_face_integs.SetSize(0); o.boundary_face_integs.SetSize(0);
      o.domain_integs_marker.SetSize(0); o.boundary_integs_marker.SetSize(0); o.boundary_face_integs_marker.SetSize(0);
   }
private:
   /// Copy construction is not supported; body is undefined.
   BilinearForm(const BilinearForm &);
'''),
])
edit('fem/pbilinearform.hpp', [
 ('private:\n   /// Copy construction is not supported; body is undefined.\n   ParBilinearForm(const ParBilinearForm &);\n',
  '''public:
   ParBilinearForm(ParBilinearForm &&o)
    : BilinearForm(std::move(o)), pfes(o.pfes), p_mat(Operator::Hypre_ParCSR), p_mat_e(Operator::Hypre_ParCSR), keep_nbr_block(o.keep_nbr_block) { }
private:
   /// Copy construction is not supported; body is undefined.
   ParBilinearForm(const ParBilinearForm &);
'''),
])
