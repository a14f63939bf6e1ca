// Real steady PDE solvers (thermal, magnetostatic) driven through their public
// interface: problem specifications, operations with fully explicit inputs and
// partition-invariant observables.
#ifndef VERIF_PDECOMMON_HPP
#define VERIF_PDECOMMON_HPP
#include <map>
#include <string>
#include "femsim.hpp"
#include "thermal.hpp"
#include "thermal_integ.hpp"
#include "mfem_common_integ.hpp"
#include "magnetostatic.hpp"
#include "current_source_functions.hpp"

namespace mfem
{
// The installed MFEM aborts when a form with face terms is linearised; MISO's
// fork assembles the faces shared between ranks as well.
Operator &ParNonlinearForm::GetGradient(const Vector &x) const
{
   ParFiniteElementSpace *pfes = ParFESpace();
   pGrad.Clear();
   NonlinearForm::GetGradient(x);
   OperatorHandle dA(pGrad.Type()), Ph(pGrad.Type()), hA;
   if (fnfi.Size() == 0) { dA.MakeSquareBlockDiag(pfes->GetComm(), pfes->GlobalVSize(), pfes->GetDofOffsets(), Grad); }
   else
   {
      ParMesh *pm = pfes->GetParMesh();
      ParGridFunction X(pfes);
      X.Distribute(x);
      pm->ExchangeFaceNbrData();
      X.ExchangeFaceNbrData();
      int nv = pfes->GetVSize(), nn = pfes->GetFaceNbrVSize();
      SparseMatrix A(nv, nv + nn);
      for (int i = 0; i < nv; ++i)
      {
         for (int k = Grad->GetI()[i]; k < Grad->GetI()[i + 1]; ++k) { A.Add(i, Grad->GetJ()[k], Grad->GetData()[k]); }
      }
      Array<int> v1, v2, all;
      Vector e1, e2, el;
      for (int i = 0; i < pm->GetNSharedFaces(); ++i)
      {
         FaceElementTransformations *tr = pm->GetSharedFaceTransformations(i, true);
         int nb = tr->Elem2No - pm->GetNE();
         pfes->GetElementVDofs(tr->Elem1No, v1);
         pfes->GetFaceNbrElementVDofs(nb, v2);
         X.GetSubVector(v1, e1);
         X.FaceNbrData().GetSubVector(v2, e2);
         el.SetSize(e1.Size() + e2.Size());
         for (int k = 0; k < e1.Size(); ++k) { el(k) = e1(k); }
         for (int k = 0; k < e2.Size(); ++k) { el(e1.Size() + k) = e2(k); }
         all = v1;
         for (int k = 0; k < v2.Size(); ++k) { all.Append(v2[k] + nv); }
         for (int k = 0; k < fnfi.Size(); ++k)
         {
            DenseMatrix m;
            fnfi[k]->AssembleFaceGrad(*pfes->GetFE(tr->Elem1No), *pfes->GetFaceNbrFE(nb), *tr, el, m);
            for (int r = 0; r < v1.Size(); ++r) { for (int q = 0; q < all.Size(); ++q) { A.Add(v1[r], all[q], m(r, q)); } }
         }
      }
      A.Finalize(0);
      const HYPRE_BigInt *gl = pfes->GetFaceNbrGlobalDofMap();
      HYPRE_BigInt off = pfes->GetMyDofOffset();
      Array<HYPRE_BigInt> J(A.NumNonZeroElems());
      for (int k = 0; k < J.Size(); ++k) { J[k] = A.GetJ()[k] < nv ? A.GetJ()[k] + off : gl[A.GetJ()[k] - nv]; }
      hA.Reset(new HypreParMatrix(pfes->GetComm(), nv, pfes->GlobalVSize(), pfes->GlobalVSize(), A.GetI(), J.GetData(), A.GetData(), pfes->GetDofOffsets(), pfes->GetDofOffsets()));
      dA.ConvertFrom(hA);
   }
   Ph.ConvertFrom(pfes->Dof_TrueDof_Matrix());
   pGrad.MakePtAP(dA, Ph);
   OperatorHandle e;
   e.EliminateRowsCols(pGrad, ess_tdof_list);
   return *pGrad.Ptr();
}
}  // namespace mfem

namespace pdesim
{
using namespace femsim;
using nlohmann::json;

inline std::vector<int> gPart;

struct Th : miso::ThermalSolver
{
   using miso::ThermalSolver::ThermalSolver;
   std::map<std::string, miso::FiniteElementState> &F() { return fields; }
   ParMesh &M() { return mesh(); }
   bool converged() { return nonlinear_solver->GetConverged(); }
};
struct Mg : miso::MagnetostaticSolver
{
   using miso::MagnetostaticSolver::MagnetostaticSolver;
   std::map<std::string, miso::FiniteElementState> &F() { return fields; }
   ParMesh &M() { return mesh(); }
   bool converged() { return nonlinear_solver->GetConverged(); }
};

/// attribute of the boundary element on each face of this rank, 0 if there is none
inline std::vector<int> faceAttributes(Mesh *m)
{
   auto *pm = dynamic_cast<ParMesh *>(m);
   std::vector<int> a(size_t(m->GetNumFaces()), 0);
   for (int b = 0; b < m->GetNBE(); ++b) { a[size_t(m->GetBdrElementEdgeIndex(b))] = m->GetBdrAttribute(b); }
   if (pm)
   {
      // a boundary element between two ranks belongs to one of them
      DG_Interface_FECollection fc(0, pm->Dimension());
      ParFiniteElementSpace fs(pm, &fc);
      Array<double> v(fs.GetVSize());
      v = 0.0;
      Array<int> d;
      for (int f = 0; f < m->GetNumFaces(); ++f) { fs.GetFaceVDofs(f, d); v[d[0] < 0 ? -1 - d[0] : d[0]] = a[size_t(f)]; }
      auto &gc = fs.GroupComm();
      gc.Reduce<double>(v, GroupCommunicator::Max<double>);
      gc.Bcast<double>(v);
      for (int f = 0; f < m->GetNumFaces(); ++f)
      {
         fs.GetFaceVDofs(f, d);
         a[size_t(f)] = int(std::lround(v[d[0] < 0 ? -1 - d[0] : d[0]]));
      }
   }
   return a;
}
/// EvalRevDiff is virtual in the MFEM fork; here the shim asks us.
inline void installHooks()
{
   mfem::InternalFaceAttributes = faceAttributes;
   mfem::Coefficient::RevDiffHook = [](mfem::Coefficient *c, double q, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) {
      if (auto *p = dynamic_cast<miso::CurrentDensityCoefficient2D *>(c)) { p->EvalRevDiff(q, T, ip, P); return true; }
      if (auto *p = dynamic_cast<miso::MeshDependentCoefficient *>(c)) { p->EvalRevDiff(q, T, ip, P); return true; }
      if (auto *p = dynamic_cast<miso::StateCoefficient *>(c)) { p->EvalRevDiff(q, T, ip, P); return true; }
      return false;
   };
   mfem::VectorCoefficient::RevDiffHook = [](mfem::VectorCoefficient *c, const Vector &v, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) {
      if (auto *p = dynamic_cast<miso::CurrentDensityCoefficient *>(c)) { p->EvalRevDiff(v, T, ip, P); return true; }
      if (auto *p = dynamic_cast<miso::VectorMeshDependentCoefficient *>(c)) { p->EvalRevDiff(v, T, ip, P); return true; }
      return false;
   };
   mfem::NonlinearFormIntegrator::FaceEnergyHook = [](mfem::NonlinearFormIntegrator *n, const FiniteElement &e1, const FiniteElement &e2,
                                                      FaceElementTransformations &T, const Vector &x, double &e) {
      if (auto *p = dynamic_cast<mfem::InternalBoundaryNonlinearFormIntegrator *>(n))
      {
         e = p->on(T) ? mfem::NonlinearFormIntegrator::FaceEnergy(p->in, e1, e2, T, x) : 0.0;
         return true;
      }
      if (auto *p = dynamic_cast<miso::ThermalContactResistanceIntegratorHRevSens *>(n)) { e = p->GetFaceEnergy(e1, e2, T, x); return true; }
      if (auto *p = dynamic_cast<miso::InternalConvectionInterfaceIntegratorHRevSens *>(n)) { e = p->GetFaceEnergy(e1, e2, T, x); return true; }
      if (auto *p = dynamic_cast<miso::InternalConvectionInterfaceIntegratorFluidTempRevSens *>(n)) { e = p->GetFaceEnergy(e1, e2, T, x); return true; }
      if (auto *p = dynamic_cast<miso::BoundaryNormalIntegrator *>(n)) { e = p->GetFaceEnergy(e1, e2, T, x); return true; }
      if (auto *p = dynamic_cast<miso::ConvectionBCIntegratorHRevSens *>(n)) { e = p->GetFaceEnergy(e1, e2, T, x); return true; }
      if (auto *p = dynamic_cast<miso::ConvectionBCIntegratorFluidTempRevSens *>(n)) { e = p->GetFaceEnergy(e1, e2, T, x); return true; }
      return false;
   };
}
enum Kind { ThH1, ThDG, Mag2, Mag3 };
struct OutSpec
{
   std::string name;
   json opts;
   bool jvp = true, vjp = true, mesh = true;
   bool usesState = true;
};
/// physical data of a magnetostatic problem, by element attribute
struct Magnet
{
   std::string dir;
   double alpha = -0.12, Tref = 293.15, Br = 1.39;
};
struct MagData
{
   double nu[3] = {0, 1, 1};
   std::string src[3], model;            // current direction; reluctivity model of attribute 1
   std::vector<double> cps, knots;
   std::map<int, Magnet> magnet;
};
struct Spec
{
   MagData mag;
   std::string ldName = "thermal_load";  // a further field the residual depends on
   int ldDeg = 0;
   bool ldDG = false;
   Kind kind = ThH1;
   MeshSpec ms;
   int degree = 1;
   json opts;
   std::vector<OutSpec> outs;
   std::vector<std::string> scal;      // scalar inputs of the residual
   std::vector<bool> scalSens;         // whether the residual differentiates them
   bool load = false;                  // has a thermal_load input
   bool nonlinear = false;
   bool nd = false;
   std::vector<Field> st, disp, ld;
   std::vector<double> amp;
   std::vector<int> ess;
   std::vector<int> attr;              // element attributes, empty: by position
   bool meshVjp = true;
   bool dg = false;                    // discontinuous state
   std::vector<int> weak;              // boundaries with a weakly imposed value
   double sipg = 0;
   double h[2] = {0, 0}, tf[2] = {0, 0}, flux = 0, kappa[3] = {0, 1, 1};
   int conv = 0, out = 0;              // boundary with convection, boundary with a given flux
   int nif = 0;                        // attributes of interfaces between materials
   std::string ifKind[2], ifName[2];
   bool file = false;                  // the solver reads the mesh from a file

   int sides() const { return ms.dim == 3 ? 6 : 4; }
   std::unique_ptr<Mesh> mesh() const
   {
      Mesh raw = ms.serialRaw();
      auto m = std::make_unique<Mesh>(ms.serial());
      if (nif)
      {
         auto att = [&](int e) { Vector c(ms.dim); raw.GetElementCenter(e, c); return !attr.empty() ? attr[size_t(e)] : c(0) < 0.5 ? 1 : 2; };
         std::vector<int> fs;
         for (int f = 0; f < raw.GetNumFaces(); ++f)
         {
            int a, b;
            raw.GetFaceElements(f, &a, &b);
            if (b >= 0 && att(a) != att(b)) { fs.push_back(f); }
         }
         m = std::make_unique<Mesh>(ms.dim, raw.GetNV(), raw.GetNE(), raw.GetNBE() + int(fs.size()));
         for (int v = 0; v < raw.GetNV(); ++v) { m->AddVertex(raw.GetVertex(v)); }
         for (int e = 0; e < raw.GetNE(); ++e) { m->AddElement(raw.GetElement(e)->Duplicate(m.get())); }
         for (int b = 0; b < raw.GetNBE(); ++b) { m->AddBdrElement(raw.GetBdrElement(b)->Duplicate(m.get())); }
         for (size_t k = 0; k < fs.size(); ++k)
         {
            Element *el = raw.GetFace(fs[k])->Duplicate(m.get());
            el->SetAttribute(sides() + 1 + int(k) % nif);
            m->AddBdrElement(el);
         }
         m->FinalizeTopology(false);
         m->Finalize(false, false);
         m->SetCurvature(ms.nodeOrder, false, ms.dim, Ordering::byNODES);
         ms.deform(*m->GetNodes(), *m->GetNodes(), 0.0);
      }
      for (int e = 0; e < raw.GetNE(); ++e)
      {
         Vector c(ms.dim);
         raw.GetElementCenter(e, c);
         m->SetAttribute(e, !attr.empty() ? attr[size_t(e)] : c(0) < 0.5 ? 1 : 2);
      }
      m->SetAttributes();
      if (file)
      {
         std::stringstream str(meshText(*m));
         m = std::make_unique<Mesh>(str, 1, 1);
      }
      return m;
   }
   static std::string meshText(const Mesh &m)
   {
      std::ostringstream str;
      str.precision(17);
      m.Print(str);
      return str.str();
   }
   std::unique_ptr<Mesh> forSolver() const { return file ? nullptr : mesh(); }
   void writeFile() const
   {
      Spec raw(*this);
      raw.file = false;
      std::ofstream f("x.mesh");
      f << meshText(*raw.mesh());
   }
   /// averages over an empty set of elements are undefined
   void fixAttributes(OutSpec &o) const
   {
      if (o.name == "thermal_flux" || !o.opts.contains("attributes")) { return; }
      auto m = mesh();
      int a = o.opts["attributes"][0];
      for (int e = 0; e < m->GetNE(); ++e) { if (m->GetAttribute(e) == a) { return; } }
      o.opts.erase("attributes");
   }
   std::string str() const
   {
      const char *k[] = {"thermal H1", "thermal DG", "magnetostatic 2D", "magnetostatic 3D"};
      std::string b;
      if (opts.contains("bcs")) { for (auto &x : opts["bcs"].items()) { b += (b.empty() ? "" : "+") + x.key(); } }
      std::string q;
      if (kind == Mag2 || kind == Mag3)
      {
         q = "; currents " + mag.src[1] + " " + mag.src[2];
         for (auto &g : mag.magnet) { q += fmt("; magnet %d %s", g.first, g.second.dir.c_str()); }
         if (nonlinear) { q += "; " + mag.model; }
      }
      for (int i = 0; i < nif; ++i) { q += "; interface: " + ifKind[i]; }
      if (dg && kind == Mag2) { q += "; discontinuous"; }
      return fmt("%s degree %d%s (%s%s%s), %s", k[kind], degree, nonlinear ? " nonlinear" : "", b.c_str(), load ? "; load" : "", q.c_str(), ms.str().c_str());
   }
};

inline json baseOptions(const Spec &s)
{
   json o = R"({"silent": true, "print-options": false, "mesh": {"file": "x.mesh"},
    "lin-solver": {"type": "gmres", "printlevel": 0, "maxiter": 400, "kdim": 400, "abstol": 1e-15, "reltol": 1e-13},
    "adj-solver": {"type": "gmres", "printlevel": 0, "maxiter": 400, "kdim": 400, "abstol": 1e-15, "reltol": 1e-13},
    "lin-prec": {"type": "hypreboomeramg", "printlevel": 0},
    "nonlin-solver": {"type": "newton", "printlevel": -1, "maxiter": 20, "reltol": 1e-11, "abstol": 1e-12}})"_json;
   o["space-dis"] = {{"basis-type", s.dg ? "DG" : s.kind == Mag3 ? "nedelec" : "H1"}, {"degree", s.degree}};
   return o;
}
/// currents, magnets and (2D) reluctivity of a magnetostatic problem; the materials m1 and m2 already hold mu_r
inline void genMagData(Spec &s, json &o, json &m1, json &m2, bool models)
{
   bool three = s.kind == Mag3;
   std::vector<std::string> dirs = {"z", "-z", "box1", "box2"}, mags = {"north", "south", "cw", "ccw", "x", "y"};
   if (three) { for (auto d : {"x", "y", "ring", "team13", "cwStator", "ccwStator"}) { dirs.push_back(d); } mags.push_back("z"); }
   for (int a = 1; a <= 2; ++a) { s.mag.src[a] = dirs[gen(uint32_t(dirs.size()))]; }
   o["current"] = {{"g1", {{s.mag.src[1], {1}}}}, {"g2", {{s.mag.src[2], {2}}}}};
   if (s.nonlinear)
   {
      int kind = models ? genInt(0, 1) : 0;
      s.mag.model = kind == 0 ? "lognu" : "bh";
      json r = {{"model", s.mag.model}};
      {
         auto &cps = s.mag.cps, &knots = s.mag.knots;
         double v = kind == 0 ? genIn(-0.5, 0.2) : 0.0;
         for (int i = 0; i < 7; ++i) { cps.push_back(v); v += kind == 0 ? genIn(0, 0.3) : genIn(0.5, 2.0); }
         if (kind == 0) { cps[1] = cps[0]; }
         for (int i = 0; i < 4; ++i) { knots.push_back(0.0); }
         for (int i = 0; i < 3; ++i) { knots.push_back(2.0 * (i + 1)); }
         for (int i = 0; i < 4; ++i) { knots.push_back(8.0); }
         r["cps"] = cps;
         r["knots"] = knots;
         r["degree"] = 3;
      }
      m1["reluctivity"] = r;
   }
   if (gen(2))
   {
      int n = 0;
      for (int a = s.nonlinear ? 2 : 1; a <= 2; ++a)
      {
         if (n && !gen(2)) { continue; }
         ++n;
         Magnet g;
         g.dir = mags[gen(uint32_t(mags.size()))];
         json &m = a == 1 ? m1 : m2;
         // upstream evaluates magnets at no temperature in three dimensions
         if (three) { m["alpha_B_r"] = g.alpha = 0.0; }
         else if (gen(3)) { m["alpha_B_r"] = g.alpha = genIn(-0.3, 0.3); }
         if (gen(3)) { m["T_ref"] = g.Tref = genIn(280, 320); }
         if (gen(3)) { m["B_r_T_ref"] = g.Br = genIn(0.4, 1.6); }
         o["magnets"][a == 1 ? "m1" : "m2"][g.dir] = {a};
         s.mag.magnet[a] = g;
      }
      if (three) { s.meshVjp = false; return; }
      s.load = true;
      s.ldName = "temperature";
      s.ldDeg = genInt(1, 2);
      s.ldDG = gen(3) == 0;
      o["external-fields"] = {{"temperature", {{"basis-type", s.ldDG ? "DG" : "H1"}, {"degree", s.ldDeg}, {"num-states", 1}}}};
   }
}
/// kinds: bits of Kind; 16: the thermal residual against its definition
inline Spec genSpec(int maxRanks, int kinds = 15, bool models = false)
{
   Spec s;
   const char *dgEnv = getenv("SIM_PDE_DG");
   std::vector<Kind> ks;
   for (int k = 0; k < 4; ++k) { for (int i = 0; i < (k == ThH1 || k == Mag2 ? 4 : k == ThDG ? 2 : 1) && (kinds & (1 << k)); ++i) { ks.push_back(Kind(k)); } }
   s.kind = ks[gen(uint32_t(ks.size()))];
   int dim = s.kind == Mag3 ? 3 : s.kind == Mag2 ? 2 : gen(4) ? 2 : 3;
   s.ms = genMesh(dim, dim == 3 ? (s.kind == Mag3 ? 12 : 6) : 12, maxRanks, true, true);
   s.dg = s.kind == ThDG || (s.kind == Mag2 && (gen(4) == 0 || dgEnv));
   s.degree = s.kind == Mag3 ? 1 : dim == 3 ? 1 : genInt(1, 2);
   if (s.kind == Mag3) { s.ms.nodeOrder = 1; }
   json o = baseOptions(s);
   int nb = dim == 3 ? 6 : 4;
   std::vector<int> sides;
   for (int b = 1; b <= nb; ++b) { sides.push_back(b); }
   for (int b = nb - 1; b > 0; --b) { std::swap(sides[size_t(b)], sides[gen(uint32_t(b + 1))]); }
   if (s.kind == ThH1 || s.kind == ThDG)
   {
      double k1 = genIn(0.5, 2), k2 = genIn(0.5, 4);
      s.kappa[1] = k1;
      s.kappa[2] = k2;
      if (gen(3) == 0)
      {
         s.kappa[2] = k1;
         o["components"] = {{"all", {{"attrs", {1, 2}}, {"material", {{"name", "m1"}, {"kappa", k1}}}}}};
      }
      else
      {
         o["components"] = {{"a", {{"attrs", {1}}, {"material", {{"name", "m1"}, {"kappa", k1}}}}},
                            {"b", {{"attr", 2}, {"material", {{"name", "m2"}, {"kappa", k2}}}}}};
      }
      size_t at = 0;
      int ne = genInt(0, 2);
      for (int i = 0; i < ne; ++i) { s.ess.push_back(sides[at++]); }
      bool conv = ne == 0 || gen(2);
      if (ne) { o["bcs"][s.kind == ThDG ? (gen(2) ? "weak-essential" : "essential") : "essential"] = s.ess; }
      if (s.kind == ThDG) { s.weak = s.ess; s.ess.clear(); }
      else if (gen(4) == 0 && at + 2 < sides.size()) { s.weak.push_back(sides[at++]); o["bcs"]["weak-essential"] = s.weak; }
      if (s.weak.size() && gen(3) == 0) { o["space-dis"]["sipg-penalty"] = s.sipg = genIn(2, 20); }
      else { s.sipg = std::pow(s.degree + 1.0, 2); if (s.kind == ThDG && gen(3) == 0) { o["space-dis"]["sipg-penalty"] = s.sipg = genIn(2, 20); } }
      if (conv)
      {
         json a = json::array();
         a.push_back(sides[at++]);
         s.conv = a[0];
         s.h[0] = genIn(0.5, 2);
         s.tf[0] = genIn(-1, 1);
         o["bcs"]["convection"] = {{"attrs", a}, {"h", s.h[0]}, {"fluid_temp", s.tf[0]}};
         s.scal = {"h", "fluid_temp"};
         s.scalSens = {true, true};
      }
      if (gen(2))
      {
         json a = json::array();
         a.push_back(sides[at++]);
         s.out = a[0];
         s.flux = genIn(-1, 1);
         o["bcs"]["outflux"] = {{"attrs", a}, {"flux", s.flux}};
      }
      if (s.kind == ThDG && gen(2))
      {
         if (gen(2)) { for (int e = 0; e < s.ms.ne; ++e) { s.attr.push_back(genInt(1, 2)); } s.attr[0] = 1; s.attr.back() = 2; }
         s.nif = genInt(1, 2);
         for (int i = 0; i < s.nif; ++i)
         {
            bool tcr = gen(2) == 1;
            s.ifKind[i] = tcr ? "thermal_contact_resistance" : "convection";
            s.ifName[i] = fmt("i%d", i);
            json q = {{"attrs", {s.sides() + 1 + i}}, {"h", genIn(0.5, 2)}};
            if (!tcr) { q["fluid_temp"] = genIn(-1, 1); }
            o["interfaces"][s.ifKind[i]][s.ifName[i]] = q;
            s.scal.push_back("h:" + s.ifName[i]);
            s.scalSens.push_back(s.ms.nranks == 1);
            if (!tcr) { s.scal.push_back("fluid_temp:" + s.ifName[i]); s.scalSens.push_back(s.ms.nranks == 1); }
         }
         auto m = s.mesh();
         if (m->bdr_attributes.Max() < s.sides() + s.nif)
         {
            // not enough faces between the materials for every interface
            s.nif = 0;
            o.erase("interfaces");
            while (s.scal.size() && s.scal.back().find(':') != std::string::npos) { s.scal.pop_back(); s.scalSens.pop_back(); }
         }
      }
      // the derivatives of shared faces with respect to their geometry are not in the installed MFEM
      if (s.kind == ThDG && s.ms.nranks > 1) { s.meshVjp = false; }
      s.load = gen(2);
      s.outs.push_back({"thermal_flux", gen(2) ? json{{"attributes", {sides[0], sides[1]}}} : json::object(), true, true, false});
      s.outs.push_back({"average_state", gen(2) ? json{{"attributes", {1}}} : json::object()});
      s.outs.push_back({"max_state", json{{"rho", genIn(1, 4)}}});
      if (gen(3) == 0) { s.outs.back().opts["attributes"] = {2}; }
      for (auto &x : s.outs) { s.fixAttributes(x); }
   }
   else if (s.kind == Mag2)
   {
      s.nonlinear = gen(2);
      double nu1 = genIn(0.5, 2), nu2 = genIn(0.5, 2);
      auto mur = [](double nu) { return 1.0 / (nu * 4e-7 * M_PI); };
      json m1 = {{"name", "m1"}, {"mu_r", mur(nu1)}, {"rho", 2.0}}, m2 = {{"name", "m2"}, {"mu_r", mur(nu2)}, {"rho", 3.0}};
      s.mag.nu[1] = nu1;
      s.mag.nu[2] = nu2;
      genMagData(s, o, m1, m2, models);
      o["components"] = {{"a", {{"attrs", {1}}, {"material", m1}}}, {"b", {{"attrs", {2}}, {"material", m2}}}};
      int ne = genInt(1, 4);
      for (int i = 0; i < ne; ++i) { s.ess.push_back(sides[size_t(i)]); }
      o["bcs"]["essential"] = s.ess;
      if (s.dg)
      {
         s.weak = s.ess;
         s.ess.clear();
         if (gen(2)) { o["bcs"].erase("essential"); o["bcs"]["weak-essential"] = s.weak; }
         if (s.ms.nranks > 1) { s.meshVjp = false; }
      }
      else if (ne < 4 && gen(4) == 0) { s.weak.push_back(sides[size_t(ne)]); o["bcs"]["weak-essential"] = s.weak; }
      s.sipg = std::pow(s.degree + 1.0, 3);
      if (s.weak.size() && gen(3) == 0) { o["space-dis"]["sipg-penalty"] = s.sipg = genIn(5, 30); }
      o["paraview"] = {{"log", false}};
      s.scal = {"current_density:g1", "current_density:g2"};
      s.scalSens = {true, true};
      for (int a = 1; a <= 2 && s.scal.size() == 2; ++a)
      {
         if (s.mag.src[a].find("Stator") == std::string::npos) { continue; }
         s.scal.push_back("n_slots");
         s.scal.push_back("stack_length");
         s.scalSens.resize(4, false);
      }
      s.outs.push_back({"energy", gen(2) ? json{{"attributes", {1}}} : json::object()});
      s.outs.push_back({"average_flux_magnitude", gen(2) ? json{{"attributes", {2}}} : json::object()});
      s.outs.push_back({"max_flux_magnitude", json{{"rho", genIn(1, 3)}}});
      s.outs.push_back({"volume", gen(2) ? json{{"attributes", {2}}} : json::object(), true, true, true, false});
      s.outs.push_back({"max_state", json{{"rho", genIn(1, 3)}}});
      for (auto &x : s.outs) { s.fixAttributes(x); }
   }
   else
   {
      s.nd = true;
      auto mur = [](double nu) { return 1.0 / (nu * 4e-7 * M_PI); };
      s.mag.nu[1] = genIn(0.5, 2);
      s.mag.nu[2] = genIn(0.5, 2);
      json m1 = {{"name", "m1"}, {"mu_r", mur(s.mag.nu[1])}}, m2 = {{"name", "m2"}, {"mu_r", mur(s.mag.nu[2])}};
      genMagData(s, o, m1, m2, false);
      o["components"] = {{"a", {{"attrs", {1}}, {"material", m1}}}, {"b", {{"attrs", {2}}, {"material", m2}}}};
      o["lin-prec"] = {{"type", "hypreams"}, {"printlevel", 0}};
      for (const char *k : {"lin-solver", "adj-solver"}) { o[k]["maxiter"] = 100; o[k]["kdim"] = 100; o[k]["reltol"] = 1e-11; }
      s.ess = {1, 2, 3, 4, 5, 6};
      o["bcs"]["essential"] = s.ess;
      o["paraview"] = {{"log", false}};
      s.scal = {"current_density:g1", "current_density:g2"};
      s.scalSens = {true, true};
      for (int a = 1; a <= 2 && s.scal.size() == 2; ++a)
      {
         if (s.mag.src[a].find("Stator") == std::string::npos) { continue; }
         s.scal.push_back("n_slots");
         s.scal.push_back("stack_length");
         s.scalSens.resize(4, false);
      }
      s.outs.push_back({"energy", json::object()});
      s.outs.push_back({"average_flux_magnitude", gen(2) ? json{{"attributes", {2}}} : json::object()});
      s.fixAttributes(s.outs.back());
      s.outs.push_back({"volume", json::object(), true, true, true, false});
   }
   s.opts = o;
   for (int i = 0; i < 4; ++i) { s.st.push_back(genField(0.7)); }
   for (int i = 0; i < 3; ++i) { s.disp.push_back(genField(1.0)); s.amp.push_back(i ? genIn(-0.02, 0.02) : 0.0); }
   for (int i = 0; i < 2; ++i) { s.ld.push_back(genField(1.0)); }
   gPart = s.ms.part;
   s.file = gen(5) == 4;
   return s;
}

/// A solver together with the vectors its script refers to.
struct Sol
{
   const Spec &sp;
   std::unique_ptr<miso::AbstractSolver2> s;
   std::map<std::string, miso::FiniteElementState> *fields = nullptr;
   ParMesh *pm = nullptr;
   std::function<bool()> converged;
   ParFiniteElementSpace *fes = nullptr, *mfes = nullptr, *lfes = nullptr;
   std::vector<Vector> st, mc, dmc, ld;
   Vector folded;
   Array<int> ess;
   std::vector<double> rho;   // of each aggregate, as last set
   explicit Sol(const Spec &spec) : sp(spec)
   {
      if (sp.kind == ThH1 || sp.kind == ThDG)
      {
         auto t = std::make_unique<Th>(MPI_COMM_WORLD, sp.opts, sp.forSolver());
         fields = &t->F(); pm = &t->M();
         Th *p = t.get(); converged = [p] { return p->converged(); };
         s = std::move(t);
      }
      else
      {
         auto t = std::make_unique<Mg>(MPI_COMM_WORLD, sp.opts, sp.forSolver());
         fields = &t->F(); pm = &t->M();
         Mg *p = t.get(); converged = [p] { return p->converged(); };
         s = std::move(t);
      }
      for (const auto &o : sp.outs)
      {
         s->createOutput(o.name, o.opts);
         rho.push_back(o.opts.contains("rho") ? o.opts["rho"].get<double>() : 0.0);
      }
      fes = &fields->at("state").space();
      mfes = &fields->at("mesh_coords").space();
      ParGridFunction gf(fes);
      for (const auto &f : sp.st)
      {
         if (sp.nd) { VectorFunctionCoefficient c(sp.ms.dim, f.vec()); gf.ProjectCoefficient(c); }
         else { FunctionCoefficient c(f.sca()); gf.ProjectCoefficient(c); }
         Vector v(fes->GetTrueVSize());
         gf.GetTrueDofs(v);
         st.push_back(v);
      }
      Vector X0(mfes->GetTrueVSize());
      fields->at("mesh_coords").gridFunc().GetTrueDofs(X0);
      {
         auto bits = [](const Vector &a, const Vector &b) { return a.Size() == b.Size() && (a.Size() == 0 || memcmp(a.GetData(), b.GetData(), size_t(a.Size()) * sizeof(double)) == 0); };
         auto *p = dynamic_cast<miso::PDESolver *>(s.get());
         SIM_CHECK(p, "solver", "not a PDE solver");
         Vector x(X0.Size());
         x = 1e9;
         p->getMeshCoordinates(x);
         SIM_CHECK(bits(x, X0), "mesh-coordinates", "%s: the mesh coordinates of a new solver are not those of its mesh", sp.str().c_str());
         SIM_CHECK(s->getFieldSize("state") == fes->GetTrueVSize() && s->getFieldSize("residual") == fes->GetTrueVSize() && s->getFieldSize("adjoint") == fes->GetTrueVSize() && s->getStateSize() == fes->GetTrueVSize()
                      && s->getFieldSize("mesh_coords") == X0.Size() && s->getFieldSize("no such field") == 0,
                   "field-size", "%s: a field has the wrong size", sp.str().c_str());
      }
      ParGridFunction mg(mfes);
      for (size_t k = 0; k < sp.disp.size(); ++k)
      {
         VectorFunctionCoefficient c(sp.ms.dim, sp.disp[k].vec());
         mg.ProjectCoefficient(c);
         Vector d(X0.Size()), x(X0);
         mg.GetTrueDofs(d);
         x.Add(sp.amp[k], d);
         mc.push_back(x);
         dmc.push_back(d);
      }
      {
         VectorFunctionCoefficient c(sp.ms.dim, [](const Vector &x, Vector &v) { v = x; if (x(0) > 0.4) { v(0) = 0.8 - 2.0 * x(0); } });
         mg.ProjectCoefficient(c);
         folded.SetSize(X0.Size());
         mg.GetTrueDofs(folded);
      }
      if (sp.load)
      {
         lfes = &fields->at(sp.ldName).space();
         for (const auto &f : sp.ld)
         {
            if (sp.ldName == "temperature")
            {
               ParGridFunction tg(lfes);
               FunctionCoefficient c(f.sca());
               tg.ProjectCoefficient(c);
               Vector v(lfes->GetTrueVSize());
               tg.GetTrueDofs(v);
               for (int i = 0; i < v.Size(); ++i) { v(i) = 300 + 20 * v(i); }
               ld.push_back(v);
               continue;
            }
            ParLinearForm lf(fes);
            FunctionCoefficient c(f.sca());
            lf.AddDomainIntegrator(new mfem::DomainLFIntegrator(c));
            lf.Assemble();
            Vector v(fes->GetTrueVSize());
            lf.ParallelAssemble(v);
            ld.push_back(v);
         }
      }
      if (!sp.ess.empty())
      {
         Array<int> mark(pm->bdr_attributes.Max());
         mark = 0;
         for (int b : sp.ess) { mark[b - 1] = 1; }
         fes->GetEssentialTrueDofs(mark, ess);
      }
   }
   void zeroEss(Vector &v) const { for (int i = 0; i < ess.Size(); ++i) { v(ess[i]) = 0.0; } }
};

/// One operation; it names every input it uses.
struct Op
{
   int kind = 0;
   int u = 0, m = 0, bc = 0, ld = 0, w = 0, v = 0, out = 0, wrt = 0;
   std::vector<double> sc;
   double ob = 1.0;
   double rho = 0;   // sharpness of an aggregate, 0: the output has none
};
enum OpKind { oRes, oNorm, oOut, oProd, oOutProd, oSolve, oAdj, oErr, oFold, oSet, NOPS };
inline const char *opName(int k)
{
   const char *n[] = {"residual", "residual norm", "output", "residual products", "output products", "solve", "adjoint", "state error", "folded mesh", "set state"};
   return n[k];
}
inline Op genOp(const Spec &s, const std::vector<int> &kinds)
{
   Op o;
   o.kind = kinds[gen(uint32_t(kinds.size()))];
   o.u = genInt(0, int(s.st.size()) - 1);
   o.bc = genInt(0, int(s.st.size()) - 1);
   o.w = genInt(0, int(s.st.size()) - 1);
   o.v = genInt(0, int(s.st.size()) - 1);
   o.m = genInt(0, int(s.disp.size()) - 1);
   o.ld = s.load ? genInt(0, int(s.ld.size()) - 1) : 0;
   o.out = genInt(0, int(s.outs.size()) - 1);
   o.wrt = genInt(0, 1);
   o.ob = genIn(0.5, 1.5) * (gen(2) ? 1 : -1);
   for (size_t i = 0; i < s.scal.size(); ++i) { o.sc.push_back(s.scal[i] == "n_slots" ? genInt(3, 24) : genIn(0.3, 2.0)); }
   const auto &oo = s.outs[size_t(o.out)].opts;
   if (oo.contains("rho")) { o.rho = gen(2) == 1 ? genIn(1, 4) : oo["rho"].get<double>(); }
   return o;
}
/// the options the operation wants of its output
inline void useRho(Sol &so, const Op &op)
{
   auto &r = so.rho[size_t(op.out)];
   if ((op.kind != oOut && op.kind != oOutProd) || op.rho == r) { return; }
   json o = so.sp.outs[size_t(op.out)].opts;
   o["rho"] = op.rho;
   so.s->setOutputOptions(so.sp.outs[size_t(op.out)].name, o);
   r = op.rho;
   probe("an output's options were changed");
}
struct Obs
{
   std::string key;
   double v = 0, scale = 0, tol = 1e-9;
};
struct Result
{
   std::vector<Obs> obs;
   std::string err;   // exception text, empty if none
   bool skip = false; // no claim (e.g. Newton did not converge)
};
inline double gabs(const Vector &a, const Vector &b)
{
   double s = 0;
   for (int i = 0; i < a.Size(); ++i) { s += std::fabs(a(i) * b(i)); }
   return gsum(s);
}
inline double gsize(const Vector &a) { return gsum(double(a.Size())); }

struct Ctx
{
   const Spec &sp;
   Sol &so;
   const Op &op;
   Result &r;
   miso::MISOInputs in;
   void add(const std::string &k, double v, double scale, double tol = 1e-9) { r.obs.push_back({k, v, std::fabs(scale), tol}); }
   Ctx(const Spec &a, Sol &b, const Op &c, Result &d, bool withState = true) : sp(a), so(b), op(c), r(d)
   {
      if (withState) { in.emplace("state", so.st[size_t(op.u)]); }
      in.emplace("mesh_coords", so.mc[size_t(op.m)]);
      in.emplace("dirichlet_bc", so.st[size_t(op.bc)]);
      if (sp.load) { in.emplace(sp.ldName, so.ld[size_t(op.ld)]); }
      for (size_t i = 0; i < sp.scal.size(); ++i) { in.emplace(sp.scal[i], op.sc[i]); }
   }
};
/// a value every rank must agree on
inline double agree(const char *what, double v)
{
   double mx = gmax(v), mn = -gmax(-v);
   SIM_CHECK((std::isnan(v) && std::isnan(mx)) || mx - mn <= 1e-12 * (std::fabs(mx) + std::fabs(mn)), "rank-disagreement",
             "%s: ranks return values between %.17g and %.17g", what, mn, mx);
   return v;
}
inline uint64_t hashVec(const Vector &v)
{
   uint64_t h = 1469598103934665603ull;
   for (int i = 0; i < v.Size(); ++i) { uint64_t b; double d = v(i); memcpy(&b, &d, 8); h = (h ^ b) * 1099511628211ull; }
   return h;
}
inline std::vector<uint64_t> hashInputs(Sol &so)
{
   std::vector<uint64_t> h;
   for (auto &v : so.st) { h.push_back(hashVec(v)); }
   for (auto &v : so.mc) { h.push_back(hashVec(v)); }
   for (auto &v : so.dmc) { h.push_back(hashVec(v)); }
   for (auto &v : so.ld) { h.push_back(hashVec(v)); }
   return h;
}
}  // namespace pdesim
#endif
