// SOURCES: utils/div_free_projector.cpp utils/irrotational_projector.cpp physics/mfem_common_integ.cpp physics/miso_input.cpp
// P01 the projectors are projections, whatever the partition, the message
// order and the history of mesh movements; P02 their adjoints.
#include "femsim.hpp"
#include "div_free_projector.hpp"
#include "irrotational_projector.hpp"
using namespace femsim;
const char *driverProperty() { return "projector"; }

namespace
{
struct Step
{
   int kind;       // 0 project, 1 move the mesh and announce it, 2 announce something else, 3 vjp in, 4 vjp mesh
   double t;
   Field f, g, v;
   bool both;
};
struct Result { std::vector<double> vals; };

struct Case
{
   MeshSpec ms;
   int order = 1;
   bool noisy = true;
   std::vector<Step> steps;
   bool adjoint = false;
};

struct Checker
{
   ParFiniteElementSpace &h1, &nd;
   const IntegrationRule *ir;
   std::unique_ptr<ParMixedBilinearForm> wd;
   Array<int> ess;
   Checker(ParFiniteElementSpace &h, ParFiniteElementSpace &n, int irOrder) : h1(h), nd(n)
   {
      ir = &IntRules.Get(h.GetFE(0)->GetGeomType(), irOrder);
      Array<int> b(h1.GetParMesh()->bdr_attributes.Max());
      b = 1;
      h1.GetEssentialTrueDofs(b, ess);
   }
   void build()
   {
      wd = std::make_unique<ParMixedBilinearForm>(&nd, &h1);
      auto *i = new VectorFEWeakDivergenceIntegrator;
      i->SetIntRule(ir);
      wd->AddDomainIntegrator(i);
      wd->Assemble();
      wd->Finalize();
   }
   /// norm of the weak divergence against the functions that vanish on the boundary
   double weakDiv(const Vector &x) const
   {
      Vector d(h1.GetVSize()), t(h1.GetTrueVSize());
      wd->Mult(x, d);
      h1.GetProlongationMatrix()->MultTranspose(d, t);
      for (int e : ess) { t(e) = 0.0; }
      return gnorm(t);
   }
};
double l2(ParGridFunction &x)
{
   Vector z(3);
   z = 0.0;
   VectorConstantCoefficient zero(z);
   return x.ComputeL2Error(zero);
}

void runCase(const Case &c, std::vector<std::vector<double>> &out, bool plain)
{
   JobConfig jc;
   jc.nranks = c.ms.nranks;
   jc.plain = plain;
   out.assign(size_t(jc.nranks), {});
   auto res = runJob(jc, [&](int r)
   {
      auto pm = c.ms.parallel();
      auto &pmesh = *pm;
      Mesh raw = c.ms.serialRaw();
      auto &nodes = dynamic_cast<ParGridFunction &>(*pmesh.GetNodes());
      H1_FECollection h1c(c.order, 3);
      ND_FECollection ndc(c.order, 3);
      ParFiniteElementSpace h1(&pmesh, &h1c), nd(&pmesh, &ndc);
      int irOrder = h1.GetElementTransformation(0)->OrderW() + 2 * nd.GetFE(0)->GetOrder();
      Checker chk(h1, nd, irOrder);
      chk.build();
      miso::DivergenceFreeProjector div(h1, nd, irOrder);
      miso::IrrotationalProjector irr(h1, nd, irOrder);
      Vector X0(nodes);
      // the undeformed coordinates, from the deformed ones at t = 0, by fixed point
      for (int it = 0; it < 60; ++it)
      {
         auto *fes = nodes.FESpace();
         for (int i = 0; i < fes->GetNDofs(); ++i)
         {
            double a[3], b[3];
            for (int d = 0; d < 3; ++d) { a[d] = X0(fes->DofToVDof(i, d)); }
            c.ms.warp(0.0, a, b);
            for (int d = 0; d < 3; ++d) { int k = fes->DofToVDof(i, d); X0(k) += nodes(k) - b[d]; }
         }
      }
      auto project = [&](const Field &f, ParGridFunction &x)
      {
         VectorFunctionCoefficient vc(3, f.vec());
         x.ProjectCoefficient(vc);
      };
      double tcur = 0.0;
      for (auto &s : c.steps)
      {
         if (s.kind == 1)
         {
            tcur = s.t;
            c.ms.deform(nodes, X0, s.t);
            miso::MISOInputs in{{"mesh_coords", nodes}};
            setInputs(div, in);
            setInputs(irr, in);
            chk.build();
            probe("mesh moved");
         }
         else if (s.kind == 2)
         {
            miso::MISOInputs in{{"current_density", 3.0}, {"fill-factor", 1.0}};
            setInputs(div, in);
            setInputs(irr, in);
         }
         else if (s.kind == 0)
         {
            ParGridFunction x(&nd), y(&nd), z(&nd), g(&nd);
            project(s.f, x);
            y = 17.0;
            z = -3.0;
            Vector x0(x);
            div.Mult(x, y);
            irr.Mult(x, g);
            double nx = l2(x), ny = l2(y), ng = l2(g);
            Vector dx(x);
            dx -= x0;
            SIM_CHECK(gmax(dx.Normlinf()) == 0.0, "modifies-input", "projecting a field changed it");
            double w0 = chk.weakDiv(x), w1 = chk.weakDiv(y);
            SIM_CHECK(w1 <= 1e-8 * (w0 + nx), "not-divergence-free", "the weak divergence of the projected field is %.3g (of the field: %.3g)", w1, w0);
            Vector sum(y);
            sum += g;
            sum -= x;
            SIM_CHECK(gmax(sum.Normlinf()) <= 1e-10 * (1 + gmax(x.Normlinf())), "not-complementary", "divergence-free part + irrotational part differs from the field by %.3g",
                      gmax(sum.Normlinf()));
            // idempotent, and the two projections annihilate each other
            div.Mult(y, z);
            z -= y;
            SIM_CHECK(l2(z) <= 1e-8 * (nx + 1e-30), "not-idempotent", "projecting the projected field changes it by %.3g of %.3g", l2(z), nx);
            div.Mult(g, z);
            SIM_CHECK(l2(z) <= 1e-8 * (nx + 1e-30), "gradient-survives", "the divergence-free part of the irrotational part is %.3g of %.3g", l2(z), nx);
            irr.Mult(y, z);
            SIM_CHECK(l2(z) <= 1e-8 * (nx + 1e-30), "not-divergence-free", "the irrotational part of the divergence-free part is %.3g of %.3g", l2(z), nx);
            // the irrotational part is a gradient, and the parts are orthogonal
            DenseMatrix dummy;
            CurlGridFunctionCoefficient curl(&g);
            double cn = 0;
            {
               Vector cv;
               for (int e = 0; e < pmesh.GetNE(); ++e)
               {
                  auto *T = pmesh.GetElementTransformation(e);
                  auto &ip = Geometries.GetCenter(pmesh.GetElementGeometry(e));
                  T->SetIntPoint(&ip);
                  curl.Eval(cv, *T, ip);
                  cn = std::max(cn, cv.Normlinf());
               }
            }
            SIM_CHECK(gmax(cn) <= 1e-7 * (1 + nx), "not-irrotational", "the irrotational part has a curl of %.3g", gmax(cn));
            if (s.both)
            {
               // the projection of a gradient of a function that vanishes on the boundary is zero
               ParGridFunction q(&h1);
               FunctionCoefficient fc(s.g.sca());
               q.ProjectCoefficient(fc);
               Vector qt;
               q.GetTrueDofs(qt);
               for (int e : chk.ess) { qt(e) = 0.0; }
               q.SetFromTrueDofs(qt);
               miso::DiscreteGradOperator G(&h1, &nd);
               G.Assemble();
               G.Finalize();
               ParGridFunction gq(&nd);
               G.Mult(q, gq);
               double n = l2(gq);
               div.Mult(gq, z);
               SIM_CHECK(l2(z) <= 1e-8 * (n + 1e-12), "gradient-survives", "a gradient is not projected out: %.3g of %.3g is left", l2(z), n);
            }
            // a projector made now, for this mesh, agrees
            miso::DivergenceFreeProjector fresh(h1, nd, irOrder);
            fresh.Mult(x, z);
            z -= y;
            SIM_CHECK(l2(z) <= 1e-9 * (nx + 1e-30), "stale", "a new projector gives a field that differs by %.3g of %.3g", l2(z), nx);
            out[size_t(r)].push_back(nx);
            out[size_t(r)].push_back(ny);
            out[size_t(r)].push_back(ng);
            // a linear functional of the result that does not depend on the partition
            ParLinearForm lf(&nd);
            VectorFunctionCoefficient tc(3, s.g.vec());
            lf.AddDomainIntegrator(new VectorFEDomainLFIntegrator(tc));
            lf.Assemble();
            out[size_t(r)].push_back(gsum(lf * y));
            probe("fields projected");
         }
         else if (s.kind == 3)
         {
            ParGridFunction x(&nd), p(&nd), v(&nd), y(&nd), yb(&nd);
            project(s.f, x);
            project(s.g, p);
            project(s.v, v);
            double base = 0.25;
            yb = base;
            Vector ones(yb.Size());
            ones = base;
            div.vectorJacobianProduct(x, p, "in", yb);
            yb -= ones;   // the product is added to what was there
            div.Mult(v, y);
            double a = gdot(yb, v), b = gdot(p, y), sc = gnorm(p) * gnorm(v) + 1e-30;
            SIM_CHECK(std::fabs(a - b) <= 1e-8 * sc, "adjoint", "divergence-free: <p, P v> = %.15g but <P^T p, v> = %.15g", b, a);
            yb = base;
            irr.vectorJacobianProduct(x, p, "in", yb);
            yb -= ones;
            irr.Mult(v, y);
            a = gdot(yb, v);
            b = gdot(p, y);
            SIM_CHECK(std::fabs(a - b) <= 1e-8 * sc, "adjoint", "irrotational: <p, P v> = %.15g but <P^T p, v> = %.15g", b, a);
            Vector keep(yb);
            irr.vectorJacobianProduct(x, p, "something_else", yb);
            keep -= yb;
            SIM_CHECK(gmax(keep.Normlinf()) == 0, "adjoint-unknown", "a derivative was added for an unknown input");
            out[size_t(r)].push_back(a);
            probe("adjoints checked");
         }
         else
         {
            // derivative with respect to the mesh nodes against central differences
            ParGridFunction x(&nd), p(&nd), y(&nd);
            project(s.f, x);
            project(s.g, p);
            auto &mfes = *nodes.ParFESpace();
            ParGridFunction dv(&mfes), xb(&mfes);
            VectorFunctionCoefficient vc(3, s.v.vec());
            dv.ProjectCoefficient(vc);
            auto &op = static_cast<miso::IrrotationalProjector &>(div);
            (void)op;
            xb = 0.5;
            Vector half(xb.Size());
            half = 0.5;
            bool useDiv = s.both;
            if (useDiv) { div.vectorJacobianProduct(x, p, "mesh_coords", xb); }
            else { irr.vectorJacobianProduct(x, p, "mesh_coords", xb); }
            xb -= half;
            double a = gdot(xb, dv);
            miso::MISOInputs in{{"mesh_coords", nodes}};
            Vector keep(nodes);
            auto eval = [&](double h)
            {
               nodes = keep;
               nodes.Add(h, dv);
               if (useDiv) { setInputs(div, in); div.Mult(x, y); }
               else { setInputs(irr, in); irr.Mult(x, y); }
               return gdot(p, y);
            };
            // Richardson extrapolation of central differences
            double h = 2e-3;
            double d1 = (eval(h) - eval(-h)) / (2 * h), d2 = (eval(h / 2) - eval(-h / 2)) / h, d3 = (eval(h / 4) - eval(-h / 4)) / (h / 2);
            double e1 = (4 * d2 - d1) / 3, e2 = (4 * d3 - d2) / 3, b = (16 * e2 - e1) / 15;
            nodes = keep;
            setInputs(div, in);
            setInputs(irr, in);
            double sc = gnorm(p) * gnorm(x) * (1 + gmax(dv.Normlinf()));
            double tol = 20 * std::fabs(b - e2) + 1e-7 * sc;
            SIM_CHECK(std::fabs(a - b) <= tol, "adjoint-mesh", "%s: the derivative with respect to the mesh nodes is %.12g, central differences give %.12g (tolerance %.2g)",
                      useDiv ? "divergence-free" : "irrotational", a, b, tol);
            if (tol > 1e-3 * std::fabs(b)) { probe("mesh derivative compared loosely"); }
            probe("mesh derivatives checked");
         }
      }
      (void)tcur;
   });
   checkThrew(res);
}
}  // namespace

void driverRun()
{
   std::string prop = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "P01";
   Case c;
   c.adjoint = prop == "P02";
   c.ms = genMesh(3, 24, 4, true, true);
   c.order = c.ms.ne > 12 ? 1 : genInt(1, 2);
   if (c.order == 2 && c.ms.ne > 8 && gen(2)) { c.order = 1; }
   int ns = genInt(1, 4);
   for (int i = 0; i < ns; ++i)
   {
      Step s;
      uint32_t k = gen(6);
      if (c.adjoint) { s.kind = k < 2 ? 3 : k < 4 ? 4 : k == 4 ? 1 : 0; }
      else { s.kind = k < 3 ? 0 : k < 5 ? 1 : 2; }
      s.t = genIn(0, 2);
      s.f = genField();
      s.g = genField();
      s.v = genField();
      s.both = gen(2);
      c.steps.push_back(s);
   }
   Step last = c.steps.back();
   last.kind = c.adjoint ? 3 : 0;
   c.steps.push_back(last);
   std::vector<std::vector<double>> a, b;
   describe(c.ms.str() + fmt(", order %d, %zu steps", c.order, c.steps.size()));
   hashMesh(c.ms);
   for (auto &s : c.steps) { signature(uint64_t(s.kind)); }
   runCase(c, a, false);
   for (auto &v : a[0]) { hashD(v); }
   for (size_t r = 1; r < a.size(); ++r)
   {
      SIM_CHECK(a[r] == a[0], "ranks-disagree", "global results differ between rank 0 and rank %zu", r);
   }
   if (c.ms.nranks > 1)
   {
      nontrivial();
      Case s = c;
      s.ms.nranks = 1;
      runCase(s, b, true);
      SIM_CHECK(a[0].size() == b[0].size(), "partition", "different number of results");
      if (!c.adjoint)
      {
         for (size_t i = 0; i < b[0].size(); ++i)
         {
            SIM_CHECK(std::fabs(a[0][i] - b[0][i]) <= 1e-8 * (1 + std::fabs(b[0][i])), "partition", "result %zu is %.15g on %d ranks and %.15g on one", i, a[0][i],
                      c.ms.nranks, b[0][i]);
         }
         probe("results compared with one rank");
      }
   }
}
