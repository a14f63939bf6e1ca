// SOURCES: ALL
// M01 warping a mesh with the surface it is given; X01 fields: transfer to
// discontinuous spaces, its derivatives, norms and errors.
#include "femsim.hpp"
#include "mesh_warper.hpp"
#include "l2_transfer_operator.hpp"
using namespace femsim;
using nlohmann::json;
static std::string gProp = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "M01";
const char *driverProperty() { return gProp.c_str(); }
static std::vector<int> gPart;
int *mfem::Mesh::GeneratePartitioning(int n, int)
{
   int *p = new int[GetNE()];
   for (int i = 0; i < GetNE(); ++i) { p[i] = i < int(gPart.size()) ? gPart[size_t(i)] % n : i * n / GetNE(); }
   return p;
}

namespace
{
struct Obs { std::string key; double v, scale, tol; };
struct Result
{
   std::vector<Obs> obs;
   void add(const std::string &k, double v, double scale, double tol = 1e-8) { obs.push_back({k, v, scale, tol}); note("%s = %.15g", k.c_str(), v); }
};
void compare(const std::string &what, const Result &a, const Result &b, const char *cls, const char *an, const char *bn)
{
   SIM_CHECK(a.obs.size() == b.obs.size(), cls, "%s: different numbers of results", what.c_str());
   for (size_t i = 0; i < a.obs.size(); ++i)
   {
      const auto &x = a.obs[i], &y = b.obs[i];
      double sc = std::max(std::max(x.scale, y.scale), 1e-6);
      bool same = (std::isnan(x.v) && std::isnan(y.v)) || std::fabs(x.v - y.v) <= x.tol * sc;
      SIM_CHECK(same, cls, "%s: %s: %.14g %s, %.14g %s", what.c_str(), x.key.c_str(), x.v, an, y.v, bn);
   }
}
void agree(const std::string &what, double v)
{
   double lo = v, hi = v;
   MPI_Allreduce(&v, &lo, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
   MPI_Allreduce(&v, &hi, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
   SIM_CHECK((lo == hi) || std::isnan(v), "ranks-disagree", "%s differs between ranks: %.17g .. %.17g", what.c_str(), lo, hi);
}

// ---------------------------------------------------------------- M01
enum WKind { wAffine, wField, wRes, wProd, wAdj, wLinear };
const char *wName(int k)
{
   const char *n[] = {"affine motion", "warp", "residual", "products", "adjoint", "superposition"};
   return n[k];
}
struct WOp
{
   int kind = wField;
   double A[3][3], b[3];
   Field f, g, v;
   double mag = 0.05;
   bool guess = false, surfInput = false;
};
struct WSpec
{
   MeshSpec ms;
   bool byNodes = false;
   json opts;
   std::vector<WOp> ops;
   std::string str() const { return fmt("warping %s, nodes %s", ms.str().c_str(), byNodes ? "by component" : "by point"); }
};
struct Warp : miso::MeshWarper
{
   using miso::MeshWarper::MeshWarper;
};
std::unique_ptr<Mesh> wMesh(const WSpec &s)
{
   Mesh m = s.ms.serialRaw();
   m.SetCurvature(s.ms.nodeOrder, false, s.ms.dim, s.byNodes ? Ordering::byNODES : Ordering::byVDIM);
   s.ms.deform(*m.GetNodes(), *m.GetNodes(), 0.0);
   return std::make_unique<Mesh>(m);
}
struct WSol
{
   const WSpec &sp;
   std::unique_ptr<Warp> w;
   Vector x0, surf0;
   Array<int> idx;
   int dim;
   // of our own: the mesh of the same partition, its node space, the stiffness matrix
   std::unique_ptr<ParMesh> pm;
   ParFiniteElementSpace *fes = nullptr;
   std::unique_ptr<ParBilinearForm> K;
   std::unique_ptr<HypreParMatrix> A;
   ConstantCoefficient one{1.0};
   Array<int> ess;
   explicit WSol(const WSpec &s) : sp(s), dim(s.ms.dim)
   {
      gPart = s.ms.part;
      w = std::make_unique<Warp>(MPI_COMM_WORLD, s.opts, wMesh(s));
      x0.SetSize(w->getVolumeCoordsSize());
      surf0.SetSize(w->getSurfaceCoordsSize());
      x0 = -77.0;
      surf0 = -77.0;
      w->getInitialVolumeCoords(x0);
      w->getInitialSurfaceCoords(surf0);
      w->getSurfCoordIndices(idx);
      auto m = wMesh(s);
      pm = std::make_unique<ParMesh>(MPI_COMM_WORLD, *m);
      fes = dynamic_cast<ParGridFunction *>(pm->GetNodes())->ParFESpace();
      K = std::make_unique<ParBilinearForm>(fes);
      K->AddDomainIntegrator(new ElasticityIntegrator(one, one));
      K->Assemble();
      K->Finalize();
      A.reset(K->ParallelAssemble());
      Array<int> b(pm->bdr_attributes.Max());
      b = 1;
      fes->GetEssentialTrueDofs(b, ess);
   }
   void check()
   {
      SIM_CHECK(x0.Size() == fes->GetTrueVSize() && w->getVolumeCoordsSize() == x0.Size() && w->getStateSize() == x0.Size(), "sizes",
                "%s: %d volume coordinates, the nodes have %d", sp.str().c_str(), x0.Size(), fes->GetTrueVSize());
      SIM_CHECK(idx.Size() == ess.Size() && surf0.Size() == ess.Size() && w->getSurfaceCoordsSize() == ess.Size(), "sizes",
                "%s: %d surface coordinates and %d indices, the boundary has %d", sp.str().c_str(), surf0.Size(), idx.Size(), ess.Size());
      Vector n;
      dynamic_cast<ParGridFunction *>(pm->GetNodes())->GetTrueDofs(n);
      n -= x0;
      SIM_CHECK(n.Normlinf() == 0, "initial-coords", "%s: the initial volume coordinates are not those of the mesh nodes", sp.str().c_str());
      Array<int> a(idx), b(ess);
      a.Sort();
      b.Sort();
      for (int i = 0; i < a.Size(); ++i)
      {
         SIM_CHECK(a[i] == b[i], "surface-indices", "%s: the surface indices are not the boundary nodes (%d instead of %d)", sp.str().c_str(), a[i], b[i]);
         SIM_CHECK(surf0(i) == x0(idx[i]), "initial-coords", "%s: initial surface coordinate %d is %.17g, the volume has %.17g there", sp.str().c_str(), i, surf0(i), x0(idx[i]));
      }
   }
   bool onSurf(int i) const { for (int e : ess) { if (e == i) { return true; } } return false; }
   /// true dof vector of a displacement given as a function of the initial position
   Vector disp(const std::function<void(const double *, double *)> &f) const
   {
      ParGridFunction X(fes), D(fes);
      X.SetFromTrueDofs(x0);
      for (int i = 0; i < fes->GetNDofs(); ++i)
      {
         double a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
         for (int d = 0; d < dim; ++d) { a[d] = X(fes->DofToVDof(i, d)); }
         f(a, b);
         for (int d = 0; d < dim; ++d) { D(fes->DofToVDof(i, d)) = b[d]; }
      }
      Vector t;
      D.GetTrueDofs(t);
      return t;
   }
   Vector fieldDisp(const Field &f, double mag) const
   {
      return disp([&](const double *a, double *b) { f.eval(a, dim, b, dim); for (int d = 0; d < dim; ++d) { b[d] *= mag; } });
   }
   /// partition-independent functionals of a displacement
   void observe(Result &r, const std::string &key, const Vector &x, const Field &g, double tol = 1e-7) const
   {
      ParGridFunction D(fes);
      D.SetFromTrueDofs(x);
      ParLinearForm lf(fes);
      VectorFunctionCoefficient vc(dim, g.vec());
      lf.AddDomainIntegrator(new VectorDomainLFIntegrator(vc));
      lf.Assemble();
      double v = gsum(lf * D);
      agree(key, v);
      r.add(key + " (functional)", v, 1.0, tol);
      r.add(key + " (norm)", gnorm(x), gnorm(x), tol);
   }
   Vector solve(const Vector &surf, const Vector *guess, const WOp &op)
   {
      Vector x(guess ? *guess : x0);
      for (int i = 0; i < idx.Size(); ++i) { x(idx[i]) = surf(i); }
      if (op.surfInput)
      {
         Vector s(surf);
         miso::MISOInputs in{{"surf_mesh_coords", s}};
         w->solveForState(in, x);
         s -= surf;
         SIM_CHECK(s.Normlinf() == 0 || s.Size() == 0, "input-modified", "the surface coordinates passed in were modified");
      }
      else { w->solveForState(x); }
      return x;
   }
   /// K (x - x0) with surface rows left out
   Vector interior(const Vector &x) const
   {
      Vector d(x), r(x.Size());
      d -= x0;
      A->Mult(d, r);
      for (int e : ess) { r(e) = 0; }
      return r;
   }
   Vector surfOf(const Vector &d) const
   {
      Vector s(surf0);
      for (int i = 0; i < idx.Size(); ++i) { s(i) = x0(idx[i]) + d(idx[i]); }
      return s;
   }
   void checkWarped(const Vector &x, const Vector &surf, double scale, const char *what) const
   {
      for (int i = 0; i < idx.Size(); ++i)
      {
         SIM_CHECK(x(idx[i]) == surf(i), "surface-moved", "%s, %s: surface coordinate %d is %.17g instead of %.17g", sp.str().c_str(), what, i, x(idx[i]), surf(i));
      }
      double r = gnorm(interior(x));
      SIM_CHECK(r <= 1e-7 * (scale + 1e-3), "no-equilibrium", "%s, %s: the interior nodes are not in equilibrium: %.3g", sp.str().c_str(), what, r);
   }
};
void runW(const WSpec &sp, WSol &s, const WOp &op, Result &out)
{
   auto &w = *s.w;
   int n = s.x0.Size(), dim = s.dim;
   auto randv = [&](const Field &f, double m) { return s.fieldDisp(f, m); };
   switch (op.kind)
   {
      case wAffine:
      {
         auto d = s.disp([&](const double *a, double *b) { for (int i = 0; i < dim; ++i) { b[i] = op.b[i]; for (int j = 0; j < dim; ++j) { b[i] += op.A[i][j] * a[j]; } } });
         Vector guess(s.x0);
         guess += randv(op.g, 0.1);
         Vector surf = s.surfOf(d);
         Vector x = s.solve(surf, op.guess ? &guess : nullptr, op);
         s.checkWarped(x, surf, 1.0, "affine motion");
         Vector e(x);
         e -= s.x0;
         e -= d;
         SIM_CHECK(gmax(e.Normlinf()) <= 1e-7, "affine", "%s: an affine motion of the surface moves the volume by another motion, off by %.3g", sp.str().c_str(), gmax(e.Normlinf()));
         s.observe(out, "affine", x, op.v);
         probe("affine motions");
         break;
      }
      case wField:
      {
         auto d = randv(op.f, op.mag);
         Vector surf = s.surfOf(d), keep(surf);
         Vector x = s.solve(surf, nullptr, op);
         s.checkWarped(x, surf, 1.0, "warp");
         Vector guess(s.x0);
         guess += randv(op.g, 0.2);
         Vector y = s.solve(surf, &guess, op);
         s.checkWarped(y, surf, 1.0, "warp from another guess");
         Vector e(x);
         e -= y;
         SIM_CHECK(gmax(e.Normlinf()) <= 1e-6, "guess", "%s: the warped mesh depends on the initial guess (by %.3g)", sp.str().c_str(), gmax(e.Normlinf()));
         s.observe(out, "warped", x, op.v);
         double rn = w.calcResidualNorm(x);
         agree("residual norm", rn);
         SIM_CHECK(rn <= 1e-6, "no-equilibrium", "%s: the residual norm of the warped mesh is %.3g", sp.str().c_str(), rn);
         probe("meshes warped");
         break;
      }
      case wLinear:
      {
         auto d1 = randv(op.f, op.mag), d2 = randv(op.g, op.mag);
         Vector x1 = s.solve(s.surfOf(d1), nullptr, op), x2 = s.solve(s.surfOf(d2), &x1, op);
         Vector d3(d1);
         d3 *= 0.7;
         d3.Add(-1.3, d2);
         Vector x3 = s.solve(s.surfOf(d3), &x2, op);
         Vector e(x3);
         e -= s.x0;
         x1 -= s.x0;
         x2 -= s.x0;
         e.Add(-0.7, x1);
         e.Add(1.3, x2);
         SIM_CHECK(gmax(e.Normlinf()) <= 1e-6, "superposition", "%s: the displacement is not linear in that of the surface (off by %.3g)", sp.str().c_str(), gmax(e.Normlinf()));
         s.observe(out, "combination", x3, op.v);
         break;
      }
      case wRes:
      {
         Vector x(s.x0);
         x += randv(op.f, op.mag);
         Vector surf = s.surfOf(randv(op.g, op.mag)), x1(x), surf1(surf), r(n), q(n);
         r = 55.0;
         q = 55.0;
         miso::MISOInputs in{{"state", x}, {"surf_mesh_coords", surf}};
         w.calcResidual(in, r);
         w.calcResidual(x, q);
         Vector ref = s.interior(x);
         double sc = 1 + gnorm(ref);
         for (int i = 0; i < n; ++i)
         {
            if (s.onSurf(i)) { continue; }
            SIM_CHECK(std::fabs(r(i) - ref(i)) <= 1e-9 * sc && std::fabs(q(i) - ref(i)) <= 1e-9 * sc, "residual", "%s: residual %d is %.15g (with surface coordinates) and %.15g (without), elasticity gives %.15g",
                      sp.str().c_str(), i, r(i), q(i), ref(i));
         }
         for (int i = 0; i < s.idx.Size(); ++i)
         {
            SIM_CHECK(r(s.idx[i]) == x(s.idx[i]) - surf(i), "residual", "%s: residual of surface coordinate %d is %.17g instead of %.17g", sp.str().c_str(), i, r(s.idx[i]), x(s.idx[i]) - surf(i));
            SIM_CHECK(q(s.idx[i]) == 0, "residual", "%s: residual of surface coordinate %d is %.17g although none are given", sp.str().c_str(), i, q(s.idx[i]));
         }
         x1 -= x;
         surf1 -= surf;
         SIM_CHECK(x1.Normlinf() == 0 && (surf1.Size() == 0 || surf1.Normlinf() == 0), "input-modified", "evaluating the residual modified its inputs");
         double rn = w.calcResidualNorm(in);
         agree("residual norm", rn);
         SIM_CHECK(std::fabs(rn - gnorm(r)) <= 1e-10 * (1 + rn), "residual-norm", "%s: the residual norm is %.15g, of the residual %.15g", sp.str().c_str(), rn, gnorm(r));
         out.add("residual norm", rn, 1 + rn);
         probe("residuals");
         break;
      }
      case wProd:
      {
         Vector x(s.x0);
         x += randv(op.f, op.mag);
         Vector surf = s.surfOf(randv(op.g, op.mag));
         miso::MISOInputs in{{"state", x}, {"surf_mesh_coords", surf}};
         w.linearize(in);
         Vector v = randv(op.v, 1.0), p = randv(op.g, 1.0), rd(n), sb(n);
         Vector v1(v), p1(p);
         double base = 0.375;
         rd = base;
         w.jacobianVectorProduct(v, "state", rd);
         Vector Kv(n);
         s.A->Mult(v, Kv);
         double sc = 1 + gnorm(Kv);
         for (int i = 0; i < n; ++i)
         {
            if (s.onSurf(i)) { continue; }
            SIM_CHECK(std::fabs(rd(i) - base - Kv(i)) <= 1e-9 * sc, "products", "%s: entry %d of the product with the state Jacobian is %.15g instead of %.15g", sp.str().c_str(), i, rd(i) - base, Kv(i));
         }
         sb = base;
         w.vectorJacobianProduct(p, "state", sb);
         rd -= base;
         sb -= base;
         double a = gdot(rd, p), b = gdot(sb, v);
         SIM_CHECK(std::fabs(a - b) <= 1e-9 * (1 + gnorm(p) * gnorm(rd)), "transpose", "%s: <p, J v> = %.15g but <J^T p, v> = %.15g", sp.str().c_str(), a, b);
         // with respect to the surface coordinates the residual is state - surface there
         Vector sd(s.idx.Size()), rb(s.idx.Size());
         for (int i = 0; i < sd.Size(); ++i) { sd(i) = v(s.idx[i]); }
         Vector sd1(sd);
         rd = base;
         w.jacobianVectorProduct(sd, "surf_mesh_coords", rd);
         rb = base;
         w.vectorJacobianProduct(p, "surf_mesh_coords", rb);
         for (int i = 0; i < n; ++i)
         {
            if (!s.onSurf(i)) { SIM_CHECK(rd(i) == base, "products", "%s: a surface coordinate contributes to the residual of interior node %d", sp.str().c_str(), i); }
         }
         for (int i = 0; i < s.idx.Size(); ++i)
         {
            SIM_CHECK(std::fabs(rd(s.idx[i]) - base + sd(i)) <= 1e-14 * (1 + std::fabs(sd(i))), "products", "%s: forward product of surface coordinate %d is %.15g instead of %.15g", sp.str().c_str(), i, rd(s.idx[i]) - base, -sd(i));
            SIM_CHECK(std::fabs(rb(i) - base + p(s.idx[i])) <= 1e-14 * (1 + std::fabs(p(s.idx[i]))), "products", "%s: reverse product of surface coordinate %d is %.15g instead of %.15g", sp.str().c_str(), i, rb(i) - base, -p(s.idx[i]));
         }
         v1 -= v;
         p1 -= p;
         sd1 -= sd;
         SIM_CHECK(v1.Normlinf() == 0 && p1.Normlinf() == 0 && (sd1.Size() == 0 || sd1.Normlinf() == 0), "input-modified", "%s: a product modified the vector passed in", sp.str().c_str());
         out.add("<p, J v>", a, 1 + gnorm(p) * sc);
         probe("products");
         break;
      }
      case wAdj:
      {
         Vector x(s.x0);
         x += randv(op.f, op.mag);
         Vector surf = s.surfOf(randv(op.g, op.mag));
         miso::MISOInputs in{{"state", x}, {"surf_mesh_coords", surf}};
         Vector rhs = randv(op.v, 1.0), rhs1(rhs), adj(n);
         // a right-hand side that does not depend on the partition
         Vector t(n);
         s.A->Mult(rhs, t);
         rhs = t;
         rhs1 = rhs;
         if (op.guess) { adj = randv(op.g, 1.0); }
         else { adj = 0.0; }
         w.solveForAdjoint(in, rhs, adj);
         rhs1 -= rhs;
         SIM_CHECK(rhs1.Normlinf() == 0, "input-modified", "%s: the adjoint solve modified its right-hand side", sp.str().c_str());
         Vector q(n);
         s.A->Mult(adj, q);   // symmetric
         q -= rhs;
         double bad = 0;
         for (int i = 0; i < n; ++i)
         {
            if (s.onSurf(i)) { SIM_CHECK(adj(i) == 0, "adjoint-surface", "%s: the adjoint is %.3g at surface coordinate %d", sp.str().c_str(), adj(i), i); }
            else { bad = std::max(bad, std::fabs(q(i))); }
         }
         SIM_CHECK(gmax(bad) <= 1e-7 * (1 + gnorm(rhs)), "adjoint", "%s: the adjoint misses its equations by %.3g", sp.str().c_str(), gmax(bad));
         s.observe(out, "adjoint", adj, op.v);
         probe("adjoints");
         break;
      }
   }
}
WOp genW()
{
   WOp o;
   static const int kinds[] = {wAffine, wField, wField, wRes, wProd, wAdj, wLinear};
   o.kind = kinds[gen(7)];
   for (int i = 0; i < 3; ++i)
   {
      o.b[i] = genIn(-1, 1);
      for (int j = 0; j < 3; ++j) { o.A[i][j] = genIn(-0.6, 0.6); }
   }
   o.f = genField();
   o.g = genField();
   o.v = genField();
   o.mag = (gen(2) == 1) ? 0.03 : genIn(0.0, 0.3);
   o.guess = (gen(2) == 1);
   o.surfInput = (gen(2) == 1);
   return o;
}
void runM01()
{
   WSpec sp;
   int dim = genInt(2, 3);
   sp.ms = genMesh(dim, dim == 3 ? 24 : 9, 4, true, true);
   sp.byNodes = gen(4) == 0;
   sp.opts = R"({"silent": true, "print-options": false, "mesh": {"file": "x.mesh"},
    "space-dis": {"basis-type": "h1", "degree": 1},
    "lin-solver": {"type": "pcg", "printlevel": -1, "maxiter": 300, "abstol": 1e-14, "reltol": 1e-14},
    "adj-solver": {"type": "pcg", "printlevel": -1, "maxiter": 300, "abstol": 1e-14, "reltol": 1e-14},
    "nonlin-solver": {"type": "newton", "printlevel": -1, "maxiter": 4, "reltol": 1e-13, "abstol": 1e-11},
    "lin-prec": {"printlevel": -1}, "bcs": {"essential": "all"}})"_json;
   sp.opts["space-dis"]["degree"] = sp.ms.nodeOrder;
   if (gen(3) == 0)
   {
      sp.opts["lin-solver"] = R"({"type": "gmres", "printlevel": -1, "maxiter": 300, "kdim": 300, "abstol": 1e-14, "reltol": 1e-14})"_json;
      sp.opts["adj-solver"] = sp.opts["lin-solver"];
   }
   int nops = genInt(2, 5);
   for (int i = 0; i < nops; ++i) { sp.ops.push_back(genW()); }
   describe(fmt("%s; %d operations", sp.str().c_str(), nops));
   hashMesh(sp.ms);
   for (auto &o : sp.ops) { signature(uint64_t(o.kind) + 100); note("op %s guess %d input %d", wName(o.kind), int(o.guess), int(o.surfInput)); }
   std::vector<Result> ref(sp.ops.size()), got(sp.ops.size());
   int nr = sp.ms.nranks;
   auto run = [&](std::vector<Result> &r, bool plain, bool fresh) {
      JobConfig jc;
      jc.nranks = sp.ms.nranks;
      jc.plain = plain;
      jc.maxSteps = 40000000;
      auto res = runJob(jc, [&](int rk) {
         WSol s(sp);
         s.check();
         for (size_t k = 0; k < sp.ops.size(); ++k)
         {
            Result loc;
            runW(sp, s, sp.ops[k], loc);
            if (rk == 0) { r[k] = loc; }
            if (fresh && k > 0 && sp.ops[k].v.a[0][0] > 0.3)
            {
               WSol f(sp);
               Result fr;
               runW(sp, f, sp.ops[k], fr);
               compare(sp.str() + ", " + wName(sp.ops[k].kind), loc, fr, "history", "after earlier operations", "from a new warper");
            }
         }
      });
      checkThrew(res);
   };
   sp.ms.nranks = 1;
   run(ref, true, false);
   sp.ms.nranks = nr;
   run(got, false, true);
   for (size_t k = 0; k < sp.ops.size(); ++k) { compare(sp.str() + ", " + wName(sp.ops[k].kind), got[k], ref[k], "partition", "here", "on one rank"); }
   if (nr > 1) { nontrivial(); }
}

// ---------------------------------------------------------------- X01
enum XKind { xScalar, xIdent, xCurl, xCurlMag };
enum XOpKind { xApply, xState, xMesh, xNorm, xOutBar };
struct XOp
{
   int kind = xApply;
   Field f, g, v, e;
   double t = 0;
   bool move = false, viaInputs = true;
   int p = 0, entry = -1;
   double base = 0.25;
};
struct XSpec
{
   MeshSpec ms;
   int kind = xScalar;
   std::string basis;
   int deg = 1, outDeg = 1, vdim = 1;
   std::vector<XOp> ops;
   std::string str() const
   {
      const char *k[] = {"identity of a scalar", "identity", "curl", "magnitude of the curl"};
      return fmt("%s, %s degree %d to degree %d, %s", k[kind], basis.c_str(), deg, outDeg, ms.str().c_str());
   }
};
struct XSol
{
   const XSpec &sp;
   std::unique_ptr<ParMesh> pm;
   std::unique_ptr<miso::FiniteElementState> state, out, coords;
   std::unique_ptr<miso::L2TransferOperator> op;
   Vector X0, xc;
   double t = 0;
   int dim;
   explicit XSol(const XSpec &s) : sp(s), dim(s.ms.dim)
   {
      gPart = s.ms.part;
      pm = s.ms.parallel();
      auto &gf = dynamic_cast<ParGridFunction &>(*pm->GetNodes());
      coords = std::make_unique<miso::FiniteElementState>(*pm, *gf.ParFESpace(), "mesh_coords");
      coords->gridFunc() = gf;
      pm->NewNodes(coords->gridFunc(), false);
      state = std::make_unique<miso::FiniteElementState>(*pm, json{{"degree", s.deg}, {"basis-type", s.basis}}, 1, "state");
      out = std::make_unique<miso::FiniteElementState>(*pm, json{{"degree", s.outDeg}, {"basis-type", "DG"}}, s.vdim, "out");
      if (s.kind == xScalar) { op = std::make_unique<miso::ScalarL2IdentityProjection>(*state, *coords, *out); }
      else if (s.kind == xIdent) { op = std::make_unique<miso::L2IdentityProjection>(*state, *coords, *out); }
      else if (s.kind == xCurl) { op = std::make_unique<miso::L2CurlProjection>(*state, *coords, *out); }
      else { op = std::make_unique<miso::L2CurlMagnitudeProjection>(*state, *coords, *out); }
      xc.SetSize(coords->space().GetTrueVSize());
      coords->setTrueVec(xc);
   }
   bool vectorState() const { return sp.basis == "nd" || sp.basis == "rt"; }
   Vector field(const Field &f)
   {
      Vector t(state->space().GetTrueVSize());
      if (vectorState()) { state->project(f.vec(), t); }
      else { state->project(f.sca(), t); }
      return t;
   }
   Vector outField(const Field &f)
   {
      Vector t(out->space().GetTrueVSize());
      if (sp.vdim > 1) { out->project(f.vec(), t); }
      else { out->project(f.sca(), t); }
      return t;
   }
   Vector nodeField(const Field &f)
   {
      ParGridFunction g(&coords->space());
      VectorFunctionCoefficient vc(dim, f.vec());
      g.ProjectCoefficient(vc);
      Vector t;
      g.GetTrueDofs(t);
      return t;
   }
   void apply(const Vector &u, const Vector *xm, Vector &o)
   {
      if (xm)
      {
         Vector a(u), b(*xm);
         miso::MISOInputs in{{"state", a}, {"mesh_coords", b}};
         calcOutput(*op, in, o);
         a -= u;
         b -= *xm;
         SIM_CHECK((a.Size() == 0 || a.Normlinf() == 0) && b.Normlinf() == 0, "input-modified", "%s: applying the operator modified its inputs", sp.str().c_str());
      }
      else { op->apply(u, o); }
   }
};
void runX(const XSpec &sp, XSol &s, const XOp &o, Result &res)
{
   int dim = s.dim;
   if (o.move)
   {
      // a smooth motion of the nodes, a function of their present position
      Vector d = s.nodeField(o.e);
      s.xc.Add(0.02, d);
   }
   // the position of the nodes is passed explicitly, or with an announcement before
   Vector u0;
   {
      miso::MISOInputs in{{"mesh_coords", s.xc}};
      setInputs(*s.op, in);
   }
   Vector u = s.field(o.f);
   int nout = s.out->space().GetTrueVSize();
   Vector y(nout);
   y = 13.0;
   switch (o.kind)
   {
      case xApply:
      {
         s.apply(u, o.viaInputs ? &s.xc : nullptr, y);
         SIM_CHECK(y.Size() == nout && getSize(*s.op) == nout, "sizes", "%s: the output has %d entries instead of %d", sp.str().c_str(), y.Size(), nout);
         ParGridFunction su(&s.state->space()), yo(&s.out->space());
         su.SetFromTrueDofs(u);
         yo.SetFromTrueDofs(y);
         double worst = 0, scale = 1;
         Vector val(3), cur;
         Array<int> vd;
         for (int e = 0; e < s.pm->GetNE(); ++e)
         {
            auto *T = s.pm->GetElementTransformation(e);
            const auto &ir = s.out->space().GetFE(e)->GetNodes();
            s.out->space().GetElementVDofs(e, vd);
            int nd = ir.GetNPoints();
            for (int i = 0; i < nd; ++i)
            {
               const auto &ip = ir.IntPoint(i);
               T->SetIntPoint(&ip);
               double ref[3] = {0, 0, 0};
               if (sp.kind == xScalar) { ref[0] = su.GetValue(*T, ip); }
               else if (sp.kind == xIdent)
               {
                  su.GetVectorValue(*T, ip, val);
                  for (int d = 0; d < dim; ++d) { ref[d] = val(d); }
               }
               else
               {
                  double c[3] = {0, 0, 0};
                  if (dim == 3)
                  {
                     su.GetCurl(*T, cur);
                     for (int d = 0; d < 3; ++d) { c[d] = cur(d); }
                  }
                  else
                  {
                     su.GetGradient(*T, cur);
                     c[0] = cur(1);
                     c[1] = -cur(0);
                  }
                  if (sp.kind == xCurl) { for (int d = 0; d < dim; ++d) { ref[d] = c[d]; } }
                  else { ref[0] = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]); }
               }
               for (int d = 0; d < sp.vdim; ++d)
               {
                  double v = yo(vd[d * nd + i]);
                  worst = std::max(worst, std::fabs(v - ref[d]));
                  if (!(v == v)) { worst = NAN; }
                  scale = std::max(scale, std::fabs(ref[d]));
               }
            }
         }
         SIM_CHECK(worst <= 1e-10 * scale, "values", "%s: the transferred field differs by %.3g at a node", sp.str().c_str(), worst);
         res.add("norm of the transferred field", gnorm(y), 1 + gnorm(y), 1e-8);
         probe("fields transferred");
         break;
      }
      case xState:
      {
         Vector v = s.field(o.v), w = s.outField(o.g), w1(w), b(v.Size()), z(nout);
         s.apply(u, o.viaInputs ? &s.xc : nullptr, y);
         b = o.base;
         s.op->vectorJacobianProduct(w, "state", b);
         w1 -= w;
         SIM_CHECK(w1.Size() == 0 || w1.Normlinf() == 0, "input-modified", "%s: a product modified its seed", sp.str().c_str());
         b -= o.base;
         double a = gdot(b, v), d;
         if (sp.kind != xCurlMag)
         {
            s.apply(v, nullptr, z);
            d = gdot(w, z);
            double sc = 1e-30 + gnorm(w) * gnorm(z) + gnorm(b) * gnorm(v);
            SIM_CHECK(std::fabs(a - d) <= 1e-10 * sc, "transpose", "%s: <w, T v> = %.15g but <T^T w, v> = %.15g", sp.str().c_str(), d, a);
            // linear, so it does not depend on the state
         }
         else
         {
            auto eval = [&](double h) { Vector q(u); q.Add(h, v); s.apply(q, nullptr, z); return gdot(w, z); };
            double h = 1e-3;
            double d1 = (eval(h) - eval(-h)) / (2 * h), d2 = (eval(h / 2) - eval(-h / 2)) / h, d3 = (eval(h / 4) - eval(-h / 4)) / (h / 2);
            double e1 = (4 * d2 - d1) / 3, e2 = (4 * d3 - d2) / 3;
            d = (16 * e2 - e1) / 15;
            // kinks where the curl vanishes are not differentiable
            double tol = 20 * std::fabs(d - e2) + 10 * std::fabs(e2 - e1) + 1e-8 * (gnorm(w) * gnorm(y) + std::fabs(d));
            if (tol > 1e-3 * std::fabs(d)) { probe("compared loosely"); }
            SIM_CHECK(std::fabs(a - d) <= tol, "derivative", "%s: derivative with respect to the state is %.12g, central differences give %.12g (tolerance %.2g)", sp.str().c_str(), a, d, tol);
         }
         Vector q(v.Size());
         q = o.base;
         s.op->vectorJacobianProduct(w, "something else", q);
         q -= o.base;
         SIM_CHECK(q.Size() == 0 || q.Normlinf() == 0, "unknown-input", "%s: a product was added for an unknown input", sp.str().c_str());
         res.add("<T^T w, v>", a, gnorm(w) * gnorm(y) + gnorm(b) * gnorm(v), sp.kind == xCurlMag ? 1e-6 : 1e-8);
         probe("state products");
         break;
      }
      case xMesh:
      {
         Vector w = s.outField(o.g), dx = s.nodeField(o.v), b(s.xc.Size()), z(nout);
         s.apply(u, o.viaInputs ? &s.xc : nullptr, y);
         b = o.base;
         s.op->vectorJacobianProduct(w, "mesh_coords", b);
         b -= o.base;
         double a = gdot(b, dx);
         auto eval = [&](double h) { Vector q(s.xc); q.Add(h, dx); s.apply(u, &q, z); return gdot(w, z); };
         double h = 2e-3;
         double d1 = (eval(h) - eval(-h)) / (2 * h), d2 = (eval(h / 2) - eval(-h / 2)) / h, d3 = (eval(h / 4) - eval(-h / 4)) / (h / 2);
         double e1 = (4 * d2 - d1) / 3, e2 = (4 * d3 - d2) / 3, d = (16 * e2 - e1) / 15;
         double tol = 20 * std::fabs(d - e2) + 10 * std::fabs(e2 - e1) + 1e-8 * (gnorm(w) * gnorm(y) + std::fabs(d));
         if (tol > 1e-3 * std::fabs(d)) { probe("compared loosely"); }
         SIM_CHECK(std::fabs(a - d) <= tol, "derivative", "%s: derivative with respect to the mesh nodes is %.12g, central differences give %.12g (tolerance %.2g)", sp.str().c_str(), a, d, tol);
         {
            miso::MISOInputs in{{"mesh_coords", s.xc}};
            setInputs(*s.op, in);
         }
         res.add("mesh product", a, gnorm(w) * gnorm(y) + gnorm(b) * gnorm(dx), 1e-6);
         probe("mesh products");
         break;
      }
      case xOutBar:
      {
         Vector w = s.outField(o.g), b(nout);
         b = o.base;
         s.op->vectorJacobianProduct(w, "out", b);
         for (int i = 0; i < nout; ++i)
         {
            SIM_CHECK(std::fabs(b(i) - (o.base - w(i))) <= 1e-14 * (1 + std::fabs(w(i))), "out-product", "%s: product with respect to the output, entry %d: %.15g instead of %.15g", sp.str().c_str(), i, b(i) - o.base, -w(i));
         }
         break;
      }
      case xNorm:
      {
         // norms and errors of the fields, against MFEM's with the same rule and on one rank
         static const double ps[] = {1.0, 2.0, 3.0};
         bool inf = o.p == 3;
         double p = inf ? infinity() : ps[o.p];
         bool ofOut = o.viaInputs;
         auto &st = ofOut ? *s.out : *s.state;
         Vector tv = ofOut ? s.outField(o.f) : u;
         st.distributeSharedDofs(tv);
         Vector back(tv.Size());
         back = 3.0;
         st.setTrueVec(back);
         back -= tv;
         SIM_CHECK(back.Size() == 0 || back.Normlinf() == 0, "round-trip", "%s: a field distributed and collected again differs", sp.str().c_str());
         bool vec = ofOut ? sp.vdim > 1 : s.vectorState();
         const IntegrationRule *irs[Geometry::NumGeom];
         for (int g = 0; g < Geometry::NumGeom; ++g) { irs[g] = &IntRules.Get(g, 2 * st.space().GetFE(0)->GetOrder() + 3); }
         double nrm = miso::calcLpNorm(st, p), err, ref, refn, l2, l2r;
         if (vec)
         {
            VectorFunctionCoefficient vc(dim, o.g.vec());
            Vector zz(dim);
            zz = 0.0;
            VectorConstantCoefficient zc(zz);
            err = miso::calcLpError(st, o.g.vec(), p, -1);
            ref = st.gridFunc().ComputeLpError(p, vc, nullptr, nullptr, irs);
            refn = st.gridFunc().ComputeLpError(p, zc, nullptr, nullptr, irs);
            l2 = miso::calcL2Error(st, vc, -1);
            l2r = st.gridFunc().ComputeLpError(2.0, vc, nullptr, nullptr, irs);
            int en = o.entry % dim;
            double le = miso::calcLpError(st, o.g.vec(), p, en), l2e = miso::calcL2Error(st, vc, en);
            agree("error of a component", le);
            agree("L2 error of a component", l2e);
            // a component of the error, by quadrature
            double acc = 0, acc2 = 0;
            Vector a(dim), b(dim);
            for (int e = 0; e < s.pm->GetNE(); ++e)
            {
               auto *T = s.pm->GetElementTransformation(e);
               const auto &ir = *irs[s.pm->GetElementBaseGeometry(e)];
               for (int i = 0; i < ir.GetNPoints(); ++i)
               {
                  const auto &ip = ir.IntPoint(i);
                  T->SetIntPoint(&ip);
                  st.gridFunc().GetVectorValue(*T, ip, a);
                  vc.Eval(b, *T, ip);
                  double d = std::fabs(a(en) - b(en));
                  acc = inf ? std::max(acc, d) : acc + ip.weight * T->Weight() * std::pow(d, p);
                  acc2 += ip.weight * T->Weight() * d * d;
               }
            }
            double lr = inf ? gmax(acc) : std::pow(std::max(0.0, gsum(acc)), 1 / p), l2er = std::sqrt(std::max(0.0, gsum(acc2)));
            SIM_CHECK(std::fabs(le - lr) <= 1e-9 * (1 + lr) && std::fabs(l2e - l2er) <= 1e-9 * (1 + l2er), "errors", "%s: error of component %d is %.15g and %.15g, by quadrature %.15g and %.15g",
                      sp.str().c_str(), en, le, l2e, lr, l2er);
         }
         else
         {
            FunctionCoefficient fc(o.g.sca());
            ConstantCoefficient zc(0.0);
            err = miso::calcLpError(st, o.g.sca(), p);
            ref = st.gridFunc().ComputeLpError(p, fc, nullptr, irs);
            refn = st.gridFunc().ComputeLpError(p, zc, nullptr, irs);
            l2 = miso::calcL2Error(st, fc);
            l2r = st.gridFunc().ComputeLpError(2.0, fc, nullptr, irs);
         }
         agree("norm", nrm);
         agree("error", err);
         agree("L2 error", l2);
         SIM_CHECK(std::fabs(nrm - refn) <= 1e-9 * (1 + refn), "errors", "%s: the norm (p = %g) of the %s is %.15g instead of %.15g", sp.str().c_str(), p, ofOut ? "output" : "state", nrm, refn);
         SIM_CHECK(std::fabs(err - ref) <= 1e-9 * (1 + ref), "errors", "%s: the error (p = %g) of the %s is %.15g instead of %.15g", sp.str().c_str(), p, ofOut ? "output" : "state", err, ref);
         SIM_CHECK(std::fabs(l2 - l2r) <= 1e-9 * (1 + l2r), "errors", "%s: the L2 error of the %s is %.15g instead of %.15g", sp.str().c_str(), ofOut ? "output" : "state", l2, l2r);
         res.add("norm", nrm, 1 + nrm, 1e-9);
         res.add("error", err, 1 + err, 1e-9);
         res.add("L2 error", l2, 1 + l2, 1e-9);
         probe("norms and errors");
         break;
      }
   }
}
void runX01()
{
   XSpec sp;
   int dim = genInt(2, 3);
   sp.ms = genMesh(dim, dim == 3 ? 18 : 9, 4, true, true);
   sp.kind = int(gen(4));
   if (sp.kind == xScalar) { sp.basis = gen(3) ? "h1" : "dg"; }
   else if (sp.kind == xIdent) { sp.basis = gen(2) ? "nd" : "rt"; }
   else { sp.basis = dim == 3 ? "nd" : "h1"; }
   sp.deg = sp.basis == "rt" ? genInt(0, 1) : genInt(1, 2);
   sp.outDeg = genInt(0, 2);
   sp.vdim = sp.kind == xIdent || sp.kind == xCurl ? dim : 1;
   int nops = genInt(2, 6);
   for (int i = 0; i < nops; ++i)
   {
      XOp o;
      static const int k[] = {xApply, xApply, xState, xState, xMesh, xMesh, xNorm, xNorm, xOutBar};
      o.kind = k[gen(9)];
      o.f = genField();
      o.g = genField();
      o.v = genField();
      o.e = genField();
      o.move = gen(3) == 0;
      o.viaInputs = (gen(2) == 1);
      o.p = int(gen(4));
      o.entry = int(gen(3));
      sp.ops.push_back(o);
   }
   describe(fmt("%s; %d operations", sp.str().c_str(), nops));
   hashMesh(sp.ms);
   signature(uint64_t(sp.kind) * 100 + uint64_t(sp.deg) * 10 + uint64_t(sp.outDeg));
   for (auto &o : sp.ops) { signature(uint64_t(o.kind) + 100); note("op %d move %d inputs %d p %d", o.kind, int(o.move), int(o.viaInputs), o.p); }
   std::vector<Result> ref(sp.ops.size()), got(sp.ops.size());
   int nr = sp.ms.nranks;
   auto run = [&](std::vector<Result> &r, bool plain) {
      JobConfig jc;
      jc.nranks = sp.ms.nranks;
      jc.plain = plain;
      jc.maxSteps = 40000000;
      auto res = runJob(jc, [&](int rk) {
         XSol s(sp);
         for (size_t k = 0; k < sp.ops.size(); ++k)
         {
            Result loc;
            runX(sp, s, sp.ops[k], loc);
            if (rk == 0) { r[k] = loc; }
         }
      });
      checkThrew(res);
   };
   sp.ms.nranks = 1;
   run(ref, true);
   sp.ms.nranks = nr;
   run(got, false);
   for (size_t k = 0; k < sp.ops.size(); ++k) { compare(sp.str(), got[k], ref[k], "partition", "here", "on one rank"); }
   if (nr > 1) { nontrivial(); }
}
}  // namespace

void driverRun()
{
   std::cout.rdbuf(nullptr);
   if (gProp == "M01") { runM01(); }
   else { runX01(); }
}
