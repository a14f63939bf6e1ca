// SOURCES: ALL
// Steady PDE solvers: F01 partition independence, F02 history independence, F03 derivative products, F04 adjoint.
#include "pdecommon.hpp"
#include "emout.hpp"
#include "magref.hpp"
#include "outref.hpp"
using namespace pdesim;
const char *driverProperty() { return "F01"; }
static std::string gProp = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "F01";

int *mfem::Mesh::GeneratePartitioning(int n, int)
{
   int *p = new int[GetNE()];
   for (int i = 0; i < GetNE(); ++i) { p[i] = i < int(gPart.size()) ? gPart[size_t(i)] % n : i * n / GetNE(); }
   return p;
}

/// fourth-order central difference, with an estimate of its error
struct Diff
{
   double v, err;
   Diff operator*(double a) const { return {v * a, std::fabs(err * a)}; }
};
static Diff directional(const std::function<double(double)> &g, double h0 = 1e-3)
{
   auto d = [&](double h) { return (8.0 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12.0 * h); };
   double a = d(h0), b = d(0.25 * h0);
   return {b, std::fabs(a - b)};
}
static bool gFD = false;   // finite-difference and duality checks

/// the penalty is the user's: the form may not be definite, and a solver may not converge
static bool anyPenalty(const Spec &sp) { return sp.opts["space-dis"].contains("sipg-penalty"); }
static void runOp(const Spec &sp, Sol &so, const Op &op, Result &r)
{
   Ctx c(sp, so, op, r, op.kind != oSolve);
   auto &s = *so.s;
   const Vector &u = so.st[size_t(op.u)], &w = so.st[size_t(op.w)], &v = so.st[size_t(op.v)];
   int n = s.getStateSize();
   double fdTol = sp.nonlinear ? 1e-5 : 1e-6;
   auto cmpD = [&](const char *cls, const std::string &what, double a, Diff b, double scale, double tol)
   {
      SIM_CHECK(std::fabs(a - b.v) <= tol * (scale + std::fabs(a) + std::fabs(b.v)) + 1e-12 + 3.0 * b.err, cls, "%s: %s: %.12g and %.12g (scale %.3g)", sp.str().c_str(),
                what.c_str(), a, b.v, scale);
   };
   auto cmp = [&](const char *cls, const std::string &what, double a, double b, double scale, double tol)
   {
      SIM_CHECK(std::fabs(a - b) <= tol * (scale + std::fabs(a) + std::fabs(b)) + 1e-12, cls, "%s: %s: %.12g and %.12g (scale %.3g)", sp.str().c_str(),
                what.c_str(), a, b, scale);
   };
   useRho(so, op);
   switch (op.kind)
   {
      case oRes:
      {
         Vector res(n);
         res = 1e30;
         s.calcResidual(c.in, res);
         c.add("<R,w>", gdot(res, w), gabs(res, w));
         c.add("<R,v>", gdot(res, v), gabs(res, v));
         if (gProp == "E02" || gProp == "E03")
         {
            Vector ref, size;
            if (gProp == "E02") { refResidual(so, op, ref, size); }
            else { refHeat(so, op, ref, size); }
            so.zeroEss(ref);
            Vector got(res);
            so.zeroEss(got);
            got -= ref;
            double worst = 0, tol = sp.nd ? 1e-7 : 1e-10, top = gmax(size.Normlinf());
            int at = -1;
            for (int i = 0; i < n; ++i)
            {
               double q = std::fabs(got(i)) / (size(i) + (sp.nd ? top : 1e-3 * top) + 1e-12);
               if (!(q <= worst)) { worst = q; at = i; }
            }
            SIM_CHECK(worst <= tol, "definition", "%s: the residual of an unknown differs from its definition by %.3g of the size of its terms (%.10g, %.10g)", sp.str().c_str(), worst,
                      at < 0 ? 0 : res(at), at < 0 ? 0 : ref(at));
         }
         if (!sp.nd) { c.add("|R|", gnorm(res), gnorm(res)); }
         break;
      }
      case oNorm:
      {
         double x = agree("calcResidualNorm", s.calcResidualNorm(c.in));
         Vector res(n);
         s.calcResidual(c.in, res);
         double y = gnorm(res);
         SIM_CHECK(std::fabs(x - y) <= 1e-10 * (x + y), "norm", "%s: calcResidualNorm gives %.15g, the residual has norm %.15g", sp.str().c_str(), x, y);
         c.add("|R|", x, x, sp.nd ? 1.0 : 1e-9);
         break;
      }
      case oOut:
      {
         const auto &o = sp.outs[size_t(op.out)];
         double x = agree(o.name.c_str(), s.calcOutput(o.name, c.in));
         c.add(o.name, x, std::fabs(x) + 0.1, 1e-9);
         Vector ov(1);
         ov = 0.0;
         s.calcOutput(o.name, c.in, ov);
         SIM_CHECK(std::fabs(ov(0) - x) <= 1e-12 * (1 + std::fabs(x)), "output-vector", "%s: the vector form of %s gives %.15g, the scalar form %.15g",
                   sp.str().c_str(), o.name.c_str(), ov(0), x);
         if (gProp == "E04")
         {
            double y = OutRef(so, op).value(o);
            SIM_CHECK(std::fabs(x - y) <= 1e-9 * (std::fabs(x) + std::fabs(y) + 0.1), "definition", "%s: %s is %.12g, its definition gives %.12g", sp.str().c_str(), o.name.c_str(), x, y);
         }
         break;
      }
      case oProd:
      {
         s.linearize(c.in);
         Vector wf(w), jv(v), jm, tv(n), tm(so.mfes->GetTrueVSize()), tl(n);
         so.zeroEss(wf);
         // forward, accumulated onto u
         jv = 0.0;
         if (!sp.nd)
         {
            jv = u;
            s.jacobianVectorProduct(v, "state", jv);
            jv -= u;
         }
         // reverse, accumulated onto something else
         tv = v;
         s.vectorJacobianProduct(w, "state", tv);
         tv -= v;
         Vector tvf(n);
         tvf = 0.0;
         s.vectorJacobianProduct(wf, "state", tvf);
         double a = gdot(jv, w), b = gdot(tv, v), sc = gabs(jv, w) + gabs(tv, v);
         c.add("<Jv,w>", a, sc);
         c.add("<J'w,v>", b, sc);
         const Vector &dm = so.dmc[size_t(op.wrt)];
         double gm = 0, gms = 0;
         if (sp.meshVjp)
         {
            tm = dm;
            s.vectorJacobianProduct(w, "mesh_coords", tm);
            tm -= dm;
            gm = gdot(tm, dm);
            gms = gabs(tm, dm);
            c.add("<Rx'w,dx>", gm, gms);
         }
         double jl = 0, tlv = 0, ls = 0;
         if (sp.load)
         {
            bool fwd = sp.ldName == "thermal_load";
            const Vector &l0 = so.ld[0];
            if (fwd)
            {
               tl = u;
               s.jacobianVectorProduct(l0, sp.ldName, tl);
               tl -= u;
               jl = gdot(tl, w);
               ls = gabs(tl, w);
               c.add("<Rl l,w>", jl, ls);
            }
            tl = so.ld[1];
            s.vectorJacobianProduct(fwd ? w : wf, sp.ldName, tl);
            tl -= so.ld[1];
            tlv = gdot(tl, l0);
            if (!fwd) { ls = gabs(tl, l0); jl = tlv; }
            c.add("<Rl'w,l>", tlv, ls);
         }
         std::vector<double> gs;
         for (size_t i = 0; i < sp.scal.size(); ++i)
         {
            if (!sp.scalSens[i]) { gs.push_back(0); continue; }
            double x = gsum(s.vectorJacobianProduct(wf, sp.scal[i]));
            gs.push_back(x);
            c.add("d<R,w>/d" + sp.scal[i], x, std::fabs(x) + 1e-3);
         }
         if (gFD)
         {
            if (!sp.nd) { cmp("duality", "<J v, w> and <v, J' w>", a, b, sc, 1e-9); }
            auto res = [&](const miso::MISOInputs &in) { Vector q(n); s.calcResidual(in, q); return gdot(q, wf); };
            double vn = std::max(1.0, gmax(v.Normlinf()));
            Diff fd = directional([&](double t) { Vector x(u); x.Add(t / vn, v); auto in = c.in; in.erase("state"); in.emplace("state", x); return res(in); }) * vn;
            if (!sp.nd) cmpD("jvp-state", "derivative of <R, w> along the state, product against finite difference", gdot(jv, wf), fd, gabs(jv, wf), fdTol);
            cmpD("vjp-state", "derivative of <R, w> along the state, reverse product against finite difference", gdot(tvf, v), fd, gabs(tvf, v), fdTol);
            if (sp.meshVjp)
            {
               const Vector &x0 = so.mc[size_t(op.m)];
               double dn = std::max(1.0, gmax(dm.Normlinf()));
               Diff f2 = directional([&](double t) { Vector x(x0); x.Add(t / dn, dm); auto in = c.in; in.erase("mesh_coords"); in.emplace("mesh_coords", x); return res(in); }, 2e-4) * dn;
               cmpD("vjp-mesh", "derivative of <R, w> along the mesh coordinates, reverse product against finite difference", gm, f2, gms, 10 * fdTol);
            }
            if (sp.load)
            {
               cmp("duality", "<R_load l, w> and <l, R_load' w>", jl, tlv, ls, 1e-9);
               Diff f3 = directional([&](double t) { Vector x(so.ld[size_t(op.ld)]); x.Add(t, so.ld[0]); auto in = c.in; in.erase(sp.ldName); in.emplace(sp.ldName, x); return res(in); });
               cmpD("vjp-load", "derivative of <R, w> along " + sp.ldName + " against finite difference", jl, f3, ls, fdTol);
            }
            for (size_t i = 0; i < sp.scal.size(); ++i)
            {
               if (!sp.scalSens[i]) { continue; }
               Diff f4 = directional([&](double t) { auto in = c.in; in.erase(sp.scal[i]); in.emplace(sp.scal[i], op.sc[i] + t); return res(in); });
               cmpD("vjp-scalar", "derivative of <R, w> along " + sp.scal[i] + " against finite difference", gs[i], f4, 1e-3, fdTol);
            }
         }
         break;
      }
      case oOutProd:
      {
         const auto &o = sp.outs[size_t(op.out)];
         bool mesh = op.wrt == 1 && o.mesh;
         if (!mesh && !o.usesState) { break; }
         std::string wrt = mesh ? "mesh_coords" : "state";
         const Vector &d = mesh ? so.dmc[0] : v;
         Vector ob(1), bar(d.Size());
         ob(0) = op.ob;
         bar = d;
         s.outputVectorJacobianProduct(o.name, c.in, ob, wrt, bar);
         bar -= d;
         double rev = gdot(bar, d), sc = gabs(bar, d);
         if (op.out == 0)
         {
            Vector part(d.Size());
            part = 7.0;
            s.calcOutputPartial(o.name, wrt, c.in, part);
            double p = gdot(part, d) * op.ob;
            SIM_CHECK(std::fabs(p - rev) <= 1e-10 * (sc + std::fabs(p)) + 1e-13, "output-partial", "%s: partial of %s by %s along a direction is %.15g, its product %.15g", sp.str().c_str(),
                      o.name.c_str(), wrt.c_str(), p, rev);
         }
         c.add("d" + o.name + "/d" + wrt, rev, sc + 0.1);
         double fwd = 0;
         if (o.jvp)
         {
            Vector od(1);
            od(0) = 0.25;
            s.outputJacobianVectorProduct(o.name, c.in, d, wrt, od);
            fwd = gsum(od(0) - 0.25) * op.ob;
            c.add("d" + o.name + "/d" + wrt + " forward", fwd, sc + 0.1);
         }
         if (gFD)
         {
            if (o.jvp) { cmp("output-duality", "derivative of " + o.name + " along " + wrt + ", forward and reverse", fwd, rev, sc + 0.1, 1e-9); }
            const Vector &x0 = mesh ? so.mc[size_t(op.m)] : u;
            double dn = std::max(1.0, gmax(d.Normlinf()));
            Diff f = directional([&](double t) { Vector x(x0); x.Add(t / dn, d); auto in = c.in; in.erase(wrt); in.emplace(wrt, x); return s.calcOutput(o.name, in); }, mesh ? 2e-4 : 1e-3) * dn * op.ob;
            cmpD("output-vjp", "derivative of " + o.name + " along " + wrt + ", reverse product against finite difference", rev, f, sc + 0.1, mesh ? 10 * fdTol : fdTol);
         }
         break;
      }
      case oSolve:
      {
         Vector x(u);
         // start from the boundary values on the fixed unknowns
         s.solveForState(c.in, x);
         bool ok = so.converged();
         c.add("converged", ok, 1.0);
         if (!ok && (sp.nonlinear || anyPenalty(sp))) { r.skip = true; break; }
         auto in = c.in;
         in.emplace("state", x);
         Vector res(n);
         s.calcResidual(in, res);
         double rn = gnorm(res);
         SIM_CHECK(!ok || rn <= 1e-7 * (1.0 + gnorm(x)), "unsolved", "%s: solve reports convergence but the residual norm is %.3g", sp.str().c_str(), rn);
         for (int i = 0; i < so.ess.Size(); ++i)
         {
            double t = so.st[size_t(op.bc)](so.ess[i]);
            SIM_CHECK(!ok || std::fabs(x(so.ess[i]) - t) <= 1e-7 * (1 + std::fabs(t)), "boundary-value", "%s: fixed unknown is %.12g, its boundary value is %.12g",
                      sp.str().c_str(), x(so.ess[i]), t);
         }
         if (!sp.nd)
         {
            c.add("<u,w>", gdot(x, w), gabs(x, w), 1e-6);
            c.add("|u|", gnorm(x), gnorm(x), 1e-6);
         }
         else { c.add("energy at the solution", s.calcOutput("energy", in), 1.0, 1e-6); }
         break;
      }
      case oAdj:
      {
         // dJ/du of an output as right-hand side
         Vector sb(n), ad(n);
         sb = 0.0;
         ad = v;
         const auto &o = sp.outs[0];
         Vector ob(1);
         ob(0) = op.ob;
         s.outputVectorJacobianProduct(o.name, c.in, ob, "state", sb);
         sb.Add(0.5, w);
         if (sp.nd)
         {
            // consistent right-hand side for the singular curl-curl operator
            sb = 0.0;
            s.linearize(c.in);
            s.vectorJacobianProduct(w, "state", sb);
         }
         Vector sb0(sb);
         s.solveForAdjoint(c.in, sb, ad);
         SIM_CHECK(hashVec(sb) == hashVec(sb0), "input-modified", "%s: solveForAdjoint modified the caller's right-hand side", sp.str().c_str());
         if ((sp.dg && sp.nonlinear) || anyPenalty(sp))
         {
            // the form need not be definite with any penalty or linearised, and the solver then
            // stalls: nothing is claimed of an adjoint that does not solve its own system
            Vector jt(n);
            jt = 0.0;
            s.linearize(c.in);
            s.vectorJacobianProduct(ad, "state", jt);
            jt -= sb;
            if (gnorm(jt) > 1e-7 * gnorm(sb)) { probe("the adjoint solver stalls on an indefinite system"); r.skip = true; break; }
         }
         for (int i = 0; i < so.ess.Size(); ++i)
         {
            SIM_CHECK(std::fabs(ad(so.ess[i])) <= 1e-9, "adjoint-boundary", "%s: the adjoint is %.3g on a fixed unknown", sp.str().c_str(), ad(so.ess[i]));
         }
         if (!sp.nd)
         {
            c.add("<adj,w>", gdot(ad, w), gabs(ad, w), 1e-6);
         }
         Vector vf(v);
         so.zeroEss(vf);
         double rhs = gdot(sb, vf);
         double vn = std::max(1.0, gmax(vf.Normlinf()));
         Diff lhs = directional([&](double t) { Vector x(u), q(n); x.Add(t / vn, vf); auto in = c.in; in.erase("state"); in.emplace("state", x); s.calcResidual(in, q); return gdot(q, ad); }) * vn;
         if (gFD)
         {
            SIM_CHECK(std::fabs(lhs.v - rhs) <= (sp.nonlinear ? 5e-4 : 1e-5) * (gabs(sb, vf) + 0.1) + 3.0 * lhs.err, "adjoint",
                      "%s: <dR/du v, adjoint> is %.10g but <dJ/du, v> is %.10g", sp.str().c_str(), lhs.v, rhs);
         }
         break;
      }
      case oErr:
      {
         miso::MISOInputs in = c.in;
         Vector q(n);
         s.calcResidual(in, q);
         double e, z;
         Field f = sp.st[size_t(op.v)];
         if (sp.nd)
         {
            e = s.calcStateError(f.vec(), u);
            VectorFunctionCoefficient fc(sp.ms.dim, f.vec());
            z = s.calcStateError(fc, u);
            SIM_CHECK(std::fabs(e - z) <= 1e-12 * (1 + e), "overload", "%s: the error against a function is %.15g, against the same coefficient %.15g", sp.str().c_str(), e, z);
         }
         else
         {
            e = s.calcStateError(f.sca(), u);
            FunctionCoefficient fc(f.sca());
            z = s.calcStateError(fc, u);
            SIM_CHECK(std::fabs(e - z) <= 1e-12 * (1 + e), "overload", "%s: the error against a function is %.15g, against the same coefficient %.15g", sp.str().c_str(), e, z);
         }
         agree("calcStateError", e);
         if (gProp == "E04")
         {
            double y = OutRef(so, op).error(f);
            SIM_CHECK(std::fabs(e - y) <= 1e-10 * (e + y + 0.1), "definition", "%s: the error of the state is %.12g, its definition gives %.12g", sp.str().c_str(), e, y);
         }
         c.add("error", e, e + 0.1);
         break;
      }
      case oSet:
      {
         Field f = sp.st[size_t(op.v)];
         Vector x(n), q(n);
         s.calcResidual(c.in, q);   // places the mesh
         if (sp.nd) { s.setState(f.vec(), x); }
         else { s.setState(f.sca(), x); }
         Vector y(n);
         if (sp.nd) { VectorFunctionCoefficient fc(sp.ms.dim, f.vec()); s.setState(fc, y); }
         else { FunctionCoefficient fc(f.sca()); s.setState(fc, y); }
         y -= x;
         SIM_CHECK(gmax(y.Normlinf()) <= 1e-13 * (1 + gmax(x.Normlinf())), "overload", "%s: the state set from a function and from the same coefficient differ by %.3g", sp.str().c_str(), gmax(y.Normlinf()));
         if (!sp.nd) { c.add("<u,w>", gdot(x, w), gabs(x, w)); }
         double e = sp.nd ? s.calcStateError(f.vec(), x) : s.calcStateError(f.sca(), x);
         c.add("interpolation error", e, e + 0.1);
         break;
      }
      case oFold:
      {
         auto in = c.in;
         in.erase("mesh_coords");
         in.emplace("mesh_coords", so.folded);
         Vector x(u);
         bool threw = false;
         try { s.solveForState(in, x); }
         catch (const miso::MISOException &) { threw = true; }
         double t = threw;
         c.add("inverted mesh refused", t, 1.0);
         agree("inverted mesh refused", t);
         SIM_CHECK(threw, "inverted-mesh", "%s: a mesh with inverted elements was accepted", sp.str().c_str());
         countFault("inverted-mesh", 1);
         break;
      }
   }
}
static std::vector<int> opKinds(const Spec &sp)
{
   if (gProp == "F03") { return {oProd, oProd, oOutProd, oOutProd, oRes, oSolve, oAdj}; }
   if (gProp == "E02" || gProp == "E03") { return {oRes, oRes, oRes, oRes, oOut, oProd, oSolve, oOutProd}; }
   if (gProp == "E04") { return {oOut, oOut, oOut, oOut, oErr, oRes, oOutProd, oSolve}; }
   if (gProp == "F04") { return {oAdj, oAdj, oSolve, oRes, oProd, oOutProd}; }
   return {oRes, oNorm, oOut, oOut, oProd, oOutProd, oSolve, oSolve, oAdj, oErr, oFold, oSet};
}
static void compare(const Spec &sp, const Op &op, int k, const Result &a, const Result &b, const char *cls, const char *an, const char *bn)
{
   if (a.skip || b.skip) { return; }
   SIM_CHECK(a.obs.size() == b.obs.size(), cls, "%s: operation %d (%s): different numbers of results", sp.str().c_str(), k, opName(op.kind));
   for (size_t i = 0; i < a.obs.size(); ++i)
   {
      const auto &x = a.obs[i], &y = b.obs[i];
      double sc = std::max(std::max(x.scale, y.scale), 1e-2);
      bool same = (std::isnan(x.v) && std::isnan(y.v)) || std::fabs(x.v - y.v) <= x.tol * sc;
      SIM_CHECK(same, cls, "%s: operation %d (%s), %s: %.14g %s, %.14g %s", sp.str().c_str(), k, opName(op.kind), x.key.c_str(), x.v, an, y.v, bn);
   }
}
static void emRun()
{
   using namespace emsim;
   EmSpec sp = genEm(4);
   bool check = gProp == "E01" || gProp == "F03";
   int nops = genInt(2, 6);
   std::vector<EmOp> ops;
   for (int i = 0; i < nops; ++i) { ops.push_back(genEmOp(sp, gProp == "F03" ? true : gProp == "E01" ? gen(4) == 0 : gen(2) == 1)); }
   describe(fmt("%s; %d outputs", sp.str().c_str(), nops));
   hashMesh(sp.base.ms);
   for (auto &o : ops) { signature(uint64_t(o.out) * 64 + uint64_t(o.prod) * 32 + uint64_t(o.wrt)); note("%s u%d m%d t%d p%d", emName(sp, o).c_str(), o.u, o.m, o.t, o.p); }
   std::vector<Result> ref(ops.size()), got(ops.size());
   if (gProp == "F01")
   {
      int nr = sp.base.ms.nranks;
      sp.base.ms.nranks = 1;
      JobConfig jc;
      jc.nranks = 1;
      jc.plain = true;
      auto r = runJob(jc, [&](int) {
         EmSol so(sp);
         for (size_t k = 0; k < ops.size(); ++k) { runEmOp(so, ops[k], ref[k], false); }
      });
      checkThrew(r);
      sp.base.ms.nranks = nr;
   }
   auto cmp = [&](size_t k, const Result &a, const Result &b, const char *cls, const char *an, const char *bn) {
      for (size_t i = 0; i < a.obs.size() && i < b.obs.size(); ++i)
      {
         const auto &x = a.obs[i], &y = b.obs[i];
         bool same = (std::isnan(x.v) && std::isnan(y.v)) || std::fabs(x.v - y.v) <= x.tol * std::max(std::max(x.scale, y.scale), 1e-2);
         SIM_CHECK(same, cls, "%s: operation %zu, %s: %.14g %s, %.14g %s", sp.str().c_str(), k, x.key.c_str(), x.v, an, y.v, bn);
      }
   };
   JobConfig jc;
   jc.nranks = sp.base.ms.nranks;
   jc.maxSteps = 40000000;
   auto r = runJob(jc, [&](int rk) {
      EmSol so(sp);
      auto h0 = hashEm(so);
      for (size_t k = 0; k < ops.size(); ++k)
      {
         Result loc;
         runEmOp(so, ops[k], loc, check);
         SIM_CHECK(h0 == hashEm(so), "input-modified", "%s: operation %zu (%s) modified one of the caller's input vectors", sp.str().c_str(), k, emName(sp, ops[k]).c_str());
         if (rk == 0) { got[k] = loc; }
         if (gProp == "F02" && k > 0)
         {
            const EmSpec sp2 = emFresh(sp, ops[k]);
            EmSol f2(sp2);
            f2.cur[size_t(ops[k].out)] = ops[k].cfg;
            Result fr;
            runEmOp(f2, ops[k], fr, false);
            cmp(k, loc, fr, "history", "after earlier operations", "from a fresh solver");
         }
      }
   });
   checkThrew(r);
   if (gProp == "F01") { for (size_t k = 0; k < ops.size(); ++k) { cmp(k, got[k], ref[k], "partition", "here", "on one rank"); } }
   nontrivial();
}
void driverRun()
{
   static std::streambuf *nul = nullptr;
   std::cout.rdbuf(nul);
   installHooks();
   if (gProp == "E01" || (gProp != "F04" && gProp != "E02" && gProp != "E03" && gProp != "E04" && gen(4) == 0)) { emRun(); return; }
   const char *kk = getenv("SIM_PDE_KINDS");
   Spec sp = genSpec(4, kk ? atoi(kk) : gProp == "F04" ? 13 : gProp == "E02" ? 12 : gProp == "E03" ? 3 : 15, gProp == "E02" || gProp == "E04" || gProp == "F03");
   gFD = gProp == "F03" || gProp == "F04";
   int nops = genInt(2, gProp == "F01" ? 6 : 5);
   std::vector<Op> ops;
   for (int i = 0; i < nops; ++i) { ops.push_back(genOp(sp, opKinds(sp))); }
   describe(fmt("%s; %d operations", sp.str().c_str(), nops));
   hashMesh(sp.ms);
   signature(uint64_t(sp.kind) * 7 + uint64_t(sp.degree));
   for (auto &o : ops) { signature(uint64_t(o.kind) + 100); note("op %s u%d m%d bc%d w%d v%d out %s", opName(o.kind), o.u, o.m, o.bc, o.w, o.v, sp.outs[size_t(o.out)].name.c_str()); }
   if (sp.file) { sp.writeFile(); probe("meshes read from a file"); }
   std::vector<Result> ref(ops.size()), got(ops.size()), fresh(ops.size());
   if (gProp == "F01")
   {
      int nr = sp.ms.nranks;
      sp.ms.nranks = 1;
      JobConfig jc;
      jc.nranks = 1;
      jc.plain = true;
      auto r = runJob(jc, [&](int) {
         Sol so(sp);
         for (size_t k = 0; k < ops.size(); ++k) { runOp(sp, so, ops[k], ref[k]); }
      });
      checkThrew(r);
      sp.ms.nranks = nr;
   }
   JobConfig jc;
   jc.nranks = sp.ms.nranks;
   jc.maxSteps = 40000000;
   auto r = runJob(jc, [&](int rk) {
      Sol so(sp);
      auto h0 = hashInputs(so);
      for (size_t k = 0; k < ops.size(); ++k)
      {
         Result loc;
         runOp(sp, so, ops[k], loc);
         auto h1 = hashInputs(so);
         SIM_CHECK(h0 == h1, "input-modified", "%s: operation %zu (%s) modified one of the caller's input vectors", sp.str().c_str(), k, opName(ops[k].kind));
         if (rk == 0) { got[k] = loc; }
         if (gProp == "F02" && k > 0)
         {
            Spec sp2 = sp;
            if (ops[k].rho > 0) { sp2.outs[size_t(ops[k].out)].opts["rho"] = ops[k].rho; }
            Sol f2(sp2);
            Result fr;
            runOp(sp2, f2, ops[k], fr);
            if (rk == 0) { fresh[k] = fr; }
            compare(sp, ops[k], int(k), loc, fr, "history", "after earlier operations", "from a fresh solver");
         }
      }
   });
   checkThrew(r);
   if (gProp == "F01")
   {
      for (size_t k = 0; k < ops.size(); ++k) { compare(sp, ops[k], int(k), got[k], ref[k], "partition", "here", "on one rank"); }
   }
   nontrivial();
}
