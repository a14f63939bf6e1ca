// C01: the controlled flow. Included by flow.cpp.
#include "flow_control_solver.hpp"
#include "flow_control_residual.hpp"
#include "matrix_operators.hpp"
/// the control law, as last set
struct Law
{
   double Kp = 0, Td = 0, Ti = 0, eta = 0, beta = 0, target = 0, be = 0;
   double P[3] = {0, 0, 0};
   bool closed = true, test = false;
   void residual(const double *x, double *r) const
   {
      if (test) { r[0] = -0.05 * x[1]; r[1] = 0.05 * x[0] + be; return; }
      const double f = 1 / (beta * eta * Ti * Td), e = closed ? (target - be) * Kp / (eta * Ti * Td) : 0.0;
      r[0] = f * x[1] + (1 / (eta * beta) - 1) * e;
      r[1] = -x[0] + f * (beta * Ti + eta * Td) * x[1] + ((beta * Ti + eta * Td) / (eta * beta) - (Ti + Td)) * e;
   }
   void jacobian(const double *v, double *r) const
   {
      if (test) { r[0] = -0.05 * v[1]; r[1] = 0.05 * v[0]; return; }
      const double f = 1 / (beta * eta * Ti * Td);
      r[0] = f * v[1];
      r[1] = -v[0] + f * (beta * Ti + eta * Td) * v[1];
   }
   double velocity(const double *x) const { return test ? x[1] : x[1] + (closed ? Kp * (target - be) / eta : 0.0); }
   double inner(const double *a, const double *b) const { return test ? a[0] * b[0] + a[1] * b[1] : P[0] * a[0] * b[0] + P[1] * (a[0] * b[1] + a[1] * b[0]) + P[2] * a[1] * b[1]; }
};
/// everything a law is told, as inputs; a random part of it or all
struct LawChange
{
   Law to;
   unsigned mask = 0;   // which parameters are given
   bool asym = false;
};
static void genLaw(Law &l, unsigned mask)
{
   if (mask & 1) { l.Kp = genIn(0.1, 0.6); }
   if (mask & 2) { l.Td = genIn(0.4, 1.5); }
   if (mask & 4) { l.Ti = genIn(0.4, 1.5); }
   if (mask & 8) { l.eta = genIn(0.6, 1.5); }
   if (mask & 16) { l.beta = genIn(0.6, 2.5); }
   if (mask & 32) { l.target = genIn(-0.3, 0.3); }
   if (mask & 64) { l.closed = gen(2) == 1; }
   if (mask & 128) { l.P[0] = genIn(0.3, 2); l.P[2] = genIn(0.3, 2); l.P[1] = genIn(-0.25, 0.25); }
   if (mask & 256) { l.be = genIn(-0.5, 0.5); }
}
/// the vectors of inputs live in `keep`, which the caller may destroy as soon as the inputs were set
static miso::MISOInputs lawInputs(const Law &l, unsigned mask, std::vector<std::unique_ptr<Vector>> &keep)
{
   miso::MISOInputs in;
   if (mask & 1) { in.emplace("Kp", l.Kp); }
   if (mask & 2) { in.emplace("Td", l.Td); }
   if (mask & 4) { in.emplace("Ti", l.Ti); }
   if (mask & 8) { in.emplace("eta", l.eta); }
   if (mask & 16) { in.emplace("beta", l.beta); }
   if (mask & 32) { in.emplace("target-entropy", l.target); }
   if (mask & 64) { in.emplace("closed-loop", l.closed ? 1.0 : 0.0); }
   if (mask & 128)
   {
      keep.push_back(std::make_unique<Vector>(4));
      Vector &p = *keep.back();
      p(0) = l.P[0]; p(1) = p(2) = l.P[1]; p(3) = l.P[2];
      in.emplace("P-matrix", p);
   }
   if (mask & 256) { in.emplace("boundary-entropy", l.be); }
   return in;
}
struct CtlOp { int kind; unsigned mask; Law to; double x[2], d[2]; };
struct CtlSpec
{
   Law first;
   double xa[2] = {0.5, 0.0};
   bool setXa = false;
   double c0[2], c1[2], dc[2];
   std::vector<CtlOp> ops;
   Law second;
   unsigned mask2 = 0;
   std::vector<std::string> outs;
   std::vector<int> outB;     // boundaries of drag and lift
   std::vector<int> supB;     // boundaries of the supply rate
   int sample = 0;
   bool viaSetState = false, forget = false;
   int second2 = 0;
   double span = 1;
};
static CtlSpec genCtl(const Spec &s)
{
   CtlSpec c;
   c.first.test = gen(4) == 0;
   genLaw(c.first, 0xff);
   c.second = c.first;
   c.mask2 = gen(512);
   genLaw(c.second, c.mask2);
   Law l = c.first;
   for (int i = 0, k = genInt(3, 9); i < k; ++i)
   {
      CtlOp o;
      o.kind = int(gen(6));
      o.mask = gen(2) ? gen(512) : 0;
      genLaw(l, o.mask);
      o.to = l;
      for (double &v : o.x) { v = genIn(-1, 1); }
      for (double &v : o.d) { v = genIn(-1, 1); }
      c.ops.push_back(o);
   }
   for (double &v : c.c0) { v = genIn(-0.15, 0.15); }
   for (double &v : c.c1) { v = genIn(-0.15, 0.15); }
   for (double &v : c.dc) { v = genIn(-1, 1); }
   c.setXa = gen(4) != 0;
   if (c.setXa) { c.xa[0] = genIn(0.4, 1.6); c.xa[1] = genIn(-0.4, 0.8); }
   const char *nm[] = {"drag", "lift", "boundary-entropy", "far-field-supply-rate", "entropy"};
   for (int k = 0; k < 5; ++k) { if (gen(2)) { c.outs.push_back(nm[k]); } }
   for (int b = 1; b <= int(s.bc.size()); ++b)
   {
      if (gen(2)) { c.outB.push_back(b); }
      if (s.bc[size_t(b - 1)] == 0 && gen(4)) { c.supB.push_back(b); }
   }
   if (c.outB.empty()) { c.outB.push_back(1); }
   c.sample = gen(2) ? genInt(1, 40) : 0;
   c.viaSetState = gen(2) == 1;
   c.forget = gen(2) == 1;
   c.second2 = int(gen(3));
   return c;
}
/// histories of the law by itself
static void lawHistory(const Spec &s, const CtlSpec &c, std::vector<Obs> &obs)
{
   json o = s.opts;
   o["test-ode"] = c.first.test;
   miso::ControlResidual res(MPI_COMM_WORLD, o);
   const bool root = sim::rank() == 0;
   SIM_CHECK(getSize(res) == (root ? 2 : 0), "size", "%s: %d control variables on rank %d", s.str().c_str(), getSize(res), sim::rank());
   std::vector<std::unique_ptr<Vector>> keep;
   { auto in = lawInputs(c.first, 0x1ff, keep); setInputs(res, in); keep.clear(); }
   const int nv = getSize(res);
   for (size_t k = 0; k < c.ops.size(); ++k)
   {
      const CtlOp &op = c.ops[k];
      Law l = op.to;
      Vector x(nv), d(nv), r(nv), x0;
      for (int i = 0; i < nv; ++i) { x(i) = op.x[i]; d(i) = op.d[i]; }
      x0 = x;
      miso::MISOInputs in = lawInputs(l, op.mask, keep);
      in.emplace("state", x);
      auto same = [&](double a, double b, const char *what) {
         SIM_CHECK(std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b)), "law", "%s: operation %zu (%s%s, %s loop): %s is %.15g, it should be %.15g", s.str().c_str(), k, l.test ? "test law" : "law", op.mask ? ", changed" : "", l.closed ? "closed" : "open", what, a, b);
      };
      double ref[2];
      if (op.kind == 0)
      {
         r = 1e30;
         evaluate(res, in, r);
         SIM_CHECK(r.Size() == nv, "size", "%s: a residual of %d entries", s.str().c_str(), r.Size());
         l.residual(op.x, ref);
         for (int i = 0; i < nv; ++i) { same(r(i), ref[i], i ? "residual 1" : "residual 0"); }
      }
      else if (op.kind == 1)
      {
         auto &J = getJacobian(res, in, "state");
         l.jacobian(op.d, ref);
         SIM_CHECK(J.Height() == nv && J.Width() == nv, "size", "%s: the Jacobian of the law is %d x %d", s.str().c_str(), J.Height(), J.Width());
         if (root)
         {
            J.Mult(d, r);
            for (int i = 0; i < nv; ++i) { same(r(i), ref[i], "Jacobian product"); }
            auto *p = getPreconditioner(res);
            p->SetOperator(J);
            Vector w(nv);
            w = 1e30;
            p->Mult(r, w);
            for (int i = 0; i < nv; ++i) { SIM_CHECK(std::fabs(w(i) - d(i)) <= 1e-9 * (1 + std::fabs(d(i))), "preconditioner", "%s: the preconditioner of the law does not solve with its Jacobian (%.9g, %.9g)", s.str().c_str(), w(i), d(i)); }
         }
      }
      else if (op.kind == 2) { double e = calcEntropy(res, in); same(e, 0.5 * l.inner(op.x, op.x), "entropy"); obs.push_back({fmt("law entropy %zu", k), e, 1}); }
      else if (op.kind == 3) { in.emplace("state_dot", d); double e = calcEntropyChange(res, in); same(e, -l.inner(op.x, op.d), "entropy change"); obs.push_back({fmt("law entropy change %zu", k), e, 1}); }
      else if (op.kind == 4) { double e = res.getControlVelocity(in); same(e, l.velocity(op.x), "velocity"); obs.push_back({fmt("law velocity %zu", k), e, 1}); }
      else
      {
         auto *M = getMassMatrix(res, o);
         if (root) { M->Mult(d, r); for (int i = 0; i < nv; ++i) { same(r(i), d(i), "mass product"); } }
         setInputs(res, in);
      }
      for (int i = 0; i < nv; ++i) { SIM_CHECK(x(i) == x0(i), "inputs", "%s: operation %zu changes the state passed in", s.str().c_str(), k); }
      keep.clear();
   }
   probe("law");
}
struct CtlRec { double t0, dt, t1; Vector x0, x1; };
/// records the steps of an ODE solver
struct Recorder : mfem::ODESolver
{
   std::unique_ptr<mfem::ODESolver> in;
   std::vector<CtlRec> rec;
   void Init(mfem::TimeDependentOperator &f) override { mfem::ODESolver::Init(f); in->Init(f); }
   void Step(Vector &x, double &t, double &dt) override
   {
      CtlRec r;
      r.t0 = t;
      r.dt = dt;
      r.x0 = x;
      in->Step(x, t, dt);
      r.t1 = t;
      r.x1 = x;
      rec.push_back(std::move(r));
   }
};
static void controlled(const Spec &s, const CtlSpec &c, std::vector<Obs> &obs)
{
   mfem::NonlinearFormIntegrator::FaceEnergyHook = faceEnergy;
   lawHistory(s, c, obs);
   const int dim = 2, ns = 4;
   const std::string S = s.str();
   json o = s.opts;
   o["test-ode"] = c.first.test;
   std::vector<int> ctl = s.opts["bcs"]["control"];
   o["outputs"] = {{"boundary-entropy", {{"boundaries", ctl}}}, {"far-field-supply-rate", {{"boundaries", c.supB}}}, {"each-timestep", !c.outs.empty()}};
   o["sample"] = c.sample;
   auto g = make(s, false);   // the flow by itself
   auto &fes = g->space();
   const int n = fes.GetTrueVSize(), nn = n / ns, nc = sim::rank() == 0 ? 2 : 0;
   // the law and the flow, coupled by the driver
   Law L = c.first;
   double xa[2] = {c.xa[0], c.xa[1]};
   auto xav = [&] { auto p = std::make_unique<Vector>(2); (*p)(0) = xa[0]; (*p)(1) = xa[1]; return p; };
   double supScale = 0, beScale = 0;
   auto bdry = [&](const Vector &q, double &be, double &sup) {
      be = sup = 0;
      supScale = beScale = 0;
      bdrNodes(s, fes, q, [&](int attr, const double *x, const double *nr, const double *qq) {
         const int k = s.bc[size_t(attr - 1)];
         double dA = nr[0] * nr[0] + nr[1] * nr[1];
         if (k == 5)
         {
            const double rref = std::pow(1 + 0.5 * gm1 * 0.04, 1 / gm1), pref = std::pow(1 + 0.5 * gm1 * 0.04, gam / gm1) / gam;
            double d2 = (x[0] - xa[0]) * (x[0] - xa[0]) + (x[1] - xa[1]) * (x[1] - xa[1]);
            double e = std::exp(-d2 / (0.1 * 0.1)) * (entropyOf(qq, dim) + rref * (press(qq, dim) - pref) / pref) * std::sqrt(dA);
            be += e;
            beScale += std::fabs(e);
         }
         if (std::find(c.supB.begin(), c.supB.end(), attr) != c.supB.end())
         {
            double qf[5], f[5], w[5], wf = 0, psi = 0;
            freeStream(s, qf);
            // the flux of the supply rate: convection by the free stream, upwinded, and the pressure inside
            double U = (qf[1] * nr[0] + qf[2] * nr[1]) / qf[0];
            for (int i = 0; i < ns; ++i) { f[i] = U * (U > 0 ? qq[i] : qf[i]); }
            for (int d = 0; d < dim; ++d) { f[1 + d] += nr[d] * press(qq, dim); }
            f[dim + 1] += U * press(U > 0 ? qq : qf, dim);
            entVars(qq, dim, w);
            for (int i = 0; i < ns; ++i) { wf += w[i] * f[i]; supScale += std::fabs(w[i] * f[i]); }
            for (int d = 0; d < dim; ++d) { psi += qq[1 + d] * nr[d]; }
            sup += psi - wf;
         }
      });
      be = gsum(be);
      sup = gsum(sup);
      supScale = gsum(supScale);
      beScale = gsum(beScale);
   };
   auto ctlOf = [&](const Vector &u, double *x) { x[0] = nc ? u(0) : 0; x[1] = nc ? u(1) : 0; x[0] = gsum(x[0]); x[1] = gsum(x[1]); };
   auto flowOf = [&](const Vector &u) { return Vector(Vector(const_cast<double *>(u.GetData()) + nc, n)); };
   auto pack = [&](const double *x, const Vector &q) { Vector u(nc + n); for (int i = 0; i < nc; ++i) { u(i) = x[i]; } for (int i = 0; i < n; ++i) { u(nc + i) = q(i); } return u; };
   double vel = 0;
   auto coupled = [&](const Vector &u, double t) {
      double x[2], r[2], be, sup;
      Vector q = flowOf(u), R(n), qs(n);
      qs = q;
      ctlOf(u, x);
      bdry(qs, be, sup);
      L.be = be;
      vel = L.velocity(x);
      L.residual(x, r);
      auto a = xav();
      miso::MISOInputs in{{"state", qs}, {"control", vel}, {"time", t}, {"x-actuator", *a}};
      R = 1e30;
      g->A().calcResidual(in, R);
      return pack(r, R);
   };
   auto flowEntropy = [&](const Vector &q, double t) { Vector z(q); miso::MISOInputs in{{"state", z}, {"time", t}}; return calcEntropy(g->R(), in); };
   auto entropy = [&](const Vector &u, double t) { double x[2]; ctlOf(u, x); return flowEntropy(flowOf(u), t) + 0.5 * L.inner(x, x); };
   // w' R with the entropy variables of both
   auto prod = [&](const Vector &u, const Vector &R, double &sc) {
      double x[2], r[2], t = 0, a = 0;
      ctlOf(u, x);
      ctlOf(R, r);
      for (int i = 0; i < nn; ++i) { double w[5]; entVars(u.GetData() + nc + i * ns, dim, w); for (int k = 0; k < ns; ++k) { double e = w[k] * R(nc + i * ns + k); t += e; a += std::fabs(e); } }
      sc = gsum(a);
      return gsum(t) + L.inner(x, r);
   };
   // ---- the controlled flow
   json &td = o["time-dis"];
   Vector q0 = consState(s, fes, 0), q1 = consState(s, fes, 1);
   double tau = ownStep(s, fes, s.cfl, q0);
   td["dt"] = tau;
   td["cfl"] = s.cfl;
   td["t-initial"] = s.time;
   td["t-final"] = s.time + s.span * tau;
   auto f = std::make_unique<miso::FlowControlSolver<2, false>>(MPI_COMM_WORLD, o, s.mesh());
   auto &R = *f->spatial_res;
   SIM_CHECK(f->getStateSize() == nc + n, "size", "%s: a state of %d entries on rank %d, %d of them the flow's", S.c_str(), f->getStateSize(), sim::rank(), n);
   Vector md = ownMass(fes, false);
   {
      Vector v(nc + n), Mv(nc + n);
      for (int i = 0; i < nc + n; ++i) { v(i) = 1 + std::sin(1.3 * i); }
      Mv = 1e30;
      getMassMatrix(R, o)->Mult(v, Mv);
      for (int i = 0; i < nc + n; ++i) { double w = (i < nc ? 1.0 : md(i - nc)) * v(i); SIM_CHECK(std::fabs(Mv(i) - w) <= 1e-12 * (std::fabs(w) + 1e-12), "mass", "%s: entry %d of the mass product is %.15g, it should be %.15g", S.c_str(), i, Mv(i), w); }
   }
   auto tell = [&](unsigned mask, bool act) {
      std::vector<std::unique_ptr<Vector>> keep;
      auto in = lawInputs(L, mask & 0xff, keep);
      if (act) { keep.push_back(xav()); in.emplace("x-actuator", *keep.back()); }
      setInputs(R, in);
   };
   auto checkAll = [&](const Vector &u, double t, const char *when) {
      Vector want = coupled(u, t), us(u), got(nc + n);
      double wv = vel, sc, fn = gnorm(want), pr;
      miso::MISOInputs in{{"state", us}, {"time", t}};
      got = 1e30;
      evaluate(R, in, got);
      Vector d(got);
      d -= want;
      double be, sup;
      { Vector q = flowOf(u); bdry(q, be, sup); }
      obs.push_back({std::string("|R| ") + when, fn, fn});
      SIM_CHECK(gmax(d.Normlinf()) <= 1e-11 * (1e-3 + fn), "coupling", "%s, %s: the coupled residual differs by %.3g from that of the law and the flow with control velocity %.9g (norm %.3g; %s loop)", S.c_str(), when, gmax(d.Normlinf()), wv, fn, L.closed ? "closed" : "open");
      double e = calcEntropy(R, in), eo = entropy(u, t);
      obs.push_back({std::string("entropy ") + when, e, 1 + std::fabs(e)});
      SIM_CHECK(std::fabs(e - eo) <= 1e-12 * (1 + std::fabs(eo)), "entropy-value", "%s, %s: the entropy is %.15g, it should be %.15g", S.c_str(), when, e, eo);
      pr = prod(u, want, sc);
      Vector dot(want);
      for (int i = 0; i < nc + n; ++i) { dot(i) = -want(i) / (i < nc ? 1.0 : md(i - nc)); }
      miso::MISOInputs ic{{"state", us}, {"state_dot", dot}, {"time", t}, {"dt", 0.37 * s.cfl}};
      if (!(s.dsbp && s.nranks > 1) && !s.euler)
      {
         double ch = calcEntropyChange(R, ic);
         obs.push_back({std::string("change ") + when, ch, sc + 1});
         SIM_CHECK(std::fabs(ch - pr) <= 1e-9 * (sc + 1e-3), "entropy-change", "%s, %s: the entropy change is %.12g, the weighted residual %.12g", S.c_str(), when, ch, pr);
      }
      double sr = calcSupplyRate(R, ic);
      SIM_CHECK(std::fabs(sr - sup) <= 1e-9 * (supScale + 1e-6), "supply-rate", "%s, %s: the supply rate is %.12g, its definition gives %.12g", S.c_str(), when, sr, sup);
      obs.push_back({std::string("supply ") + when, sr, supScale});
      d = us;
      d -= u;
      SIM_CHECK(gmax(d.Normlinf()) == 0.0, "inputs", "%s, %s: the state passed in was changed", S.c_str(), when);
   };
   Vector u0 = pack(c.c0, q0), u1 = pack(c.c1, q1);
   {
      // the initial state by functions
      if (c.viaSetState)
      {
         Vector u(nc + n);
         u = 1e30;
         std::function<void(Vector &)> cf = [&](Vector &x) { x(0) = c.c0[0]; x(1) = c.c0[1]; };
         std::function<void(const Vector &, Vector &)> ff = [&](const Vector &x, Vector &q) { s.prim(s.st[0], x.GetData(), q.GetData()); };
         f->setState(std::make_pair(cf, ff), u);
         Spec sj = s;
         sj.jump = 0;
         Vector d = pack(c.c0, consState(sj, fes, 0));
         d -= u;
         SIM_CHECK(gmax(d.Normlinf()) <= 1e-14, "set-state", "%s: a state set by functions differs by %.3g from them", S.c_str(), gmax(d.Normlinf()));
         probe("state set by functions");
      }
   }
   if (!c.setXa) { xa[0] = 0.5; xa[1] = 0.0; }
   // without an actuator position the boundary conditions keep theirs
   tell(0xff, c.setXa);
   checkAll(u0, s.time, "first");
   checkAll(u1, s.time + 0.7, "elsewhere");
   {
      Law old = L;
      L = c.second;
      tell(c.mask2, false);
      checkAll(u1, s.time, "other law");
      if (c.mask2 & 128) { probe("P changed"); }
      if (!L.closed) { probe("open loop"); }
      L = old;
      tell(0xff, false);
   }
   checkAll(u0, s.time, "again");
   // the Jacobian by blocks
   if (!s.dsbp)
   {
      Vector us(u0);
      miso::MISOInputs in{{"state", us}, {"time", s.time}};
      auto &J0 = getJacobianBlock(R, in, 0);
      double r[2];
      L.jacobian(c.dc, r);
      if (nc)
      {
         Vector v(2), w(2);
         v(0) = c.dc[0];
         v(1) = c.dc[1];
         J0.Mult(v, w);
         for (int i = 0; i < 2; ++i) { SIM_CHECK(std::fabs(w(i) - r[i]) <= 1e-12 * (1 + std::fabs(r[i])), "jacobian", "%s: the control block of the Jacobian gives %.12g for %.12g", S.c_str(), w(i), r[i]); }
      }
      coupled(u0, s.time);
      Vector qs = flowOf(u0), v(q1), a(n), b(n);
      v -= q0;
      auto act = xav();
      miso::MISOInputs ig{{"state", qs}, {"control", vel}, {"time", s.time}, {"x-actuator", *act}};
      // the block is that of the flow at the control velocity of this state
      { Vector tmp(nc + n); evaluate(R, in, tmp); }
      auto &J1 = getJacobianBlock(R, in, 1);
      J1.Mult(v, a);
      getJacobian(g->R(), ig, "state").Mult(v, b);
      double bn = gnorm(b);
      b -= a;
      SIM_CHECK(gnorm(b) <= 1e-9 * (bn + 1e-3), "jacobian", "%s: the flow block of the Jacobian differs by %.3g from the flow's (norm %.3g)", S.c_str(), gnorm(b), bn);
      probe("jacobian blocks");
   }
   // ---- marches
   auto *rp = new Recorder;
   rp->in = std::move(f->ode->ode_solver_);
   f->ode->ode_solver_.reset(rp);
   rp->f = rp->in->f;
   for (auto &nm : c.outs) { f->createOutput(nm, nm == "boundary-entropy" ? json{{"boundaries", ctl}} : nm == "far-field-supply-rate" ? json{{"boundaries", c.supB}} : nm == "entropy" ? json::object() : json{{"boundaries", c.outB}}); }
   for (auto &nm : c.outs) { if (nm == "drag" || nm == "lift") { g->A().createOutput(nm, json{{"boundaries", c.outB}}); } }
   const std::string type = td["type"];
   const bool relax = type.substr(0, 3) == "RRK";
   for (int rep = 0; rep < (s.again ? 2 : 1); ++rep)
   {
      Vector x(rep && s.other ? u1 : u0), xs;
      xs = x;
      unsigned mask = 0xff;
      if (rep == 1)
      {
         // a second march may change a part of the law; the rest stays
         Law was = L;
         mask = c.second2 == 0 ? 0 : c.second2 == 1 ? c.mask2 & 0xff : 0xff;
         L = c.second;
         Law t = was;
         if (mask & 1) { t.Kp = L.Kp; }
         if (mask & 2) { t.Td = L.Td; }
         if (mask & 4) { t.Ti = L.Ti; }
         if (mask & 8) { t.eta = L.eta; }
         if (mask & 16) { t.beta = L.beta; }
         if (mask & 32) { t.target = L.target; }
         if (mask & 64) { t.closed = L.closed; }
         if (mask & 128) { for (int i = 0; i < 3; ++i) { t.P[i] = L.P[i]; } }
         L = t;
      }
      {
         std::vector<std::unique_ptr<Vector>> keep;
         auto in = lawInputs(L, mask, keep);
         if (c.setXa && (rep == 0 || !c.forget)) { keep.push_back(xav()); in.emplace("x-actuator", *keep.back()); }
         rp->rec.clear();
         f->solveForState(in, x);
      }
      auto &rec = rp->rec;
      const size_t N = rec.size();
      const double tf = td["t-final"];
      const int maxit = td["max-iter"];
      SIM_CHECK(N >= 1, "stop", "%s: no step", S.c_str());
      { Vector d(rec[0].x0); d -= xs; SIM_CHECK(gmax(d.Normlinf()) == 0.0 && rec[0].t0 == s.time, "start", "%s: the march does not start from the given state at time %.17g", S.c_str(), rec[0].t0); }
      { Vector d(rec[N - 1].x1); d -= x; SIM_CHECK(gmax(d.Normlinf()) == 0.0, "end", "%s: the final state is not that after the last step", S.c_str()); }
      auto slope = [&](const Vector &u, double t) { Vector k = coupled(u, t); for (int i = 0; i < nc + n; ++i) { k(i) /= -(i < nc ? 1.0 : md(i - nc)); } return k; };
      auto ax = [&](const Vector &u, double a, const Vector &v) { Vector z(u); z.Add(a, v); return z; };
      for (size_t k = 0; k < N; ++k)
      {
         const CtlRec &a = rec[k];
         double want = bool(td["const-cfl"]) ? ownStep(s, fes, s.cfl, flowOf(a.x0)) : tau;
         if (bool(td.value("exact-t-final", true))) { want = std::min(want, tf - a.t0); }
         SIM_CHECK(std::fabs(a.dt - want) <= 1e-9 * want + 1e-15 * std::fabs(tf), "step-size", "%s: step %zu from t = %.12g (end %.12g) is %.15g, it should be %.15g", S.c_str(), k, a.t0, tf, a.dt, want);
         const double dt = a.dt, adv = a.t1 - a.t0, gm = relax && dt > 0 ? adv / dt : 1.0;
         SIM_CHECK(relax ? gm > 0.2 && gm < 2 : std::fabs(adv - dt) <= 1e-14 * (1 + std::fabs(a.t1)), "time", "%s: step %zu of %.15g advances the time by %.15g", S.c_str(), k, dt, adv);
         Vector d(a.x1), ref(nc + n);
         d -= a.x0;
         double production = 0, sc, scs = 0;
         const double tnoise = 2.3e-16 * std::fabs(a.t1) / std::fabs(adv), dn = gmax(d.Normlinf()), scale = gmax(a.x0.Normlinf());
         if (type == "RK1") { ref = slope(a.x0, a.t0); ref *= dt; }
         else if (type == "RK4")
         {
            Vector k1 = slope(a.x0, a.t0), k2 = slope(ax(a.x0, dt / 2, k1), a.t0 + dt / 2), k3 = slope(ax(a.x0, dt / 2, k2), a.t0 + dt / 2), k4 = slope(ax(a.x0, dt, k3), a.t0 + dt);
            ref = 0.0;
            ref.Add(dt / 6, k1);
            ref.Add(dt / 3, k2);
            ref.Add(dt / 3, k3);
            ref.Add(dt / 6, k4);
         }
         else if (type == "RRK6")
         {
            std::vector<Vector> ks;
            ref = 0.0;
            for (int i = 0; i < 8; ++i)
            {
               Vector y(a.x0);
               for (int j = 0; j < i; ++j) { y.Add(dt * rkA[i][j], ks[size_t(j)]); }
               Vector Rc = coupled(y, a.t0 + rkC[i] * dt);
               production += rkB[i] * prod(y, Rc, sc);
               scs += std::fabs(rkB[i]) * sc;
               ks.push_back(slope(y, a.t0 + rkC[i] * dt));
               ref.Add(gm * dt * rkB[i], ks.back());
            }
         }
         else
         {
            // midpoint: the increment has to solve the equation of the stage
            Vector kk(d);
            kk /= gm * dt;
            Vector y = ax(a.x0, 0.5 * dt, kk), Rs = coupled(y, a.t0 + 0.5 * dt);
            production = prod(y, Rs, sc);
            double rs = gnorm(coupled(a.x0, a.t0 + 0.5 * dt));
            for (int i = 0; i < nc + n; ++i) { Rs(i) += (i < nc ? 1.0 : md(i - nc)) * kk(i); }
            SIM_CHECK(!f->nonlinear_solver->GetConverged() || gnorm(Rs) <= 1e-7 * rs + 1e-8 + 4e-16 * scale * gnorm(md) / (gm * dt) + 4 * tnoise * rs, "stage", "%s: step %zu leaves a residual of %.3g in the equation of the stage (%.3g at the start of the step)", S.c_str(), k, gnorm(Rs), rs);
            ref = d;
         }
         if (!std::isfinite(gnorm(ref))) { probe("diverged"); obs.clear(); return; }
         if (!f->nonlinear_solver->GetConverged() && type.find("RK4") == std::string::npos && type != "RK1" && type != "RRK6") { probe("diverged"); obs.clear(); return; }
         ref -= d;
         SIM_CHECK(gmax(ref.Normlinf()) <= (1e-8 + 4 * tnoise) * dn + 1e-12 * scale, "step", "%s: step %zu of %s differs by %.3g from the scheme for the coupled system (change %.3g)", S.c_str(), k, type.c_str(), gmax(ref.Normlinf()), dn);
         if (relax)
         {
            double e0 = entropy(a.x0, a.t0), e1 = entropy(a.x1, a.t1), bal = e1 - e0 + adv * production;
            SIM_CHECK(std::fabs(bal) <= 2e-11 * (1 + std::fabs(e0)), "entropy-balance", "%s: step %zu (gamma %.9g) changes the entropy by %.6g, the stages produce %.6g", S.c_str(), k, gm, e1 - e0, -adv * production);
            probe("entropy balance");
         }
         bool stop = a.t1 >= tf - 1e-14 * dt;
         SIM_CHECK(stop == (k + 1 == N) || (k + 1 == N && int(N) == maxit), "stop", "%s: after step %zu (t = %.15g of %.15g) the march %s", S.c_str(), k, a.t1, tf, stop ? "goes on" : "ends");
      }
      for (size_t k = 0; k < (relax ? 1 : N); ++k) { obs.push_back({fmt("state %d %zu", rep, k), gnorm(rec[k].x1), gnorm(rec[k].x1)}); }
      // the histories of the outputs
      MPI_Barrier(MPI_COMM_WORLD);
      for (auto &nm : c.outs)
      {
         std::vector<std::pair<double, double>> lines;
         if (sim::rank() == 0)
         {
            std::ifstream is(nm + "-" + std::to_string(c.sample) + ".txt");
            double a, b;
            while (is >> a >> b) { lines.push_back({a, b}); }
            SIM_CHECK(lines.size() == N + 1 && is.eof(), "output-log", "%s: the history of %s has %zu lines after %zu steps (march %d)", S.c_str(), nm.c_str(), lines.size(), N, rep);
         }
         for (size_t k = 0; k <= N; ++k)
         {
            const Vector &u = k < N ? rec[k].x0 : rec[N - 1].x1;
            const double t = k < N ? rec[k].t0 : rec[N - 1].t1;
            double v, scv, be, sup;
            Vector q = flowOf(u);
            if (nm == "entropy") { v = entropy(u, t); scv = 1 + std::fabs(v); }
            else if (nm == "boundary-entropy" || nm == "far-field-supply-rate") { bdry(q, be, sup); v = nm[0] == 'b' ? be : sup; scv = 1e-3 + (nm[0] == 'b' ? beScale : supScale); }
            else { auto act = xav(); miso::MISOInputs in{{"state", q}, {"time", t}}; v = g->A().calcOutput(nm, in); scv = 10 + std::fabs(v); }
            if (sim::rank() == 0) { SIM_CHECK(std::fabs(lines[k].first - t) <= 1e-14 * std::fabs(t) && std::fabs(lines[k].second - v) <= 1e-10 * scv, "output-log", "%s: line %zu of the history of %s is (%.16g, %.12g), it should be (%.16g, %.12g)", S.c_str(), k, nm.c_str(), lines[k].first, lines[k].second, t, v); }
         }
         probe("output history");
      }
      MPI_Barrier(MPI_COMM_WORLD);
      if (rep) { probe("marched again"); }
   }
}
static void genControlled(Spec &s)
{
   s.opts["flow-param"]["entropy-state"] = s.entvar = false;
   json &td = s.opts["time-dis"];
   std::vector<std::string> ty = {"RK1", "RK4"};
   const bool relax = !s.euler && !(s.dsbp && s.nranks > 1);
   const bool impl = !s.dsbp && s.ne * (s.degree + 2) * (s.degree + 3) <= 80;
   if (relax) { ty.push_back("RRK6"); if (impl) { ty.push_back("RRK"); } }
   if (impl) { ty.push_back("MIDPOINT"); }
   std::string type = ty[gen(uint32_t(ty.size()))];
   bool im = type == "RRK" || type == "MIDPOINT";
   s.cfl = s.viscous && !im ? genIn(0.005, 0.02) : im ? genIn(0.05, 0.3) : genIn(0.02, 0.15);
   s.span = genIn(0.3, 3.5);
   td = {{"type", type}, {"steady", false}, {"const-cfl", bool(gen(2))}, {"entropy-log", false}, {"max-iter", genInt(1, 5)}};
   if (gen(4) == 0) { td["exact-t-final"] = bool(gen(2)); }
   s.opts["nonlin-solver"]["reltol"] = 1e-9;
   s.opts["nonlin-solver"]["abstol"] = 1e-11;
   s.opts["lin-solver"] = {{"type", "fgmres"}, {"printlevel", 0}, {"maxiter", 150}, {"kdim", 150}, {"reltol", 1e-8}, {"abstol", 1e-14}};
   s.opts["lin-prec"] = {{"type", "hypreilu"}, {"lev-fill", genInt(0, 2)}, {"ilu-type", 0}, {"ilu-reorder", int(gen(2))}, {"printlevel", 0}};
   s.again = gen(2) == 0;
   s.other = gen(2) == 0;
}
