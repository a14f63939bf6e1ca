// Outputs of the magnetostatic solver used by machine design: winding and core
// losses, heat sources, forces, torques, masses.  Included by pde.cpp.
#ifndef VERIF_EMOUT_HPP
#define VERIF_EMOUT_HPP
#include "pdecommon.hpp"

namespace emsim
{
using namespace pdesim;

struct EmOut
{
   std::string name;
   json opts = json::object();
   std::vector<std::string> fld, scal;   // inputs it can be differentiated by
   bool dist = false, jvp = true;
   std::vector<json> alt = {};           // other options it can be switched to
};
struct EmSpec
{
   Spec base;
   std::vector<EmOut> outs;
   int tempDeg = 0;                      // 0: the solver's own temperature field
   bool tempDG = false;
   std::vector<int> windings;            // attributes carrying current
   bool wire = false;                    // winding density weighted by fill factor
   bool linSigma = false;
   double alpha = 0, Tref = 300, sig = 1, nu[5] = {0, 1, 1, 1, 1}, rho[5] = {0, 1, 1, 1, 1};
   double T0 = 280, T1 = 350;
   std::vector<double> kh0, kh1, ke0, ke1;
   std::vector<Field> tp, pf;
   std::vector<double> jump;
   std::string str() const { return fmt("%s, temperature %s%d", base.str().c_str(), tempDeg ? tempDG ? "DG" : "H1" : "default", tempDeg); }
   double sigma(double T) const { return linSigma ? sig / (1 + alpha * (T - Tref)) : sig; }
   static double poly(const std::vector<double> &c, double x) { double s = 0; for (size_t i = c.size(); i-- > 0;) { s = s * x + c[i]; } return s; }
   double mix(const std::vector<double> &a, const std::vector<double> &b, double T, double B) const
   {
      double k0 = poly(a, B), k1 = poly(b, B);
      return k0 + (T - T0) * (k1 - k0) / (T1 - T0);
   }
   double density(int attr, double ff) const { return wire && (attr == 1 || attr == 4) ? ff * 8960 + (1 - ff) * 1200 : rho[attr]; }
   /// core loss per volume
   double core(int attr, double T, double f, double B) const
   {
      return rho[attr] * B * B * (mix(kh0, kh1, T, B) * f + mix(ke0, ke1, T, B) * f * f);
   }
};
inline const std::vector<std::string> &emScalars()
{
   static const std::vector<std::string> s = {"wire_length", "rms_current", "strand_radius", "strands_in_hand", "frequency", "stack_length", "num_turns", "num_slots", "fill_factor"};
   return s;
}
inline EmSpec genEm(int maxRanks)
{
   EmSpec e;
   Spec &s = e.base;
   bool three = gen(4) == 0;
   s.kind = three ? Mag3 : Mag2;
   s.nd = three;
   s.ms = genMesh(three ? 3 : 2, 12, maxRanks, true, true);
   s.degree = three ? 1 : genInt(1, 3);
   if (three) { s.ms.nodeOrder = 1; }
   json o = baseOptions(s);
   auto raw = s.ms.serialRaw();
   int ne = raw.GetNE();
   bool two = ne >= 4 && gen(2);
   for (int i = 0; i < ne; ++i) { s.attr.push_back(i < 3 ? i + 1 : i == 3 && two ? 4 : genInt(1, two ? 4 : 3)); }
   for (int i = ne - 1; i > 0; --i) { std::swap(s.attr[size_t(i)], s.attr[gen(uint32_t(i + 1))]); }
   e.windings = {1};
   if (two) { e.windings.push_back(4); }
   auto mur = [](double nu) { return 1.0 / (nu * 4e-7 * M_PI); };
   for (int a = 1; a <= 4; ++a) { e.nu[a] = genIn(0.5, 2); e.rho[a] = genIn(0.5, 3); }
   e.nu[4] = e.nu[1];
   e.rho[4] = e.rho[1];
   e.wire = gen(3) == 0;
   e.linSigma = e.wire || gen(2);
   e.alpha = genIn(-0.004, 0.004);
   e.Tref = genIn(280, 320);
   e.sig = genIn(0.5, 2);
   json w = {{"name", e.wire ? "copperwire" : "w"}, {"mu_r", mur(e.nu[1])}};
   if (!e.wire) { w["rho"] = e.rho[1]; }
   if (e.linSigma) { w["conductivity"] = {{"model", "linear"}, {"alpha_resistivity", e.alpha}, {"T_ref", e.Tref}, {"sigma_T_ref", e.sig}}; }
   else { w["sigma"] = e.sig; if (gen(2)) { w["conductivity"] = {{"model", "constant"}}; } }
   e.T0 = genIn(270, 300);
   e.T1 = genIn(330, 370);
   auto coef = [] { std::vector<double> c; int n = genInt(1, 4); for (int i = 0; i < n; ++i) { c.push_back(genIn(0.1, 0.5)); } return c; };
   e.kh0 = coef(); e.kh1 = coef(); e.ke0 = coef(); e.ke1 = coef();
   json c = {{"name", "c"}, {"mu_r", mur(e.nu[2])}, {"rho", e.rho[2]},
             {"core_loss", {{"T0", e.T0}, {"kh_T0", e.kh0}, {"ke_T0", e.ke0}, {"T1", e.T1}, {"kh_T1", e.kh1}, {"ke_T1", e.ke1}}}};
   s.nonlinear = !three && gen(3) == 0;
   if (s.nonlinear)
   {
      std::vector<double> cps, knots;
      double v = genIn(-0.5, 0.2);
      for (int i = 0; i < 7; ++i) { cps.push_back(v); v += genIn(0, 0.3); }
      cps[1] = cps[0];
      for (int i = 0; i < 4; ++i) { knots.push_back(0.0); }
      for (int i = 0; i < 3; ++i) { knots.push_back(2.0 * (i + 1)); }
      for (int i = 0; i < 4; ++i) { knots.push_back(8.0); }
      c["reluctivity"] = {{"model", "lognu"}, {"cps", cps}, {"knots", knots}, {"degree", 3}};
   }
   json a = {{"name", "a"}, {"mu_r", mur(e.nu[3])}, {"rho", e.rho[3]}};
   json cc = {{"material", c}}, ac = {{"material", a}};
   if (gen(2)) { cc["attr"] = 2; } else { cc["attrs"] = {2}; }
   if (gen(2)) { ac["attr"] = 3; } else { ac["attrs"] = {3}; }
   o["components"] = {{"win", {{"attrs", e.windings}, {"material", w}}}, {"core", cc}, {"gap", ac}};
   o["current"] = {{"g1", {{"z", {1}}}}};
   if (two) { o["current"]["g2"] = {{"z", {4}}}; }
   s.ess = {1};
   o["bcs"]["essential"] = s.ess;
   o["paraview"] = {{"log", false}};
   e.tempDeg = gen(3) ? genInt(1, 2) : 0;
   e.tempDG = e.tempDeg && gen(3) == 0;
   if (e.tempDeg) { o["external-fields"] = {{"temperature", {{"basis-type", e.tempDG ? "DG" : "H1"}, {"degree", e.tempDeg}, {"num-states", 1}}}}; }
   s.opts = o;
   s.scal = {"current_density:g1"};
   s.scalSens = {true};
   if (two) { s.scal.push_back("current_density:g2"); s.scalSens.push_back(true); }
   for (int i = 0; i < 3; ++i) { s.st.push_back(genField(0.7)); }
   for (int i = 0; i < 3; ++i) { s.disp.push_back(genField(1.0)); s.amp.push_back(i ? genIn(-0.02, 0.02) : 0.0); }
   for (int i = 0; i < 3; ++i) { e.tp.push_back(genField(1.0)); e.pf.push_back(genField(0.5)); }
   for (int i = 0; i < 5; ++i) { e.jump.push_back(genIn(0.3, 1.5)); }
   gPart = s.ms.part;
   auto attrs = [&](std::vector<int> v) { return gen(3) ? json{{"attributes", v}} : json::object(); };
   {
      std::vector<double> ax = {genIn(-1, 1), genIn(-1, 1), genIn(0.5, 2)}, ab = {genIn(0, 1), genIn(0, 1), genIn(0, 1)};
      json f = {{"axis", ax}, {"attributes", {genInt(1, 2)}}};
      json t = {{"axis", ax}, {"about", ab}, {"attributes", {genInt(1, 2)}}};
      if (gen(2)) { t["air_attributes"] = {3}; }
      if (!three) { t["axis"] = {0.0, 0.0, genIn(0.5, 2) * (gen(2) ? 1 : -1)}; }
      e.outs.push_back({"force", f, {"state", "mesh_coords"}, {}});
      e.outs.push_back({"torque", t, {"state", "mesh_coords"}, {}});
      for (int i = 0; i < 2; ++i)
      {
         f["axis"] = std::vector<double>{genIn(-1, 1), genIn(-1, 1), genIn(-1, 1)};
         t["about"] = std::vector<double>{genIn(0, 1), genIn(0, 1), genIn(0, 1)};
         if (three) { t["axis"] = std::vector<double>{genIn(-1, 1), genIn(-1, 1), genIn(0.5, 2)}; }
         e.outs[0].alt.push_back(f);
         e.outs[1].alt.push_back(t);
      }
   }
   e.outs.push_back({"dc_loss", json::object(), {"mesh_coords", "temperature"}, {"wire_length", "rms_current", "strand_radius", "strands_in_hand"}});
   e.outs.push_back({"ac_loss", json::object(), {"mesh_coords", "peak_flux", "temperature"}, {"strand_radius", "frequency", "stack_length", "strands_in_hand", "num_turns", "num_slots"}});
   e.outs.push_back({"core_loss", json{{"attributes", {2}}}, {"mesh_coords", "peak_flux", "temperature"}, {"frequency"}});
   e.outs.push_back({"mass", attrs(two ? std::vector<int>{1, 4} : std::vector<int>{1}), {"mesh_coords"}, {}});
   if (e.wire) { e.outs.back().scal = {"fill_factor"}; }
   e.outs.push_back({"heat_source", json{{"dc_loss", {{"attributes", e.windings}}}, {"ac_loss", {{"attributes", e.windings}}}, {"core_loss", {{"attributes", {2}}}}},
                     {"mesh_coords", "peak_flux", "temperature"},
                     {"wire_length", "rms_current", "strand_radius", "strands_in_hand", "frequency", "stack_length", "num_turns", "num_slots"}, true, false});
   e.outs.push_back({"energy", attrs({2}), {"state", "mesh_coords"}, {}});
   e.outs.push_back({"flux_density", json::object(), {"state", "mesh_coords"}, {}, true, false});
   e.outs.push_back({"flux_magnitude", json::object(), {"state", "mesh_coords"}, {}, true, false});
   for (auto &x : e.outs) { s.outs.push_back({x.name, x.opts}); }
   return e;
}

struct EmSol : Sol
{
   const EmSpec &es;
   std::vector<int> cur = std::vector<int>(64, -1);   // options in place, -1: those of its creation
   std::vector<Vector> tp, pf, h, hd, hm;   // directions in the spaces of the fields
   ParFiniteElementSpace *tfes, *pfes;
   explicit EmSol(const EmSpec &e) : Sol(e.base), es(e)
   {
      tfes = &fields->at("temperature").space();
      pfes = &fields->at("peak_flux").space();
      ParGridFunction tg(tfes), pg(pfes);
      for (size_t k = 0; k < e.tp.size(); ++k)
      {
         FunctionCoefficient c(e.tp[k].sca());
         tg.ProjectCoefficient(c);
         Vector v(tfes->GetTrueVSize());
         tg.GetTrueDofs(v);
         h.push_back(v);
         Vector w(v);
         for (int i = 0; i < w.Size(); ++i) { w(i) = 300 + 15 * v(i); }
         tp.push_back(w);
      }
      for (size_t k = 0; k < e.pf.size(); ++k)
      {
         hd.push_back(direction(space("flux_density"), k));
         hm.push_back(direction(space("flux_magnitude"), k));
         FunctionCoefficient c(e.pf[k].sca());
         pg.ProjectCoefficient(c);
         Array<int> d;
         for (int el = 0; el < pm->GetNE(); ++el)
         {
            pfes->GetElementDofs(el, d);
            for (int i = 0; i < d.Size(); ++i) { pg(d[i]) = es.jump[size_t(pm->GetAttribute(el))] * (1.0 + pg(d[i])); }
         }
         Vector v(pfes->GetTrueVSize());
         pg.GetTrueDofs(v);
         pf.push_back(v);
      }
   }
   /// the space of a distributed output
   ParFiniteElementSpace &space(const std::string &n) { return n == "heat_source" ? *tfes : fields->at(n).space(); }
   const Vector &dir(const std::string &n, int k) { return n == "flux_density" ? hd[size_t(k)] : n == "flux_magnitude" ? hm[size_t(k)] : h[size_t(k)]; }
   Vector direction(ParFiniteElementSpace &f, size_t k)
   {
      ParGridFunction g(&f);
      auto fun = es.pf[k].sca();
      auto vec = [&](const Vector &x, Vector &y) { for (int d = 0; d < y.Size(); ++d) { y(d) = (d + 1) * fun(x) - 0.5 * d; } };
      VectorFunctionCoefficient vc(f.GetVDim(), vec);
      FunctionCoefficient sc(fun);
      if (f.GetVDim() > 1) { g.ProjectCoefficient(vc); } else { g.ProjectCoefficient(sc); }
      Vector v(f.GetTrueVSize());
      g.GetTrueDofs(v);
      return v;
   }
};
struct EmOp
{
   int out = 0, u = 0, m = 0, t = 0, p = 0, h = 0, d = 0;
   bool prod = false;
   int wrt = 0;
   std::map<std::string, double> sc;
   double ob = 1;
   int cfg = -1;
};
inline EmOp genEmOp(const EmSpec &e, bool prod)
{
   EmOp o;
   o.out = genInt(0, int(e.outs.size()) - 1);
   o.u = genInt(0, 2); o.m = genInt(0, 2); o.t = genInt(0, 2); o.p = genInt(0, 2); o.h = genInt(0, 2); o.d = genInt(0, 2);
   o.prod = prod;
   const auto &x = e.outs[size_t(o.out)];
   o.wrt = genInt(0, int(x.fld.size() + x.scal.size()) - 1);
   for (auto &n : emScalars()) { o.sc[n] = genIn(0.6, 1.6); }
   o.sc["fill_factor"] = genIn(0.2, 0.8);
   o.ob = genIn(0.5, 1.5) * (gen(2) ? 1 : -1);
   if (x.alt.size()) { o.cfg = genInt(-1, int(x.alt.size()) - 1); }
   return o;
}
/// the output with the options of the operation
inline EmOut emOut(const EmSpec &e, const EmOp &o)
{
   EmOut x = e.outs[size_t(o.out)];
   if (o.cfg >= 0) { x.opts = x.alt[size_t(o.cfg)]; }
   return x;
}
/// the problem with the options of the operation from the start
inline EmSpec emFresh(const EmSpec &e, const EmOp &o)
{
   EmSpec s = e;
   if (o.cfg >= 0)
   {
      s.outs[size_t(o.out)] = emOut(e, o);
      s.base.outs[size_t(o.out)].opts = s.outs[size_t(o.out)].opts;
   }
   return s;
}
inline std::string emName(const EmSpec &e, const EmOp &o)
{
   const auto &x = e.outs[size_t(o.out)];
   if (!o.prod) { return x.name; }
   return x.name + " by " + (size_t(o.wrt) < x.fld.size() ? x.fld[size_t(o.wrt)] : x.scal[size_t(o.wrt) - x.fld.size()]);
}

/// The same quantities, from their definitions, on a copy of the mesh.
struct EmRef
{
   EmSol &so;
   const EmSpec &e;
   const EmOp &op;
   ParMesh pm;
   ParFiniteElementSpace mf, tf, pf, sf;
   ParGridFunction T, B, A;
   EmRef(EmSol &s, const EmOp &o) : so(s), e(s.es), op(o), pm(*s.pm), mf(*s.mfes, pm), tf(*s.tfes, pm), pf(*s.pfes, pm), sf(*s.fes, pm), T(&tf), B(&pf), A(&sf)
   {
      place(so.mc[size_t(op.m)]);
      T.SetFromTrueDofs(so.tp[size_t(op.t)]);
      B.SetFromTrueDofs(so.pf[size_t(op.p)]);
      A.SetFromTrueDofs(so.st[size_t(op.u)]);
   }
   void place(const Vector &x)
   {
      ParGridFunction g(&mf);
      g.SetFromTrueDofs(x);
      pm.SetNodes(g);
   }
   static int qo(const FiniteElement &el, int a) { return el.Space() == FunctionSpace::Pk ? 2 * el.GetOrder() - a : 2 * el.GetOrder(); }
   bool in(int attr, const json &o) const
   {
      if (!o.contains("attributes")) { return true; }
      for (int a : o["attributes"]) { if (a == attr) { return true; } }
      return false;
   }
   double integral(const ParFiniteElementSpace &f, int a, const std::function<bool(int)> &where, const std::function<double(int, ElementTransformation &, const IntegrationPoint &)> &g, bool orderW = false)
   {
      double s = 0;
      for (int el = 0; el < pm.GetNE(); ++el)
      {
         int at = pm.GetAttribute(el);
         if (!where(at)) { continue; }
         IsoparametricTransformation tr;
         pm.GetElementTransformation(el, &tr);
         const IntegrationRule &ir = IntRules.Get(tr.GetGeometryType(), orderW ? tr.OrderW() : qo(*f.GetFE(el), a));
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            const IntegrationPoint &ip = ir.IntPoint(q);
            tr.SetIntPoint(&ip);
            s += ip.weight * tr.Weight() * g(at, tr, ip);
         }
      }
      return gsum(s);
   }
   double energyDensity(ElementTransformation &tr, const IntegrationPoint &ip, int attr)
   {
      double b;
      if (so.sp.nd) { Vector c; A.GetCurl(tr, c); b = c.Norml2(); }
      else { Vector g; A.GetGradient(tr, g); b = g.Norml2(); }
      if (!(so.sp.nonlinear && attr == 2)) { return 0.5 * e.nu[attr] * b * b; }
      auto &nu = static_cast<Mg *>(so.s.get())->nu;
      const IntegrationRule &ir = IntRules.Get(Geometry::SEGMENT, 20);
      double s = 0;
      for (int q = 0; q < ir.GetNPoints(); ++q) { double x = ir.IntPoint(q).x * b; s += ir.IntPoint(q).weight * x * nu.Eval(tr, ip, x); }
      return s * b;
   }
   double energy(const std::function<bool(int)> &where)
   {
      return integral(sf, 2, where, [&](int at, ElementTransformation &tr, const IntegrationPoint &ip) { return energyDensity(tr, ip, at); });
   }
   /// the nodes of the named attributes move by g(initial position), the others stay
   Vector motion(const json &o, const std::function<void(const Vector &, Vector &)> &g)
   {
      int dim = pm.SpaceDimension();
      ParGridFunction X(&mf), V(&mf);
      X.SetFromTrueDofs(so.mc[0]);
      Array<int> mark(mf.GetVSize()), vd;
      mark = 0;
      for (int el = 0; el < pm.GetNE(); ++el)
      {
         bool hit = false;
         for (int a : o["attributes"]) { hit = hit || a == pm.GetAttribute(el); }
         if (!hit) { continue; }
         mf.GetElementVDofs(el, vd);
         for (int i = 0; i < vd.Size(); ++i) { mark[vd[i]] = 1; }
      }
      mf.Synchronize(mark);
      V = 0.0;
      for (int n = 0; n < mf.GetNDofs(); ++n)
      {
         Vector x(dim), v(dim);
         for (int d = 0; d < dim; ++d) { x(d) = X(mf.DofToVDof(n, d)); }
         if (!mark[mf.DofToVDof(n, 0)]) { continue; }
         g(x, v);
         for (int d = 0; d < dim; ++d) { V(mf.DofToVDof(n, d)) = v(d); }
      }
      Vector t(mf.GetTrueVSize());
      V.GetTrueDofs(t);
      return t;
   }
   double force(const EmOut &o, double &err)
   {
      const json &j = o.opts;
      int dim = pm.SpaceDimension();
      std::vector<double> ax = j["axis"], ab;
      bool tq = o.name == "torque";
      if (tq)
      {
         ab = j["about"].get<std::vector<double>>();
         double n = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]);
         for (auto &x : ax) { x /= n; }
      }
      Vector v = motion(j, [&](const Vector &x, Vector &w) {
         if (!tq) { for (int d = 0; d < dim; ++d) { w(d) = ax[size_t(d)]; } return; }
         double r[3] = {x(0) - ab[0], x(1) - ab[1], dim == 3 ? x(2) - ab[2] : 0.0};
         double c[3] = {ax[1] * r[2] - ax[2] * r[1], ax[2] * r[0] - ax[0] * r[2], ax[0] * r[1] - ax[1] * r[0]};
         for (int d = 0; d < dim; ++d) { w(d) = c[d]; }
      });
      auto where = [&](int at) {
         for (int a : j["attributes"]) { if (a == at) { return false; } }
         if (j.contains("air_attributes")) { for (int a : j["air_attributes"]) { if (a == at) { return true; } } return false; }
         return true;
      };
      auto E = [&](double s) { Vector x(so.mc[size_t(op.m)]); x.Add(s, v); place(x); return energy(where); };
      auto D = [&](double h) { return (8 * (E(h) - E(-h)) - (E(2 * h) - E(-2 * h))) / (12 * h); };
      double d1 = D(4e-4), d2 = D(1e-4);
      err = std::fabs(d1 - d2);
      return -d2;
   }
   std::function<bool(int)> winding() { return [this](int at) { return std::find(e.windings.begin(), e.windings.end(), at) != e.windings.end(); }; }
   double sc(const char *n) { return op.sc.at(n); }
   double Tat(ElementTransformation &tr, const IntegrationPoint &ip) { return T.GetValue(tr, ip); }
   double Bat(ElementTransformation &tr, const IntegrationPoint &ip) { return B.GetValue(tr, ip); }
   double strandAC() { return M_PI * std::pow(sc("strand_radius"), 4) * std::pow(2 * M_PI * sc("frequency"), 2) / 8 * 2 * sc("strands_in_hand") * sc("num_turns") * sc("num_slots"); }
   double strandDC() { return sc("rms_current") * sc("rms_current") * std::sqrt(2.0) * sc("wire_length") / (M_PI * sc("strand_radius") * sc("strand_radius") * sc("strands_in_hand")); }
   double volume(const std::function<bool(int)> &w) { return integral(sf, 0, w, [](int, ElementTransformation &, const IntegrationPoint &) { return 1.0; }, true); }
   double value(const EmOut &o, double &err)
   {
      err = 0;
      if (o.name == "force" || o.name == "torque") { return force(o, err); }
      if (o.name == "energy") { return energy([&](int at) { return in(at, o.opts); }); }
      if (o.name == "mass") { return integral(sf, 0, [&](int at) { return in(at, o.opts); }, [&](int at, ElementTransformation &, const IntegrationPoint &) { return e.density(at, sc("fill_factor")); }, true); }
      if (o.name == "core_loss")
      {
         return integral(pf, 1, [&](int at) { return in(at, o.opts); }, [&](int at, ElementTransformation &tr, const IntegrationPoint &ip) { return e.core(at, Tat(tr, ip), sc("frequency"), Bat(tr, ip)); });
      }
      if (o.name == "dc_loss")
      {
         double r = integral(sf, 1, winding(), [&](int, ElementTransformation &tr, const IntegrationPoint &ip) { return 1 / e.sigma(Tat(tr, ip)); });
         return strandDC() * r / volume(winding());
      }
      if (o.name == "ac_loss")
      {
         double r = integral(pf, 2, winding(), [&](int, ElementTransformation &tr, const IntegrationPoint &ip) { return e.sigma(Tat(tr, ip)) * std::pow(Bat(tr, ip), 2); });
         return strandAC() * sc("stack_length") * r / volume(winding());
      }
      return 0;
   }
   /// what a distributed output is
   void dist(const EmOut &o, Vector &out)
   {
      if (o.name == "heat_source") { heat(out); }
      else { flux(o, out); }
   }
   /// B = curl A, or its magnitude, at the nodes of the output's elements
   void flux(const EmOut &o, Vector &out)
   {
      ParFiniteElementSpace f(so.space(o.name), pm);
      ParGridFunction g(&f);
      Array<int> vd;
      for (int el = 0; el < pm.GetNE(); ++el)
      {
         IsoparametricTransformation tr;
         pm.GetElementTransformation(el, &tr);
         f.GetElementVDofs(el, vd);
         const IntegrationRule &ir = f.GetFE(el)->GetNodes();
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            tr.SetIntPoint(&ir.IntPoint(q));
            Vector b;
            if (so.sp.nd) { A.GetCurl(tr, b); }
            else { A.GetGradient(tr, b); std::swap(b(0), b(1)); b(1) = -b(1); }
            if (f.GetVDim() == 1) { g(vd[q]) = b.Norml2(); continue; }
            for (int d = 0; d < b.Size(); ++d) { g(vd[d * ir.GetNPoints() + q]) = b(d); }
         }
      }
      g.GetTrueDofs(out);
   }
   void heat(Vector &out)
   {
      double vol = volume(winding());
      auto w = winding();
      ParLinearForm lf(&tf);
      lf = 0.0;
      for (int el = 0; el < pm.GetNE(); ++el)
      {
         int at = pm.GetAttribute(el);
         IsoparametricTransformation tr;
         pm.GetElementTransformation(el, &tr);
         const FiniteElement &fe = *tf.GetFE(el);
         const IntegrationRule &ir = IntRules.Get(tr.GetGeometryType(), qo(fe, 1));
         Vector sh(fe.GetDof()), ev(fe.GetDof());
         ev = 0.0;
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            const IntegrationPoint &ip = ir.IntPoint(q);
            tr.SetIntPoint(&ip);
            fe.CalcPhysShape(tr, sh);
            double t = Tat(tr, ip), b = Bat(tr, ip), s = 0;
            if (w(at)) { s += strandDC() / e.sigma(t) / (vol * sc("stack_length")) + strandAC() * b * b * e.sigma(t) / vol; }
            if (at == 2) { s += e.core(at, t, sc("frequency"), b); }
            ev.Add(s * ip.weight * tr.Weight(), sh);
         }
         Array<int> vd;
         tf.GetElementVDofs(el, vd);
         lf.AddElementVector(vd, ev);
      }
      lf.ParallelAssemble(out);
   }
};

inline void runEmOp(EmSol &so, const EmOp &op, Result &r, bool check)
{
   const EmSpec &e = so.es;
   const EmOut o = emOut(e, op);
   auto &s = *so.s;
   miso::MISOInputs in;
   in.emplace("state", so.st[size_t(op.u)]);
   in.emplace("mesh_coords", so.mc[size_t(op.m)]);
   in.emplace("temperature", so.tp[size_t(op.t)]);
   in.emplace("peak_flux", so.pf[size_t(op.p)]);
   for (auto &k : op.sc) { in.emplace(k.first, k.second); }
   auto add = [&](const std::string &k, double v, double scale, double tol = 1e-9) { r.obs.push_back({k, v, std::fabs(scale), tol}); };
   int nh = so.space(o.dist ? o.name : "temperature").GetTrueVSize();
   const Vector &h = so.dir(o.name, op.h);
   if (so.cur[size_t(op.out)] != op.cfg)
   {
      // a rotation is about the coordinates the mesh has when it is set
      auto i = in;
      i.erase("mesh_coords");
      i.emplace("mesh_coords", so.mc[0]);
      s.calcOutput(o.name, i);
      s.setOutputOptions(o.name, o.opts);
      so.cur[size_t(op.out)] = op.cfg;
      probe("an output's options were changed");
   }
   auto eval = [&](const miso::MISOInputs &i) {
      if (!o.dist) { return s.calcOutput(o.name, i); }
      Vector q(nh);
      q = 1e30;
      s.calcOutput(o.name, i, q);
      return gdot(q, h);
   };
   std::string who = e.str();
   if (!op.prod)
   {
      if (!o.dist)
      {
         double v = agree(o.name.c_str(), s.calcOutput(o.name, in));
         add(o.name, v, std::fabs(v) + 1e-3);
         Vector one(1);
         one = 0.0;
         s.calcOutput(o.name, in, one);
         SIM_CHECK(std::fabs(one(0) - v) <= 1e-12 * (1 + std::fabs(v)), "output-vector", "%s: the vector form of %s gives %.15g, the scalar form %.15g", who.c_str(), o.name.c_str(), one(0), v);
         if (check)
         {
            EmRef ref(so, op);
            double err = 0, w = ref.value(o, err);
            double tol = o.name == "force" || o.name == "torque" ? (so.sp.nonlinear ? 1e-3 : 1e-6) : 1e-9;
            double sc = o.name == "force" || o.name == "torque" ? 1.0 : 1e-3;
            SIM_CHECK(std::fabs(v - w) <= tol * (std::fabs(v) + std::fabs(w) + sc) + 3 * err, "definition", "%s: %s is %.12g, its definition gives %.12g", who.c_str(), o.name.c_str(), v, w);
         }
      }
      else
      {
         Vector q(nh);
         q = 1e30;
         s.calcOutput(o.name, in, q);
         double a = gdot(q, h), b = gabs(q, h), t = gsum(q.Sum());
         add("<" + o.name + ",h>", a, b);
         add("total " + o.name, t, std::fabs(t));
         if (check)
         {
            EmRef ref(so, op);
            Vector w(nh);
            ref.dist(o, w);
            double m = gmax(w.Normlinf());
            w -= q;
            SIM_CHECK(gmax(w.Normlinf()) <= 1e-9 * (m + 1e-3), "definition", "%s: %s differs from its definition by %.3g of %.3g", who.c_str(), o.name.c_str(), gmax(w.Normlinf()), m);
         }
      }
      return;
   }
   bool scalar = size_t(op.wrt) >= o.fld.size();
   std::string wrt = scalar ? o.scal[size_t(op.wrt) - o.fld.size()] : o.fld[size_t(op.wrt)];
   bool mesh = wrt == "mesh_coords", tmp = wrt == "temperature";
   const Vector *x0 = nullptr, *dir = nullptr;
   if (!scalar)
   {
      x0 = mesh ? &so.mc[size_t(op.m)] : tmp ? &so.tp[size_t(op.t)] : wrt == "state" ? &so.st[size_t(op.u)] : &so.pf[size_t(op.p)];
      dir = mesh ? &so.dmc[size_t(op.d)] : tmp ? &so.h[size_t(op.d)] : wrt == "state" ? &so.st[size_t(op.d)] : &so.pf[size_t(op.d)];
   }
   Vector ob(1);
   ob(0) = op.ob;
   const Vector &obar = o.dist ? h : ob;
   double scale = 0, rev = 0, fwd = 0, obs = o.dist ? 1.0 : op.ob;
   if (scalar)
   {
      Vector bar(1);
      bar(0) = 0.5;
      s.outputVectorJacobianProduct(o.name, in, obar, wrt, bar);
      rev = bar(0) - 0.5;
      rev = o.dist ? gsum(rev) : agree((o.name + " by " + wrt).c_str(), rev);
      scale = std::fabs(rev) + 1e-6;
   }
   else
   {
      Vector bar(*dir);
      s.outputVectorJacobianProduct(o.name, in, obar, wrt, bar);
      bar -= *dir;
      rev = gdot(bar, *dir);
      scale = gabs(bar, *dir) + 1e-6;
   }
   add(emName(e, op), rev, scale);
   if (o.jvp)
   {
      Vector od(1), one(1);
      od(0) = 0.25;
      one(0) = 1.0;
      s.outputJacobianVectorProduct(o.name, in, scalar ? one : *dir, wrt, od);
      fwd = (scalar ? agree((o.name + " by " + wrt + " forward").c_str(), od(0) - 0.25) : gsum(od(0) - 0.25)) * obs;
      add(emName(e, op) + " forward", fwd, scale);
   }
   if (check)
   {
      double tol = so.sp.nonlinear ? 1e-5 : 1e-6;
      if (o.jvp)
      {
         SIM_CHECK(std::fabs(fwd - rev) <= 1e-9 * (scale + std::fabs(fwd)) + 1e-12, "output-duality", "%s: derivative of %s: forward %.12g, reverse %.12g (scale %.3g)", who.c_str(),
                   emName(e, op).c_str(), fwd, rev, scale);
      }
      double dn = scalar ? 1.0 : std::max(1e-3, gmax(dir->Normlinf()));
      auto g = [&](double t) {
         auto i = in;
         i.erase(wrt);
         if (scalar) { i.emplace(wrt, op.sc.at(wrt) + t); return eval(i); }
         Vector x(*x0);
         x.Add(t / dn, *dir);
         i.emplace(wrt, x);
         return eval(i);
      };
      double base = std::fabs(eval(in));
      double h0 = tmp ? 0.5 : mesh ? 2e-4 : 1e-3;
      auto D = [&](double hh) { return (8 * (g(hh) - g(-hh)) - (g(2 * hh) - g(-2 * hh))) / (12 * hh); };
      double d1 = D(h0) * dn * obs, d2 = D(0.25 * h0) * dn * obs;
      double noise = base * 1e-13 / h0 * dn;
      SIM_CHECK(std::fabs(rev - d2) <= tol * (mesh ? 10 : 1) * (scale + std::fabs(d2)) + 3 * std::fabs(d1 - d2) + noise + 1e-12, "output-vjp",
                "%s: derivative of %s: reverse product %.12g, finite difference %.12g (scale %.3g)", who.c_str(), emName(e, op).c_str(), rev, d2, scale);
   }
}
/// everything the caller owns
inline std::vector<uint64_t> hashEm(EmSol &so)
{
   auto h = hashInputs(so);
   for (auto &v : so.tp) { h.push_back(hashVec(v)); }
   for (auto &v : so.pf) { h.push_back(hashVec(v)); }
   for (auto *d : {&so.h, &so.hd, &so.hm}) { for (auto &v : *d) { h.push_back(hashVec(v)); } }
   return h;
}
}  // namespace emsim
#endif
