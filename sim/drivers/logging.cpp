// SOURCES: NONE
// L01 round trip, L02 no silent corruption under disk faults, L03 crash
// consistency of the state loggers (src/common/data_logging.hpp).
#include <cmath>
#include <cstring>
#include <iomanip>
#include <variant>
#include "mfem.hpp"
#include "data_logging.hpp"
#include "sim.hpp"
#include "simfs.hpp"
using namespace sim;

const char *driverProperty() { return "logging"; }

namespace
{
// the rank numbers the entries are logged under
int rankName[4] = {0, 1, 2, 3};
void genRankNames()
{
   static const int tbl[][4] = {{0, 1, 2, 3}, {1, 11, 111, 2}, {0, 10, 2, 12}, {12, 2, 112, 1}, {100, 10, 1, 0}, {7, 1007, 21, 3}};
   int k = int(gen(6));
   for (int i = 0; i < 4; ++i) { rankName[i] = tbl[k][i]; }
}
struct Value
{
   bool absent = true;
   double time = 0;
   std::vector<double> v;
};
struct Key
{
   int logger;
   std::string field;
   int step, rank;
   bool operator<(const Key &o) const
   {
      return std::tie(logger, field, step, rank) < std::tie(o.logger, o.field, o.step, o.rank);
   }
   std::string str() const
   {
      return fmt("%s(%s, step %d, rank %d)", logger ? "binary" : "ascii", field.c_str(), step, rankName[rank]);
   }
};
struct Entry
{
   std::vector<Value> may{Value()};  // what a load may return (absent: must fail)
   bool mayFail = true;              // a load may also report an error
   int inflight = 0;
};
std::map<Key, Entry> model;
int mode;  // 1, 2, 3

bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

double genValue(bool finiteOnly)
{
   switch (gen(9))
   {
      case 0: return genIn(-1, 1);
      case 1: return double(int(gen(2001)) - 1000);
      case 2:
      {
         uint64_t b = (uint64_t(gen(1u << 16)) << 48) | (uint64_t(gen(1u << 24)) << 24) | gen(1u << 24);
         double d;
         memcpy(&d, &b, sizeof d);
         if (finiteOnly && !std::isfinite(d)) { d = 0.1; }
         return d;
      }
      case 3: return std::ldexp(1.0 + genUnit(), int(gen(2040)) - 1020);
      case 4: return -std::ldexp(1.0 + genUnit(), int(gen(2040)) - 1020);
      case 5: return gen(2) ? -0.0 : 0.0;
      case 6:
      {
         static const double sp[] = {4.9406564584124654e-324, 2.2250738585072009e-308, 2.2250738585072014e-308,
                                     1.7976931348623157e+308, -1.7976931348623157e+308, 0.1, 1.0 / 3, 9007199254740993.0,
                                     1e22, 1e23, 5e-324, 123456789012345678.0, 2.5e-15};
         return sp[gen(sizeof sp / sizeof *sp)];
      }
      case 7: return std::nextafter(genIn(-10, 10), gen(2) ? 1e300 : -1e300);
      default:
         if (finiteOnly) { return 1e-5 * (int(gen(200001)) - 100000); }
         static const double nf[] = {INFINITY, -INFINITY, NAN, -NAN};
         return nf[gen(4)];
   }
}
const char *fieldNames[] = {"state", "u", "state_1", "state_1_2", "temp-field", "u_0", "a.b"};
std::string fieldName() { return fieldNames[gen(7)]; }
int genStep()
{
   static const int s[] = {0, 1, 2, 10, 11, 100, 1, 2147483647};
   return s[gen(8)];
}
int genSize()
{
   switch (gen(6))
   {
      case 0: return 0;
      case 1: return 1;
      case 2: return genInt(2, 12);
      case 3: return genInt(2, 60);
      case 4: return genInt(300, 700);
      default: return genInt(1000, 2200);
   }
}
using Logger = std::variant<miso::ASCIILogger, miso::BinaryLogger>;
Logger mkLogger(int k)
{
   if (k) { return miso::BinaryLogger(); }
   return miso::ASCIILogger();
}

bool doSave(const Key &k, const Value &val)
{
   Entry &e = model[k];
   mfem::Vector v(int(val.v.size()));
   for (size_t i = 0; i < val.v.size(); ++i) { v(int(i)) = val.v[i]; }
   e.may.push_back(val);
   e.mayFail = true;
   ++e.inflight;
   long h0 = simfs::hardFaults(rank());
   std::string err;
   note("save %s size %d time %.17g", k.str().c_str(), v.Size(), val.time);
   try
   {
      auto lg = mkLogger(k.logger);
      std::visit([&](auto &&l) { l.saveState(v, k.field, k.step, val.time, rankName[k.rank]); }, lg);
   }
   catch (const std::exception &x) { err = std::string("x ") + x.what(); }
   Entry &f = model[k];
   --f.inflight;
   long h1 = simfs::hardFaults(rank());
   if (err.empty())
   {
      note("saved");
      probe("saves completed");
      if (h1 > h0) { probe("saves completed despite a fault"); }
      f.may.assign(1, val);
      f.mayFail = false;
   }
   else
   {
      note("save failed");
      probe("saves reported failed");
      SIM_CHECK(h1 > h0, "save-fails-without-fault", "saving %s failed although every file operation worked: %s",
                k.str().c_str(), err.c_str());
   }
   for (int i = 0; i < v.Size(); ++i)
   {
      SIM_CHECK(same(v(i), val.v[size_t(i)]), "save-modifies-state", "saving %s changed entry %d of the caller's state",
                k.str().c_str(), i);
   }
   return err.empty();
}
void doLoad(const Key &k, bool strict)
{
   Entry e = model[k];
   // the destination starts out as arbitrary user memory
   mfem::Vector v(int(gen(3)) * 7);
   v = 12345.0;
   double t = -77.0;
   long h0 = simfs::hardFaults(rank());
   std::string err;
   note("load %s", k.str().c_str());
   try
   {
      auto lg = mkLogger(k.logger);
      std::visit([&](auto &&l) { l.readState(k.field, k.step, rankName[k.rank], t, v); }, lg);
   }
   catch (const std::exception &x) { err = std::string("x ") + x.what(); }
   long h1 = simfs::hardFaults(rank());
   if (!err.empty())
   {
      note("load failed");
      probe("loads reported failed");
      bool ok = e.mayFail || (h1 > h0 && !strict);
      for (auto &c : e.may) { ok = ok || c.absent; }
      SIM_CHECK(ok, "load-fails", "loading %s failed although it had been saved completely: %s", k.str().c_str(), err.c_str());
      return;
   }
   note("loaded %d", v.Size());
   hashD(t);
   for (int i = 0; i < v.Size(); ++i) { hashD(v(i)); }
   probe("loads returned data");
   // which of the values that may be there did we get?
   std::string why = "nothing had been saved there";
   for (auto &c : e.may)
   {
      if (c.absent) { continue; }
      if (!same(t, c.time)) { why = fmt("time %.17g instead of %.17g", t, c.time); continue; }
      if (v.Size() != int(c.v.size())) { why = fmt("%d entries instead of %zu", v.Size(), c.v.size()); continue; }
      int bad = -1;
      for (int i = 0; i < v.Size() && bad < 0; ++i)
      {
         if (!same(v(i), c.v[size_t(i)])) { bad = i; }
      }
      if (bad >= 0) { why = fmt("entry %d of %d is %.17g instead of %.17g", bad, v.Size(), v(bad), c.v[size_t(bad)]); continue; }
      return;
   }
   bool onlyAbsent = true;
   for (auto &c : e.may) { onlyAbsent = onlyAbsent && c.absent; }
   violation(onlyAbsent ? "load-of-missing-succeeds" : mode == 1 ? "round-trip" : "silent-corruption",
             fmt("loading %s returned data that was never saved there, with no error: %s", k.str().c_str(), why.c_str()));
}
Key genKey(int r, int nranks)
{
   Key k;
   k.logger = int(gen(2));
   k.field = fieldName();
   k.step = genStep();
   k.rank = r;
   (void)nranks;
   return k;
}
Value genVal(int lg)
{
   Value v;
   v.absent = false;
   bool fin = lg == 0;
   v.time = genValue(true);
   if (lg && gen(8) == 7) { v.time = genValue(false); }
   int n = genSize();
   v.v.resize(size_t(n));
   int kind = int(gen(3));
   double base = genValue(fin);
   for (int i = 0; i < n; ++i)
   {
      if (n > 80 && kind != 2)
      {
         double d = base * (1.0 + 1e-3 * i) + 1e-7 * i;
         if (fin && !std::isfinite(d)) { d = i + 0.1; }
         v.v[size_t(i)] = d;
      }
      else { v.v[size_t(i)] = genValue(fin); }
   }
   return v;
}
struct Pool { std::vector<Key> keys; };

void work(int r, int nranks, int nops, Pool &pool, bool crossRank)
{
   for (int o = 0; o < nops; ++o)
   {
      Key k = pool.keys[gen(uint32_t(pool.keys.size()))];
      k.rank = r;
      bool save = gen(5) < 3;
      if (!save && crossRank && gen(4) == 3) { k.rank = int(gen(uint32_t(nranks))); }
      if (model[k].inflight) { yieldPoint(); continue; }
      hashU(uint64_t(save));
      if (save)
      {
         Value v = genVal(k.logger);
         doSave(k, v);
      }
      else if (k.rank == r) { doLoad(k, false); }
      else
      {
         // another rank's file: only while nothing is being written to it
         NoYield ny;
         simfs::Plan keep = simfs::plan();
         simfs::plan() = simfs::Plan();
         doLoad(k, false);
         simfs::plan() = keep;
      }
   }
}
void loadAll(int nranks)
{
   // every entry of the history is re-read, by its own rank, without faults
   std::vector<Key> ks;
   for (auto &kv : model) { ks.push_back(kv.first); }
   JobConfig jc;
   jc.nranks = nranks;
   auto res = runJob(jc, [&](int r)
   {
      for (auto &k : ks)
      {
         if (k.rank % nranks == r) { doLoad(k, true); }
      }
   });
   for (auto &t : res.threw) { SIM_CHECK(t.empty(), "unexpected-exception", "%s", t.c_str()); }
}
Pool genPool(int nranks)
{
   Pool p;
   int nk = genInt(1, 6);
   for (int i = 0; i < nk; ++i) { p.keys.push_back(genKey(0, nranks)); }
   return p;
}
void sigModel()
{
   for (auto &kv : model)
   {
      signature(uint64_t(kv.first.logger) * 31 + kv.second.may.size() * 7 + kv.second.mayFail);
      for (auto &c : kv.second.may) { signature(c.absent ? 5 : c.v.size()); }
   }
}
void runFaultFree()
{
   int n = genInt(1, 4);
   simfs::plan().benign = gen(3) > 0;
   Pool p = genPool(n);
   int nops = genInt(2, 14);
   JobConfig jc;
   jc.nranks = n;
   auto res = runJob(jc, [&](int r) { work(r, n, nops, p, true); });
   for (auto &t : res.threw) { SIM_CHECK(t.empty(), "unexpected-exception", "%s", t.c_str()); }
   bool benign = simfs::plan().benign;
   simfs::plan() = simfs::Plan();
   simfs::plan().benign = benign && gen(2);
   loadAll(n);
   nontrivial();
   describe(fmt("%d ranks x %d operations on %zu keys, %s; %ld file operations", n, nops, p.keys.size(),
                benign ? "short transfers and EINTR" : "plain I/O", simfs::ops()));
}
void armFaults()
{
   auto &pl = simfs::plan();
   pl.benign = fault(2);
   int what = int(fault(6));
   static const uint32_t den[] = {3, 6, 12, 30};
   pl.onOpen = pl.onWrite = pl.onRead = pl.onMkdir = pl.onClose = false;
   switch (what)
   {
      case 0: pl.quota = long(fault(30000)); break;
      case 1: pl.errDen = den[fault(4)]; pl.onWrite = true; break;
      case 2: pl.errDen = den[fault(4)]; pl.onClose = true; break;
      case 3: pl.errDen = den[fault(4)]; pl.onOpen = pl.onMkdir = true; break;
      case 4: pl.errDen = den[fault(4)]; pl.onRead = true; break;
      default:
         pl.errDen = den[fault(4)];
         pl.onOpen = pl.onWrite = pl.onRead = pl.onMkdir = pl.onClose = true;
         if (fault(2)) { pl.quota = long(fault(60000)); }
   }
}
void runDiskFaults()
{
   int n = genInt(1, 4);
   Pool p = genPool(n);
   int phases = genInt(1, 3);
   for (int ph = 0; ph < phases; ++ph)
   {
      if (ph == 0 && gen(2)) { simfs::plan() = simfs::Plan(); }
      else { armFaults(); }
      int nops = genInt(2, 10);
      JobConfig jc;
      jc.nranks = n;
      auto res = runJob(jc, [&](int r) { work(r, n, nops, p, false); });
      for (auto &t : res.threw) { SIM_CHECK(t.empty(), "unexpected-exception", "%s", t.c_str()); }
      simfs::plan() = simfs::Plan();
      if (gen(2)) { loadAll(n); }
   }
   loadAll(n);
   // the faults have stopped: everything can be saved and read back again
   JobConfig jc;
   jc.nranks = n;
   auto res = runJob(jc, [&](int r)
   {
      for (auto k : p.keys)
      {
         k.rank = r;
         Value v = genVal(k.logger);
         SIM_CHECK(doSave(k, v), "no-recovery", "%s cannot be saved after the faults stopped", k.str().c_str());
         doLoad(k, true);
      }
   });
   for (auto &t : res.threw) { SIM_CHECK(t.empty(), "unexpected-exception", "%s", t.c_str()); }
   if (simfs::hardFaults() > 0) { nontrivial(); }
   describe(fmt("%d ranks, %d phases, %zu keys, %ld hard faults in %ld file operations", n, phases, p.keys.size(),
                simfs::hardFaults(), simfs::ops()));
}
void runCrash()
{
   int n = genInt(1, 4);
   Pool p = genPool(n);
   int incarnations = genInt(1, 3);
   int crashes = 0, damaged = 0;
   for (int i = 0; i < incarnations; ++i)
   {
      JobConfig jc;
      jc.nranks = n;
      jc.mayCrash = true;
      int nops = genInt(2, 10);
      static const uint32_t span[] = {12, 40, 120, 400};
      jc.crashAt = long(fault(span[fault(4)]));
      simfs::plan().benign = fault(3) == 2;
      auto res = runJob(jc, [&](int r) { work(r, n, nops, p, true); });
      for (auto &t : res.threw) { SIM_CHECK(t.empty(), "unexpected-exception", "%s", t.c_str()); }
      simfs::plan() = simfs::Plan();
      if (res.crashed)
      {
         ++crashes;
         int infl = 0;
         for (auto &kv : model)
         {
            infl += kv.second.inflight;
            kv.second.inflight = 0;
         }
         if (infl) { probe("crash inside a save"); nontrivial(); }
         if (infl > 1) { probe("crash inside several ranks' saves"); }
         if (fault(4) == 3)
         {
            // power loss as well: what was not synced may be gone
            int d = simfs::powerLoss(".");
            damaged += d;
            if (d) { for (auto &kv : model) { kv.second.mayFail = true; } }
         }
      }
      loadAll(n);
      // values that were not there after the crash stay not there: narrow the
      // model to what each load may return from now on is left to the next save
      JobConfig j2;
      j2.nranks = n;
      auto r2 = runJob(j2, [&](int r)
      {
         for (auto k : p.keys)
         {
            k.rank = r;
            if (gen(3) != 0) { continue; }
            Value v = genVal(k.logger);
            SIM_CHECK(doSave(k, v), "no-recovery", "%s cannot be saved after the restart", k.str().c_str());
            doLoad(k, true);
         }
      });
      for (auto &t : r2.threw) { SIM_CHECK(t.empty(), "unexpected-exception", "%s", t.c_str()); }
   }
   loadAll(n);
   describe(fmt("%d ranks, %d incarnations, %d crashes, %d files damaged by power loss, %ld file operations", n,
                incarnations, crashes, damaged, simfs::ops()));
}
}  // namespace

void driverRun()
{
   std::string p = getenv("SIM_PROPERTY") ? getenv("SIM_PROPERTY") : "L01";
   mode = p == "L01" ? 1 : p == "L02" ? 2 : 3;
   genRankNames();
   if (mode == 1) { runFaultFree(); }
   else if (mode == 2) { runDiskFaults(); }
   else { runCrash(); }
   sigModel();
}
