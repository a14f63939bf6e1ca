#include "sim.hpp"

#include <execinfo.h>
#include <fcntl.h>
#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <cstdlib>
#include <exception>
#include <memory>
#include <set>
#include <typeinfo>

namespace sim
{
// ------------------------------------------------------------- shared memory
static const uint32_t CAP = 6u << 20;  // choices kept per stream
struct Shared
{
   volatile uint32_t n[NSTREAMS];
   volatile int done;     // 1: result complete
   volatile int status;   // 0 ok, 1 violation, 2 harness error
   volatile uint64_t hash;
   volatile uint64_t sig;
   volatile int nontriv;
   volatile long steps;
   volatile double simtime;
   char cls[128];
   char msg[4096];
   char sample[4096];
   volatile uint32_t nfault, nprobe;
   struct { char name[48]; long n; } faults[64], probes[128];
   uint32_t rec[NSTREAMS][CAP];
};
static Shared *sh = nullptr;

// ------------------------------------------------------------------- streams
static uint64_t rng[NSTREAMS];
static bool replaying = false;
static std::vector<uint32_t> given[NSTREAMS];
static bool muteRec = false;

static uint64_t splitmix(uint64_t &x)
{
   uint64_t z = (x += 0x9e3779b97f4a7c15ull);
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
   return z ^ (z >> 31);
}
static bool tracingOn = false;
static FILE *traceFile = nullptr;

uint32_t draw(StreamId s, uint32_t bound)
{
   if (bound <= 1) { return 0; }
   uint32_t pos = sh->n[s];
   uint32_t v;
   if (replaying) { v = pos < given[s].size() ? given[s][pos] % bound : 0; }
   else { v = uint32_t(splitmix(rng[s]) % bound); }
   if (pos < CAP) { sh->rec[s][pos] = v; }
   sh->n[s] = pos + 1;
   return v;
}
double genUnit() { return double(gen(1u << 24)) / double(1u << 24); }

// --------------------------------------------------------------------- hash
static uint64_t H = 1469598103934665603ull;
void hashBytes(const void *p, size_t n)
{
   const unsigned char *c = static_cast<const unsigned char *>(p);
   for (size_t i = 0; i < n; ++i) { H = (H ^ c[i]) * 1099511628211ull; }
}
void hashU(uint64_t v) { hashBytes(&v, sizeof v); }
void hashD(double d)
{
   if (d != d) { hashU(0x7ff8dead); return; }
   hashBytes(&d, sizeof d);
}
bool tracing() { return tracingOn; }
void note(const char *f, ...)
{
   char buf[2048];
   va_list ap;
   va_start(ap, f);
   vsnprintf(buf, sizeof buf, f, ap);
   va_end(ap);
   hashBytes(buf, strlen(buf));
   if (tracingOn) { fprintf(traceFile, "[%d @%.6f] %s\n", rank(), now(), buf); fflush(traceFile); }
}
std::string fmt(const char *f, ...)
{
   char buf[3000];
   va_list ap;
   va_start(ap, f);
   vsnprintf(buf, sizeof buf, f, ap);
   va_end(ap);
   return buf;
}
template <class A>
static void bump(A &arr, volatile uint32_t &cnt, uint32_t cap, const char *name, long n)
{
   for (uint32_t i = 0; i < cnt; ++i)
   {
      if (!strncmp(arr[i].name, name, 47)) { arr[i].n += n; return; }
   }
   if (cnt < cap)
   {
      strncpy(arr[cnt].name, name, 47);
      arr[cnt].name[47] = 0;
      arr[cnt].n = n;
      cnt = cnt + 1;
   }
}
void countFault(const char *k, long n) { bump(sh->faults, sh->nfault, 64, k, n); }
void probe(const char *k, long n) { bump(sh->probes, sh->nprobe, 128, k, n); }
void signature(uint64_t v)
{
   uint64_t s = sh->sig ^ v;
   s *= 0x9e3779b97f4a7c15ull;
   s ^= s >> 29;
   sh->sig = s;
}
void nontrivial() { sh->nontriv = 1; }
void describe(const std::string &s)
{
   size_t l = strlen(sh->sample);
   if (l + s.size() + 2 < sizeof sh->sample)
   {
      strcat(sh->sample, s.c_str());
   }
}

[[noreturn]] static void finish(int status)
{
   sh->hash = H;
   sh->steps = totalSteps();
   sh->simtime = totalSimTime();
   sh->status = status;
   sh->done = 1;
   if (traceFile) { fflush(traceFile); }
   _exit(0);
}
void violation(const std::string &cls, const std::string &msg)
{
   snprintf(sh->cls, sizeof sh->cls, "%s", cls.c_str());
   snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
   hashBytes(cls.data(), cls.size());
   if (tracingOn) { fprintf(traceFile, "VIOLATION[%s] %s\n", cls.c_str(), msg.c_str()); }
   finish(1);
}
void harnessError(const std::string &msg)
{
   snprintf(sh->cls, sizeof sh->cls, "harness-error");
   snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
   finish(2);
}

// ------------------------------------------------------------------- fibers
struct EhGlobals { void *caught; unsigned int uncaught; };
struct Fiber
{
   ucontext_t ctx;
   char *stack = nullptr;
   bool done = false;
   bool started = false;
   const std::function<bool()> *pred = nullptr;
   const char *what = "";
   EhGlobals eh{nullptr, 0};
   long stalledUntil = 0;
   void *bt[28];
   int nbt = 0;
};
static const char *btFile = getenv("SIM_BT");   // debugging aid: where blocked ranks wait
static const size_t STACK = 16u << 20;
static std::vector<std::unique_ptr<Fiber>> fibers;
static ucontext_t schedCtx;
static int cur = -1;
static bool jobActive = false;
static const std::function<void(int)> *jobBody = nullptr;
static std::vector<std::string> *jobThrew = nullptr;
static JobConfig jobCfg;
static bool crashFlag = false;
static long crashPoints = 0;
static long steps = 0, allSteps = 0;
static double clockNow = 0.0, clockBase = 0.0;
static int noYield = 0;
static Persona pers;
static EhGlobals schedEh{nullptr, 0};

Persona &persona() { return pers; }
NoYield::NoYield() { ++noYield; }
NoYield::~NoYield() { --noYield; }
int rank() { return cur < 0 ? 0 : cur; }
int size() { return jobActive ? int(fibers.size()) : 1; }
bool inJob() { return cur >= 0; }
double now() { return clockNow; }
void advance(double s) { clockNow += s; }
long totalSteps() { return allSteps + steps; }
double totalSimTime() { return clockBase + clockNow; }
void *currentFiberId() { return cur < 0 ? nullptr : fibers[cur].get(); }

static void trampoline()
{
   int me = cur;
   try
   {
      (*jobBody)(me);
   }
   catch (const std::exception &e)
   {
      (*jobThrew)[me] = std::string(e.what()).empty() ? "exception" : e.what();
   }
   catch (...)
   {
      (*jobThrew)[me] = "unknown exception";
   }
   fibers[me]->done = true;
   note("rank %d ends", me);
   for (;;) { swapcontext(&fibers[me]->ctx, &schedCtx); }
}
static void toScheduler()
{
   int me = cur;
   auto *g = reinterpret_cast<EhGlobals *>(__cxxabiv1::__cxa_get_globals());
   fibers[me]->eh = *g;
   *g = schedEh;
   swapcontext(&fibers[me]->ctx, &schedCtx);
   *g = fibers[me]->eh;
}
void yieldPoint()
{
   if (cur < 0 || noYield > 0) { return; }
   if (fibers.size() == 1 || jobCfg.plain) { ++steps; clockNow += 1e-6; 
      if (steps > jobCfg.maxSteps) { toScheduler(); }
      return; }
   if (pers.switchDen > 1 && !schedBool(1, pers.switchDen))
   {
      ++steps;
      clockNow += 1e-6;
      return;
   }
   toScheduler();
}
void stallPoint()
{
   if (cur < 0 || jobCfg.plain) { return; }
   if (pers.stallRank == cur && faultBool(1, 24))
   {
      countFault("rank stalled");
      fibers[cur]->stalledUntil = steps + 20 + fault(600);
      toScheduler();
   }
}
void blockUntil(const std::function<bool()> &pred, const char *what)
{
   if (cur < 0) { if (!pred()) { harnessError(std::string("block outside job: ") + what); } return; }
   while (!pred())
   {
      if (noYield > 0) { harnessError("blocking in NoYield"); }
      fibers[cur]->pred = &pred;
      fibers[cur]->what = what;
      if (btFile) { fibers[cur]->nbt = backtrace(fibers[cur]->bt, 28); }
      toScheduler();
      fibers[cur]->pred = nullptr;
   }
}
void crashPoint(const char *where)
{
   if (cur < 0 || !jobCfg.mayCrash) { return; }
   long k = crashPoints++;
   if (k == jobCfg.crashAt)
   {
      crashFlag = true;
      countFault("process crash");
      note("CRASH at point %ld (%s)", k, where);
      toScheduler();
   }
}

JobResult runJob(const JobConfig &cfg, const std::function<void(int)> &body)
{
   if (jobActive) { harnessError("nested job"); }
   JobResult res;
   res.threw.assign(cfg.nranks, "");
   jobCfg = cfg;
   jobBody = &body;
   jobThrew = &res.threw;
   crashFlag = false;
   crashPoints = 0;
   allSteps += steps;
   clockBase += clockNow;
   steps = 0;
   clockNow = 0.0;
   fibers.clear();
   for (int r = 0; r < cfg.nranks; ++r)
   {
      auto f = std::make_unique<Fiber>();
      f->stack = static_cast<char *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      if (f->stack == MAP_FAILED) { harnessError("mmap stack"); }
      mprotect(f->stack, 4096, PROT_NONE);
      getcontext(&f->ctx);
      f->ctx.uc_stack.ss_sp = f->stack;
      f->ctx.uc_stack.ss_size = STACK;
      f->ctx.uc_link = nullptr;
      makecontext(&f->ctx, trampoline, 0);
      fibers.push_back(std::move(f));
   }
   jobActive = true;
   const Persona savedPersona = pers;
   if (cfg.plain) { pers = Persona(); }
   mpiJobStart(cfg.nranks);
   hashU(cfg.nranks);
   std::vector<int> ready;
   auto *g = reinterpret_cast<EhGlobals *>(__cxxabiv1::__cxa_get_globals());
   schedEh = *g;
   for (;;)
   {
      if (crashFlag) { break; }
      ready.clear();
      bool alive = false, stalled = false;
      for (int r = 0; r < cfg.nranks; ++r)
      {
         Fiber &f = *fibers[r];
         if (f.done) { continue; }
         alive = true;
         if (f.pred && !(*f.pred)()) { continue; }
         if (f.stalledUntil > steps) { stalled = true; continue; }
         ready.push_back(r);
      }
      if (!alive) { break; }
      if (steps > cfg.maxSteps)
      {
         std::string s = "no progress within the step bound; waiting:";
         for (int r = 0; r < cfg.nranks; ++r)
         {
            if (!fibers[r]->done)
            {
               s += fmt(" rank %d in %s;", r, fibers[r]->pred ? fibers[r]->what : "(running)");
            }
         }
         violation("livelock", s);
      }
      if (ready.empty())
      {
         if (stalled)
         {
            long m = LONG_MAX;
            for (auto &f : fibers)
            {
               if (!f->done && f->stalledUntil > steps) { m = std::min(m, f->stalledUntil); }
            }
            clockNow += 1e-6 * double(m - steps);
            steps = m;
            continue;
         }
         double t = mpiNextEventTime();
         if (t >= 0)
         {
            if (t > clockNow) { clockNow = t; }
            else { clockNow += 1e-6; }
            ++steps;
            continue;
         }
         std::string s = "all live ranks are blocked:";
         for (int r = 0; r < cfg.nranks; ++r)
         {
            if (fibers[r]->done)
            {
               s += fmt(" rank %d ended%s%s;", r, res.threw[r].empty() ? "" : " by exception: ",
                        res.threw[r].substr(0, 160).c_str());
            }
            else { s += fmt(" rank %d in %s;", r, fibers[r]->what); }
         }
         note("deadlock");
         if (btFile)
         {
            int fd = open(btFile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            for (auto &f : fibers)
            {
               if (fd >= 0 && !f->done) { (void)!write(fd, "--\n", 3); backtrace_symbols_fd(f->bt, f->nbt, fd); }
            }
            if (fd >= 0) { close(fd); }
         }
         violation("deadlock", s);
      }
      int pick = ready[0];
      if (ready.size() > 1 && !cfg.plain)
      {
         pick = ready[sched(uint32_t(ready.size()))];
         H = (H ^ uint64_t(pick + 1)) * 1099511628211ull;
      }
      ++steps;
      clockNow += 1e-6;
      cur = pick;
      schedEh = *g;
      *g = fibers[pick]->eh;
      swapcontext(&schedCtx, &fibers[pick]->ctx);
      *g = schedEh;
      cur = -1;
   }
   res.crashed = crashFlag;
   res.crashPoints = crashPoints;
   res.steps = steps;
   jobActive = false;
   pers = savedPersona;
   mpiJobEnd(!crashFlag);
   // Fibers of a crashed job are abandoned (their stacks leak on purpose:
   // nothing of a dead process runs again).
   for (auto &f : fibers)
   {
      if (f->done) { munmap(f->stack, STACK); }
   }
   std::vector<std::unique_ptr<Fiber>> *leak = nullptr;
   if (crashFlag) { leak = new std::vector<std::unique_ptr<Fiber>>(std::move(fibers)); }
   (void)leak;
   fibers.clear();
   return res;
}

static void choosePersona()
{
   static const int dens[] = {1, 1, 3, 12, 60};
   pers = Persona();
   pers.switchDen = dens[sched(5)];
   static const uint32_t delays[] = {0, 0, 5, 50, 1000, 40000};
   pers.maxDelay = delays[sched(6)];
   pers.rendezvous = schedBool(1, 4);
   pers.syncColl = schedBool(1, 4);
   pers.shuffleReduce = schedBool(1, 2);
   pers.stallRank = schedBool(1, 4) ? int(sched(4)) : -1;
   pers.lazyTest = schedBool(1, 3);
}
}  // namespace sim

// ---------------------------------------------------------------------- main
using namespace sim;
static std::string scratchBase;

static void childMain(uint64_t seed, bool isReplay, int cpuLimit)
{
   uint64_t s = seed;
   for (int i = 0; i < NSTREAMS; ++i)
   {
      rng[i] = splitmix(s) ^ (0x5151ull * (i + 1));
   }
   replaying = isReplay;
   struct rlimit rl{rlim_t(cpuLimit), rlim_t(cpuLimit + 2)};
   setrlimit(RLIMIT_CPU, &rl);
   struct rlimit core{0, 0};
   setrlimit(RLIMIT_CORE, &core);
   std::string dir = scratchBase + "/run";
   mkdir(dir.c_str(), 0700);
   if (chdir(dir.c_str()) != 0) { harnessError("chdir scratch"); }
   int nul = open("/dev/null", O_WRONLY);
   dup2(nul, 1);
   if (!getenv("SIM_STDERR")) { dup2(nul, 2); }
   choosePersona();
   // dirty memory: fresh heap blocks are filled with a chosen byte
   static const int bytes[] = {0, 0xff, 0x5a, 0x01};
   int b = bytes[fault(4)];
   if (b) { mallopt(M_PERTURB, b ^ 0xff ? b : 1); countFault("dirty heap memory"); }
   simfs_reset();
   driverRun();
   finish(0);
}
static void rmTree(const std::string &d)
{
   // only ever removes below our own scratch directory
   if (d.compare(0, scratchBase.size(), scratchBase) != 0 || scratchBase.size() < 8) { return; }
   pid_t p = fork();
   if (p == 0)
   {
      execl("/bin/rm", "rm", "-rf", "--", d.c_str(), static_cast<char *>(nullptr));
      _exit(1);
   }
   int st;
   waitpid(p, &st, 0);
}
static std::string jsonEsc(const char *s)
{
   std::string o;
   for (; *s; ++s)
   {
      unsigned char c = static_cast<unsigned char>(*s);
      if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else { o += char(c); }
   }
   return o;
}
static volatile sig_atomic_t stopFlag = 0;
static volatile pid_t childPid = 0;
static bool scratchDirty = false;
static void runOne(uint64_t seed, bool isReplay, int cpuLimit, FILE *out, const char *recFile, bool always)
{
   memset(sh, 0, offsetof(Shared, rec));
   if (scratchDirty) { rmTree(scratchBase + "/run"); }
   scratchDirty = true;
   fflush(nullptr);
   pid_t p = fork();
   if (p == 0)
   {
      signal(SIGTERM, SIG_DFL);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      childMain(seed, isReplay, cpuLimit);
   }
   childPid = p;
   int st = 0;
   // a generous wall limit backs up the CPU limit
   time_t t0 = time(nullptr);
   for (;;)
   {
      pid_t w = waitpid(p, &st, WNOHANG);
      if (w == p) { break; }
      if (time(nullptr) - t0 > cpuLimit * 4 + 60) { kill(p, SIGKILL); waitpid(p, &st, 0); break; }
      usleep(300);
   }
   childPid = 0;
   if (stopFlag) { return; }
   std::string status, cls, msg;
   if (sh->done)
   {
      status = sh->status == 0 ? "ok" : sh->status == 1 ? "violation" : "error";
      cls = sh->cls;
      msg = sh->msg;
   }
   else if (WIFSIGNALED(st))
   {
      int sg = WTERMSIG(st);
      if (sg == SIGXCPU || (sg == SIGKILL))
      {
         status = "violation";
         cls = "hang";
         msg = "the run used up its CPU limit without finishing";
      }
      else
      {
         status = "violation";
         cls = std::string("crash-") + strsignal(sg);
         msg = std::string("the code under test died with signal: ") + strsignal(sg);
      }
   }
   else
   {
      status = "violation";
      cls = "exit";
      msg = "the code under test ended the process with exit code " + std::to_string(WEXITSTATUS(st));
   }
   fprintf(out, "{\"seed\":%llu,\"status\":\"%s\",\"class\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"sig\":\"%016llx\",\"nontrivial\":%d,\"steps\":%ld,\"simtime\":%.9g,\"choices\":[%u,%u,%u]",
      (unsigned long long)seed, status.c_str(), jsonEsc(cls.c_str()).c_str(), jsonEsc(msg.c_str()).c_str(),
      sh->done ? (unsigned long long)sh->hash : 0ull, (unsigned long long)sh->sig, sh->nontriv, long(sh->steps), double(sh->simtime),
      unsigned(sh->n[0]), unsigned(sh->n[1]), unsigned(sh->n[2]));
   fprintf(out, ",\"faults\":{");
   for (uint32_t i = 0; i < sh->nfault; ++i) { fprintf(out, "%s\"%s\":%ld", i ? "," : "", jsonEsc(sh->faults[i].name).c_str(), sh->faults[i].n); }
   fprintf(out, "},\"probes\":{");
   for (uint32_t i = 0; i < sh->nprobe; ++i) { fprintf(out, "%s\"%s\":%ld", i ? "," : "", jsonEsc(sh->probes[i].name).c_str(), sh->probes[i].n); }
   fprintf(out, "}");
   if (seed % 16 == 1 || status != "ok" || always) { fprintf(out, ",\"sample\":\"%s\"", jsonEsc(sh->sample).c_str()); }
   fprintf(out, "}\n");
   fflush(out);
   if (recFile)
   {
      FILE *f = fopen(recFile, "w");
      if (f)
      {
         fprintf(f, "{");
         const char *names[] = {"gen", "sched", "fault"};
         for (int s = 0; s < NSTREAMS; ++s)
         {
            fprintf(f, "%s\"%s\":[", s ? ",\n" : "", names[s]);
            uint32_t n = sh->n[s];
            if (n > CAP) { n = CAP; }
            for (uint32_t i = 0; i < n; ++i) { fprintf(f, "%s%u", i ? "," : "", sh->rec[s][i]); }
            fprintf(f, "]");
         }
         fprintf(f, "}\n");
         fclose(f);
      }
   }
}
static void loadChoices(const char *file)
{
   FILE *f = fopen(file, "r");
   if (!f) { perror(file); exit(3); }
   std::string t;
   char buf[65536];
   size_t k;
   while ((k = fread(buf, 1, sizeof buf, f)) > 0) { t.append(buf, k); }
   fclose(f);
   const char *names[] = {"\"gen\"", "\"sched\"", "\"fault\""};
   for (int s = 0; s < NSTREAMS; ++s)
   {
      given[s].clear();
      size_t p = t.find(names[s]);
      if (p == std::string::npos) { continue; }
      p = t.find('[', p);
      size_t e = t.find(']', p);
      ++p;
      while (p < e)
      {
         char *q;
         unsigned long v = strtoul(t.c_str() + p, &q, 10);
         size_t np = size_t(q - t.c_str());
         if (np == p) { ++p; continue; }
         given[s].push_back(uint32_t(v));
         p = np;
         while (p < e && (t[p] == ',' || t[p] == ' ' || t[p] == '\n')) { ++p; }
      }
   }
}
int main(int argc, char **argv)
{
   // no address-space randomisation: pointer values must not vary
   int per = personality(0xffffffff);
   if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
   {
      setenv("SIM_REEXEC", "1", 1);
      if (personality(per | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
   }
   uint64_t seed0 = 1;
   long count = 1;
   double budget = 1e9;
   int cpu = 60;
   long stride = 1;
   const char *outName = nullptr, *choices = nullptr, *rec = nullptr, *trace = nullptr, *scratch = nullptr;
   for (int i = 1; i < argc; ++i)
   {
      std::string a = argv[i];
      auto nx = [&]() { return ++i < argc ? argv[i] : nullptr; };
      if (a == "--seed") { seed0 = strtoull(nx(), nullptr, 10); }
      else if (a == "--count") { count = atol(nx()); }
      else if (a == "--stride") { stride = atol(nx()); }
      else if (a == "--budget") { budget = atof(nx()); }
      else if (a == "--cpu") { cpu = atoi(nx()); }
      else if (a == "--out") { outName = nx(); }
      else if (a == "--choices") { choices = nx(); }
      else if (a == "--record") { rec = nx(); }
      else if (a == "--trace") { trace = nx(); }
      else if (a == "--scratch") { scratch = nx(); }
      else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
   }
   sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
   if (sh == MAP_FAILED) { perror("mmap"); return 3; }
   char tmpl[256];
   snprintf(tmpl, sizeof tmpl, "%s/simXXXXXX", scratch ? scratch : "/dev/shm");
   if (!mkdtemp(tmpl)) { snprintf(tmpl, sizeof tmpl, "/tmp/simXXXXXX"); if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } }
   scratchBase = tmpl;
   signal(SIGTERM, [](int) { stopFlag = 1; if (childPid > 0) { kill(childPid, SIGKILL); } });
   FILE *out = outName ? fopen(outName, "w") : stdout;
   if (trace) { traceFile = fopen(trace, "w"); tracingOn = traceFile != nullptr; }
   if (choices) { loadChoices(choices); }
   struct timespec t0, t1;
   clock_gettime(CLOCK_MONOTONIC, &t0);
   for (long k = 0; k < count; ++k)
   {
      runOne(seed0 + uint64_t(k) * stride, choices != nullptr, cpu, out, rec, count == 1);
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (stopFlag || double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > budget) { break; }
   }
   rmTree(scratchBase);
   if (outName) { fclose(out); }
   return 0;
}
