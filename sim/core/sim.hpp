// Deterministic simulator core: choice streams, event log, fibers (simulated
// MPI ranks), scheduler, simulated clock. See DESIGN.md.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{
// ---------------------------------------------------------------------------
// Choices. Every decision of a run is a draw from one of three streams, each
// seeded from the one run seed. A draw is (bound -> value < bound). A replay
// feeds recorded values back and answers 0 (the plainest choice) past the end.
enum StreamId { GEN = 0, SCHED = 1, FAULT = 2, NSTREAMS = 3 };
uint32_t draw(StreamId s, uint32_t bound);
inline uint32_t gen(uint32_t bound) { return draw(GEN, bound); }
inline uint32_t sched(uint32_t bound) { return draw(SCHED, bound); }
inline uint32_t fault(uint32_t bound) { return draw(FAULT, bound); }
/// integer in [lo, hi]
inline int genInt(int lo, int hi) { return lo + int(gen(uint32_t(hi - lo + 1))); }
/// true with probability num/den; value 0 (the replay default) means false
inline bool genBool(uint32_t num, uint32_t den) { uint32_t v = gen(den); return v >= den - num; }
inline bool faultBool(uint32_t num, uint32_t den) { uint32_t v = fault(den); return v >= den - num; }
inline bool schedBool(uint32_t num, uint32_t den) { uint32_t v = sched(den); return v >= den - num; }
/// double in [0,1) with 24 bits
double genUnit();
inline double genIn(double lo, double hi) { return lo + (hi - lo) * genUnit(); }

// ---------------------------------------------------------------------------
// Event log. Everything observable is folded into the run hash; `note` also
// appends to the readable trace when tracing is on.
void hashBytes(const void *p, size_t n);
void hashU(uint64_t v);
void hashD(double d);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();

// counters written to the evidence
void countFault(const char *kind, long n = 1);
void probe(const char *name, long n = 1);
void signature(uint64_t v);   // folded into the distinct-state measure
void nontrivial();            // this run exercised the property
void describe(const std::string &s);  // human-readable sample of the run

// ---------------------------------------------------------------------------
// Outcomes
/// Report a violation of the property; ends the run.
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
/// A problem of the harness itself; ends the run (never a verdict).
[[noreturn]] void harnessError(const std::string &msg);
#define SIM_CHECK(cond, cls, ...) \
   do { if (!(cond)) { sim::violation(cls, sim::fmt(__VA_ARGS__)); } } while (0)
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------------------
// Jobs: one simulated parallel program of n ranks.
struct JobConfig
{
   int nranks = 1;
   bool mayCrash = false;   // crash points are live in this job
   long crashAt = -1;       // crash at the n-th crash point (-1: never)
   bool plain = false;      // no perturbation: the reference execution
   long maxSteps = 4000000;
};
struct JobResult
{
   bool crashed = false;
   long crashPoints = 0;    // crash points passed
   std::vector<std::string> threw;  // per rank: "" or what() of escaping exception
   long steps = 0;
};
/// Runs `body(rank)` on every rank under the seeded scheduler. A deadlock, a
/// collective mismatch or exceeding maxSteps is reported through `onStuck`
/// (default: a violation).
JobResult runJob(const JobConfig &cfg, const std::function<void(int)> &body);

int rank();       // of the running fiber, 0 outside
int size();
bool inJob();
void yieldPoint();               // may switch ranks
void crashPoint(const char *where);  // the job may die here
/// blocks the fiber until pred() holds
void blockUntil(const std::function<bool()> &pred, const char *what);
double now();                    // simulated seconds
void advance(double seconds);
void stallPoint();
/// while > 0, yield points do nothing (atomic section of the harness)
struct NoYield { NoYield(); ~NoYield(); };

long totalSteps();
double totalSimTime();

// hooks used by SimMPI
void mpiJobStart(int nranks);
void mpiJobEnd(bool clean);
double mpiNextEventTime();       // <0: none
void *currentFiberId();

// Per-run schedule personality (swarm)
struct Persona
{
   int switchDen = 1;       // P(switch at a yield point) = 1/switchDen ... see .cpp
   uint32_t maxDelay = 0;   // message delay bound (microseconds)
   bool rendezvous = false; // sends may block until matched
   bool syncColl = false;   // collectives synchronise
   bool shuffleReduce = false;
   int stallRank = -1;
   bool lazyTest = false;   // Test/Iprobe may answer "not yet"
};
Persona &persona();
}  // namespace sim

/// Provided by each driver.
void driverRun();
const char *driverProperty();
extern "C" void simfs_reset();
#endif
