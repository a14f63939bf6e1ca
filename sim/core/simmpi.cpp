// SimMPI: the MPI functions that MISO, MFEM and hypre call, implemented over
// the simulator's fibers. Every rank lives in this process; matching, message
// delay, completion order, reduction order and blocking behaviour are decided
// by the seeded scheduler, within what the MPI standard allows.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include <algorithm>
#include <cstring>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "sim.hpp"

using sim::fmt;

namespace
{
// --------------------------------------------------------------- datatypes
struct DType
{
   size_t size = 0;
   ptrdiff_t lb = 0, extent = 0;
   std::vector<std::pair<ptrdiff_t, size_t>> blocks;
   int basic = 0;  // 1 int 2 uint 3 long 4 ulong 5 longlong 6 ulonglong 7 double 8 float 9 char 10 uchar 11 bool 12 short
};
std::map<const void *, DType> &types()
{
   static std::map<const void *, DType> *m = nullptr;
   if (!m)
   {
      m = new std::map<const void *, DType>;
      auto add = [&](MPI_Datatype t, size_t s, int b)
      {
         DType d;
         d.size = s;
         d.extent = ptrdiff_t(s);
         d.blocks = {{0, s}};
         d.basic = b;
         (*m)[t] = d;
      };
      add(MPI_INT, sizeof(int), 1);
      add(MPI_INTEGER, sizeof(int), 1);
      add(MPI_UNSIGNED, sizeof(int), 2);
      add(MPI_LONG, sizeof(long), 3);
      add(MPI_UNSIGNED_LONG, sizeof(long), 4);
      add(MPI_LONG_LONG_INT, sizeof(long long), 5);
      add(MPI_LONG_LONG, sizeof(long long), 5);
      add(MPI_UNSIGNED_LONG_LONG, sizeof(long long), 6);
      add(MPI_DOUBLE, sizeof(double), 7);
      add(MPI_FLOAT, sizeof(float), 8);
      add(MPI_CHAR, 1, 9);
      add(MPI_SIGNED_CHAR, 1, 9);
      add(MPI_UNSIGNED_CHAR, 1, 10);
      add(MPI_BYTE, 1, 10);
      add(MPI_C_BOOL, 1, 11);
      add(MPI_CXX_BOOL, 1, 11);
      add(MPI_SHORT, 2, 12);
      add(MPI_INT64_T, 8, 3);
      add(MPI_UINT64_T, 8, 4);
      add(MPI_INT32_T, 4, 1);
      add(MPI_UINT32_T, 4, 2);
   }
   return *m;
}
const DType &T(MPI_Datatype t)
{
   auto &m = types();
   auto it = m.find(t);
   if (it == m.end()) { sim::harnessError("SimMPI: unknown datatype"); }
   return it->second;
}
MPI_Datatype newType(const DType &d)
{
   char *h = new char[8];
   types()[h] = d;
   return reinterpret_cast<MPI_Datatype>(h);
}
void normalise(DType &d)
{
   d.size = 0;
   for (auto &b : d.blocks) { d.size += b.second; }
}
std::vector<char> pack(const void *buf, long count, MPI_Datatype t)
{
   const DType &d = T(t);
   std::vector<char> o(size_t(count) * d.size);
   size_t p = 0;
   for (long i = 0; i < count; ++i)
   {
      const char *b = static_cast<const char *>(buf) + i * d.extent;
      for (auto &bl : d.blocks)
      {
         memcpy(o.data() + p, b + bl.first, bl.second);
         p += bl.second;
      }
   }
   return o;
}
void unpack(const char *src, size_t bytes, void *buf, MPI_Datatype t)
{
   const DType &d = T(t);
   if (d.size == 0) { return; }
   size_t p = 0;
   for (long i = 0; p < bytes; ++i)
   {
      char *b = static_cast<char *>(buf) + i * d.extent;
      for (auto &bl : d.blocks)
      {
         size_t k = std::min(bl.second, bytes - p);
         memcpy(b + bl.first, src + p, k);
         p += k;
         if (p >= bytes) { break; }
      }
   }
}

// -------------------------------------------------------------------- comms
struct CommObj
{
   int ctx = 0;
   std::vector<int> ranks;  // world ranks
   std::map<int, uint64_t> seqOf;  // collective sequence number per world rank
};
struct GroupObj { std::vector<int> ranks; };
struct OpObj { MPI_User_function *fn; int commute; };
std::map<const void *, std::unique_ptr<CommObj>> comms;
std::map<const void *, std::unique_ptr<GroupObj>> groups;
std::map<const void *, OpObj> ops;
std::vector<MPI_Comm> fcomms;
CommObj *world = nullptr;
std::vector<std::unique_ptr<CommObj>> selfs;
CommObj *soloComm = nullptr;
int nextCtx = 10;

CommObj *C(MPI_Comm c)
{
   if (c == MPI_COMM_SELF)
   {
      if (!sim::inJob()) { return soloComm; }
      return selfs[size_t(sim::rank())].get();
   }
   if (c == MPI_COMM_WORLD) { return sim::inJob() ? world : soloComm; }
   auto it = comms.find(c);
   if (it == comms.end())
   {
      sim::violation("mpi-misuse", "an MPI call was made on a null, freed or unknown communicator");
   }
   return it->second.get();
}
int rankIn(const CommObj *c)
{
   int me = sim::rank();
   for (size_t i = 0; i < c->ranks.size(); ++i)
   {
      if (c->ranks[i] == me) { return int(i); }
   }
   sim::violation("mpi-misuse", "a rank used a communicator it is not a member of");
}
MPI_Comm registerComm(const std::vector<int> &ranks)
{
   auto c = std::make_unique<CommObj>();
   c->ctx = nextCtx++;
   c->ranks = ranks;
   char *h = new char[8];
   comms[h] = std::move(c);
   return reinterpret_cast<MPI_Comm>(h);
}

// ------------------------------------------------------------ point to point
struct Req;
struct Msg
{
   int src = 0, dst = 0, ctx = 0, tag = 0;
   std::vector<char> data;
   double readyAt = 0;
   uint64_t seq = 0;
   std::shared_ptr<Req> sreq;
};
struct Slot;
struct Req
{
   enum Kind { SEND, RECV, COLL } kind = SEND;
   bool done = false, active = true, persistent = false, sync = false, eager = false;
   int owner = 0;
   // receive
   void *buf = nullptr;
   const void *cbuf = nullptr;
   int count = 0;
   MPI_Datatype type = nullptr;
   int src = 0, tag = 0, ctx = 0, dst = 0;
   CommObj *comm = nullptr;
   size_t gotBytes = 0;
   int gotSrc = MPI_PROC_NULL, gotTag = MPI_ANY_TAG;
   std::function<bool()> test;
   bool truncated = false;
};
std::map<const void *, std::shared_ptr<Req>> reqs;
struct Box
{
   std::vector<std::shared_ptr<Msg>> inflight;
   std::list<std::shared_ptr<Msg>> arrived;
   std::list<std::shared_ptr<Req>> posted;
};
std::vector<Box> boxes;
std::map<std::tuple<int, int, int>, double> lastReady;
uint64_t msgSeq = 0;

bool matches(const Req &r, const Msg &m)
{
   return r.ctx == m.ctx && (r.src == MPI_ANY_SOURCE || r.src == m.src) &&
          (r.tag == MPI_ANY_TAG || r.tag == m.tag);
}
void deliver(Req &r, Msg &m)
{
   size_t cap = size_t(r.count) * T(r.type).size;
   if (m.data.size() > cap)
   {
      sim::violation("mpi-misuse", fmt("message truncated: rank %d receives %zu bytes into %zu (from %d, tag %d)",
                                       m.dst, m.data.size(), cap, m.src, m.tag));
   }
   unpack(m.data.data(), m.data.size(), r.buf, r.type);
   r.gotBytes = m.data.size();
   r.gotSrc = m.src;
   r.gotTag = m.tag;
   r.done = true;
   if (m.sreq) { m.sreq->done = true; }
}
void progress(int dst)
{
   Box &b = boxes[size_t(dst)];
   if (b.inflight.empty()) { return; }
   for (;;)
   {
      int best = -1;
      for (size_t i = 0; i < b.inflight.size(); ++i)
      {
         auto &m = *b.inflight[i];
         if (m.readyAt > sim::now()) { continue; }
         if (best < 0 || m.readyAt < b.inflight[size_t(best)]->readyAt ||
             (m.readyAt == b.inflight[size_t(best)]->readyAt && m.seq < b.inflight[size_t(best)]->seq))
         {
            best = int(i);
         }
      }
      if (best < 0) { return; }
      auto m = b.inflight[size_t(best)];
      b.inflight.erase(b.inflight.begin() + best);
      bool hit = false;
      for (auto it = b.posted.begin(); it != b.posted.end(); ++it)
      {
         if (matches(**it, *m))
         {
            auto r = *it;
            b.posted.erase(it);
            deliver(*r, *m);
            hit = true;
            break;
         }
      }
      if (!hit) { b.arrived.push_back(m); }
   }
}
void postRecv(const std::shared_ptr<Req> &r)
{
   progress(r->owner);
   Box &b = boxes[size_t(r->owner)];
   for (auto it = b.arrived.begin(); it != b.arrived.end(); ++it)
   {
      if (matches(*r, **it))
      {
         auto m = *it;
         b.arrived.erase(it);
         deliver(*r, *m);
         return;
      }
   }
   b.posted.push_back(r);
}
void postSend(const std::shared_ptr<Req> &r)
{
   auto m = std::make_shared<Msg>();
   m->src = r->owner;
   m->dst = r->dst;
   m->ctx = r->ctx;
   m->tag = r->tag;
   m->data = pack(r->cbuf, r->count, r->type);
   m->seq = ++msgSeq;
   double d = 0;
   auto &p = sim::persona();
   if (sim::inJob() && p.maxDelay > 0 && sim::size() > 1 && r->owner != r->dst)
   {
      uint32_t v = sim::sched(p.maxDelay + 1);
      if (v) { sim::countFault("message delayed"); }
      d = 1e-6 * v;
   }
   m->readyAt = sim::now() + d;
   auto key = std::make_tuple(m->src, m->dst, m->ctx);
   double &last = lastReady[key];
   if (m->readyAt < last) { m->readyAt = last; }
   last = m->readyAt;
   for (auto &o : boxes[size_t(m->dst)].inflight)
   {
      if (o->readyAt > m->readyAt) { sim::countFault("message overtakes another sender's"); break; }
   }
   // Blocking sends stay buffered (MFEM and hypre rely on it, as with every
   // real MPI for small messages); a non-blocking send may complete late.
   bool rv = r->sync || (p.rendezvous && !r->eager && sim::inJob() && r->owner != r->dst);
   if (rv) { m->sreq = r; }
   else { r->done = true; }
   if (rv && !r->sync) { sim::countFault("send completes only when matched"); }
   boxes[size_t(m->dst)].inflight.push_back(m);
   sim::hashU(m->data.size());
   sim::hashU(uint64_t(m->tag));
   progress(m->dst);
}
MPI_Request newReq(const std::shared_ptr<Req> &r)
{
   char *h = new char[8];
   reqs[h] = r;
   return reinterpret_cast<MPI_Request>(h);
}
void setStatus(MPI_Status *s, const Req *r)
{
   if (!s || s == MPI_STATUS_IGNORE) { return; }
   s->MPI_ERROR = MPI_SUCCESS;
   s->_cancelled = 0;
   if (!r || r->kind != Req::RECV)
   {
      s->MPI_SOURCE = MPI_ANY_SOURCE;
      s->MPI_TAG = MPI_ANY_TAG;
      s->_ucount = 0;
      return;
   }
   s->MPI_SOURCE = r->gotSrc;
   s->MPI_TAG = r->gotTag;
   s->_ucount = r->gotBytes;
}
bool ready(Req &r)
{
   if (r.done) { return true; }
   if (r.test) { r.done = r.test(); return r.done; }
   progress(r.owner);
   return r.done;
}
int localRank(CommObj *c, int worldRank)
{
   for (size_t i = 0; i < c->ranks.size(); ++i)
   {
      if (c->ranks[i] == worldRank) { return int(i); }
   }
   return MPI_ANY_SOURCE;
}
void fixSrc(MPI_Status *s, Req *r)
{
   if (s && s != MPI_STATUS_IGNORE && r && r->kind == Req::RECV && r->comm && r->gotSrc >= 0)
   {
      s->MPI_SOURCE = localRank(r->comm, r->gotSrc);
   }
}
void release(MPI_Request *q, const std::shared_ptr<Req> &r)
{
   if (r->persistent) { r->active = false; }
   else
   {
      reqs.erase(*q);
      delete[] reinterpret_cast<char *>(*q);
      *q = MPI_REQUEST_NULL;
   }
}
std::shared_ptr<Req> R(MPI_Request q)
{
   auto it = reqs.find(q);
   if (it == reqs.end()) { sim::violation("mpi-misuse", "wait or test on a freed or unknown request"); }
   return it->second;
}
void waitReq(MPI_Request *q, MPI_Status *s, const char *what)
{
   if (*q == MPI_REQUEST_NULL) { setStatus(s, nullptr); return; }
   auto r = R(*q);
   if (!r->active) { setStatus(s, nullptr); return; }
   sim::blockUntil([&]() { return ready(*r); }, what);
   setStatus(s, r.get());
   fixSrc(s, r.get());
   release(q, r);
}
void enter(const char *)
{
   sim::stallPoint();
   sim::yieldPoint();
}

// ---------------------------------------------------------------- collectives
struct Slot
{
   std::string what;
   int firstRank = -1;
   std::map<int, std::vector<char>> in;   // local rank -> contribution
   std::vector<char> result;
   bool computed = false;
   std::vector<int> order;
   std::map<int, MPI_Comm> newComms;
   size_t left = 0;
};
std::map<std::pair<int, uint64_t>, std::shared_ptr<Slot>> slots;

struct Coll
{
   CommObj *c;
   int me;
   std::shared_ptr<Slot> s;
   std::pair<int, uint64_t> key;
   size_t n() const { return c->ranks.size(); }
};
Coll joinColl(MPI_Comm comm, const std::string &what, std::vector<char> data)
{
   CommObj *c = C(comm);
   Coll k;
   k.c = c;
   k.me = rankIn(c);
   uint64_t sq = c->seqOf[sim::rank()]++;
   k.key = {c->ctx, sq};
   auto &sp = slots[k.key];
   if (!sp)
   {
      sp = std::make_shared<Slot>();
      sp->what = what;
      sp->firstRank = sim::rank();
   }
   else if (sp->what != what)
   {
      sim::violation("collective-mismatch",
         fmt("ranks disagree on the next collective operation: rank %d called %s, rank %d called %s",
             sp->firstRank, sp->what.c_str(), sim::rank(), what.c_str()));
   }
   k.s = sp;
   k.s->in[k.me] = std::move(data);
   if (k.me == 0 || c->ranks.size() > 1) { sim::hashBytes(what.data(), what.size()); }
   return k;
}
void leave(Coll &k)
{
   if (++k.s->left == k.n()) { slots.erase(k.key); }
}
void needAll(Coll &k, const char *what)
{
   auto s = k.s;
   size_t n = k.n();
   sim::blockUntil([s, n]() { return s->in.size() == n; }, what);
}
void needRank(Coll &k, int root, const char *what)
{
   if (sim::persona().syncColl && sim::inJob()) { needAll(k, what); return; }
   auto s = k.s;
   sim::blockUntil([s, root]() { return s->in.count(root) > 0; }, what);
}
void maybeSync(Coll &k, const char *what)
{
   if (sim::persona().syncColl && sim::inJob() && k.n() > 1)
   {
      sim::countFault("collective synchronises");
      needAll(k, what);
   }
}

template <class X>
void apply(MPI_Op op, const char *a, char *b, size_t n)
{
   const X *x = reinterpret_cast<const X *>(a);
   X *y = reinterpret_cast<X *>(b);
   for (size_t i = 0; i < n; ++i)
   {
      X u, v;
      memcpy(&u, x + i, sizeof(X));
      memcpy(&v, y + i, sizeof(X));
      if (op == MPI_SUM) { v = X(u + v); }
      else if (op == MPI_MAX) { v = std::max(u, v); }
      else if (op == MPI_MIN) { v = std::min(u, v); }
      else if (op == MPI_PROD) { v = X(u * v); }
      else if (op == MPI_LAND) { v = X(u && v); }
      else if (op == MPI_LOR) { v = X(u || v); }
      else { sim::harnessError("SimMPI: reduction op"); }
      memcpy(y + i, &v, sizeof(X));
   }
}
template <class X>
void applyBits(MPI_Op op, const char *a, char *b, size_t n)
{
   if (op == MPI_BOR || op == MPI_BAND || op == MPI_BXOR)
   {
      for (size_t i = 0; i < n * sizeof(X); ++i)
      {
         if (op == MPI_BOR) { b[i] = char(b[i] | a[i]); }
         else if (op == MPI_BAND) { b[i] = char(b[i] & a[i]); }
         else { b[i] = char(b[i] ^ a[i]); }
      }
      return;
   }
   apply<X>(op, a, b, n);
}
void combine(MPI_Op op, MPI_Datatype t, const std::vector<char> &a, std::vector<char> &b, int count)
{
   auto uo = ops.find(op);
   if (uo != ops.end())
   {
      int len = count;
      MPI_Datatype dt = t;
      std::vector<char> in = a;
      uo->second.fn(in.data(), b.data(), &len, &dt);
      return;
   }
   const DType &d = T(t);
   size_t n = a.size() / std::max<size_t>(1, d.size);
   switch (d.basic)
   {
   case 1: applyBits<int>(op, a.data(), b.data(), n); break;
   case 2: applyBits<unsigned>(op, a.data(), b.data(), n); break;
   case 3: applyBits<long>(op, a.data(), b.data(), n); break;
   case 4: applyBits<unsigned long>(op, a.data(), b.data(), n); break;
   case 5: applyBits<long long>(op, a.data(), b.data(), n); break;
   case 6: applyBits<unsigned long long>(op, a.data(), b.data(), n); break;
   case 7: apply<double>(op, a.data(), b.data(), n); break;
   case 8: apply<float>(op, a.data(), b.data(), n); break;
   case 9: applyBits<signed char>(op, a.data(), b.data(), n); break;
   case 10: applyBits<unsigned char>(op, a.data(), b.data(), n); break;
   case 11: applyBits<unsigned char>(op, a.data(), b.data(), n); break;
   case 12: applyBits<short>(op, a.data(), b.data(), n); break;
   default: sim::harnessError("SimMPI: reduction type");
   }
}
void reduceSlot(Coll &k, MPI_Op op, MPI_Datatype t, int count)
{
   if (k.s->computed) { return; }
   size_t n = k.n();
   std::vector<int> ord(n);
   for (size_t i = 0; i < n; ++i) { ord[i] = int(i); }
   auto uo = ops.find(op);
   bool comm = uo == ops.end() || uo->second.commute;
   if (comm && n > 2 && sim::persona().shuffleReduce && sim::inJob())
   {
      bool moved = false;
      for (size_t i = n - 1; i > 0; --i)
      {
         size_t j = i - sim::sched(uint32_t(i + 1));
         moved = moved || j != i;
         std::swap(ord[i], ord[j]);
      }
      if (moved) { sim::countFault("reduction order permuted"); }
   }
   std::vector<char> acc = k.s->in[ord[n - 1]];
   for (size_t i = n - 1; i-- > 0;) { combine(op, t, k.s->in[ord[i]], acc, count); }
   k.s->result = std::move(acc);
   k.s->computed = true;
}
std::string opName(MPI_Op op)
{
   if (op == MPI_SUM) { return "SUM"; }
   if (op == MPI_MAX) { return "MAX"; }
   if (op == MPI_MIN) { return "MIN"; }
   if (op == MPI_LOR) { return "LOR"; }
   if (op == MPI_LAND) { return "LAND"; }
   return "op";
}
std::vector<char> packIn(const void *s, const void *r, long count, MPI_Datatype t)
{
   return pack(s == MPI_IN_PLACE ? r : s, count, t);
}
}  // namespace

namespace sim
{
void mpiJobStart(int n)
{
   boxes.clear();
   boxes.resize(size_t(n));
   lastReady.clear();
   slots.clear();
   selfs.clear();
   delete world;
   world = new CommObj;
   world->ctx = 1;
   nextCtx = 10;
   for (int i = 0; i < n; ++i)
   {
      world->ranks.push_back(i);
      auto s = std::make_unique<CommObj>();
      s->ctx = -1 - i;
      s->ranks = {i};
      selfs.push_back(std::move(s));
   }
}
void mpiJobEnd(bool clean)
{
   (void)clean;
   boxes.clear();
   boxes.resize(1);
   slots.clear();
   lastReady.clear();
}
double mpiNextEventTime()
{
   double t = -1;
   for (size_t d = 0; d < boxes.size(); ++d) { progress(int(d)); }
   for (auto &b : boxes)
   {
      for (auto &m : b.inflight)
      {
         if (m->readyAt <= now()) { continue; }
         if (t < 0 || m->readyAt < t) { t = m->readyAt; }
      }
   }
   return t;
}
}  // namespace sim

static struct InitSolo
{
   InitSolo()
   {
      soloComm = new CommObj;
      soloComm->ctx = 0;
      soloComm->ranks = {0};
      boxes.resize(1);
   }
} initSolo;

// ------------------------------------------------------------------ MPI API
#pragma GCC visibility push(default)
extern "C"
{
int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int req, int *prov) { *prov = req; return MPI_SUCCESS; }
int MPI_Initialized(int *f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code)
{
   sim::violation("mpi-abort", fmt("rank %d called MPI_Abort(%d)", sim::rank(), code));
}
double MPI_Wtime() { return sim::now(); }
double MPI_Wtick() { return 1e-6; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = rankIn(C(c)); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *s) { *s = int(C(c)->ranks.size()); return MPI_SUCCESS; }
int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Comm_get_attr(MPI_Comm, int key, void *v, int *flag)
{
   static int ub = 1 << 30;
   *flag = 0;
   if (key == MPI_TAG_UB) { *static_cast<int **>(v) = &ub; *flag = 1; }
   return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Comm_set_name(MPI_Comm, const char *) { return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *res)
{
   CommObj *x = C(a), *y = C(b);
   *res = x == y ? MPI_IDENT : x->ranks == y->ranks ? MPI_CONGRUENT : MPI_UNEQUAL;
   return MPI_SUCCESS;
}
MPI_Fint MPI_Comm_c2f(MPI_Comm c)
{
   for (size_t i = 0; i < fcomms.size(); ++i) { if (fcomms[i] == c) { return MPI_Fint(i); } }
   fcomms.push_back(c);
   return MPI_Fint(fcomms.size() - 1);
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return fcomms.at(size_t(f)); }
int MPI_Comm_free(MPI_Comm *c)
{
   // the object is shared by its members; it stays until the job ends
   *c = MPI_COMM_NULL;
   return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out)
{
   enter("Comm_split");
   int d[2] = {color, key};
   std::vector<char> v(sizeof d);
   memcpy(v.data(), d, sizeof d);
   Coll k = joinColl(comm, "Comm_split", v);
   needAll(k, "MPI_Comm_split");
   if (!k.s->computed)
   {
      std::map<int, std::vector<std::pair<int, int>>> by;
      for (auto &e : k.s->in)
      {
         int q[2];
         memcpy(q, e.second.data(), sizeof q);
         by[q[0]].push_back({q[1], e.first});
      }
      for (auto &g : by)
      {
         if (g.first == MPI_UNDEFINED) { continue; }
         std::stable_sort(g.second.begin(), g.second.end());
         std::vector<int> r;
         for (auto &p : g.second) { r.push_back(k.c->ranks[size_t(p.second)]); }
         k.s->newComms[g.first] = registerComm(r);
      }
      k.s->computed = true;
   }
   *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : k.s->newComms[color];
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out)
{
   enter("Comm_dup");
   Coll k = joinColl(comm, "Comm_dup", {});
   needAll(k, "MPI_Comm_dup");
   if (!k.s->computed)
   {
      k.s->newComms[0] = registerComm(k.c->ranks);
      k.s->computed = true;
   }
   *out = k.s->newComms[0];
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Comm_group(MPI_Comm comm, MPI_Group *g)
{
   auto o = std::make_unique<GroupObj>();
   o->ranks = C(comm)->ranks;
   char *h = new char[8];
   groups[h] = std::move(o);
   *g = reinterpret_cast<MPI_Group>(h);
   return MPI_SUCCESS;
}
int MPI_Group_incl(MPI_Group g, int n, const int ranks[], MPI_Group *ng)
{
   auto o = std::make_unique<GroupObj>();
   for (int i = 0; i < n; ++i) { o->ranks.push_back(groups.at(g)->ranks.at(size_t(ranks[i]))); }
   char *h = new char[8];
   groups[h] = std::move(o);
   *ng = reinterpret_cast<MPI_Group>(h);
   return MPI_SUCCESS;
}
int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int MPI_Group_size(MPI_Group g, int *s) { *s = int(groups.at(g)->ranks.size()); return MPI_SUCCESS; }
int MPI_Group_rank(MPI_Group g, int *r)
{
   *r = MPI_UNDEFINED;
   auto &v = groups.at(g)->ranks;
   for (size_t i = 0; i < v.size(); ++i) { if (v[i] == sim::rank()) { *r = int(i); } }
   return MPI_SUCCESS;
}
int MPI_Comm_create(MPI_Comm comm, MPI_Group g, MPI_Comm *out)
{
   enter("Comm_create");
   auto &gr = groups.at(g)->ranks;
   Coll k = joinColl(comm, "Comm_create", {});
   needAll(k, "MPI_Comm_create");
   bool in = std::find(gr.begin(), gr.end(), sim::rank()) != gr.end();
   if (in)
   {
      if (!k.s->newComms.count(gr[0])) { k.s->newComms[gr[0]] = registerComm(gr); }
      *out = k.s->newComms[gr[0]];
   }
   else { *out = MPI_COMM_NULL; }
   leave(k);
   return MPI_SUCCESS;
}

// types
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t)
{
   const DType &b = T(o);
   DType d;
   for (int i = 0; i < n; ++i) { for (auto &x : b.blocks) { d.blocks.push_back({x.first + i * b.extent, x.second}); } }
   d.extent = n * b.extent;
   normalise(d);
   *t = newType(d);
   return MPI_SUCCESS;
}
int MPI_Type_create_hvector(int n, int bl, MPI_Aint stride, MPI_Datatype o, MPI_Datatype *t)
{
   const DType &b = T(o);
   DType d;
   ptrdiff_t ub = 0;
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < bl; ++j)
      {
         for (auto &x : b.blocks) { d.blocks.push_back({x.first + i * stride + j * b.extent, x.second}); }
         ub = std::max<ptrdiff_t>(ub, i * stride + (j + 1) * b.extent);
      }
   }
   d.extent = ub;
   normalise(d);
   *t = newType(d);
   return MPI_SUCCESS;
}
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype o, MPI_Datatype *t)
{
   return MPI_Type_create_hvector(n, bl, MPI_Aint(stride) * T(o).extent, o, t);
}
int MPI_Type_create_struct(int n, const int bl[], const MPI_Aint disp[], const MPI_Datatype ty[], MPI_Datatype *t)
{
   DType d;
   ptrdiff_t ub = 0;
   bool any = false;
   for (int i = 0; i < n; ++i)
   {
      const DType &b = T(ty[i]);
      for (int j = 0; j < bl[i]; ++j)
      {
         for (auto &x : b.blocks) { d.blocks.push_back({disp[i] + x.first + j * b.extent, x.second}); }
         ptrdiff_t u = disp[i] + (j + 1) * b.extent;
         ub = any ? std::max(ub, u) : u;
         any = true;
      }
   }
   d.extent = ub;
   normalise(d);
   *t = newType(d);
   return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = int(T(t).size); return MPI_SUCCESS; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = reinterpret_cast<MPI_Aint>(p); return MPI_SUCCESS; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n)
{
   size_t z = T(t).size;
   *n = z == 0 ? 0 : (s->_ucount % z ? MPI_UNDEFINED : int(s->_ucount / z));
   return MPI_SUCCESS;
}
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *op)
{
   char *h = new char[8];
   ops[h] = OpObj{f, commute};
   *op = reinterpret_cast<MPI_Op>(h);
   return MPI_SUCCESS;
}
int MPI_Op_free(MPI_Op *op) { *op = MPI_OP_NULL; return MPI_SUCCESS; }

// point to point
static std::shared_ptr<Req> mkSend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
   auto r = std::make_shared<Req>();
   CommObj *co = C(c);
   r->kind = Req::SEND;
   r->owner = sim::rank();
   r->cbuf = b;
   r->count = n;
   r->type = t;
   r->dst = dst == MPI_PROC_NULL ? -1 : co->ranks.at(size_t(dst));
   r->tag = tag;
   r->ctx = co->ctx;
   r->comm = co;
   return r;
}
static std::shared_ptr<Req> mkRecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c)
{
   auto r = std::make_shared<Req>();
   CommObj *co = C(c);
   r->kind = Req::RECV;
   r->owner = sim::rank();
   r->buf = b;
   r->count = n;
   r->type = t;
   r->src = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : src == MPI_PROC_NULL ? -9 : co->ranks.at(size_t(src));
   r->tag = tag;
   r->ctx = co->ctx;
   r->comm = co;
   return r;
}
static void startReq(const std::shared_ptr<Req> &r)
{
   r->active = true;
   r->done = false;
   if (r->kind == Req::SEND)
   {
      if (r->dst < 0) { r->done = true; }
      else { postSend(r); }
   }
   else
   {
      if (r->src == -9) { r->done = true; r->gotBytes = 0; r->gotSrc = MPI_PROC_NULL; r->gotTag = MPI_ANY_TAG; }
      else { postRecv(r); }
   }
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q)
{
   enter("Isend");
   auto r = mkSend(b, n, t, dst, tag, c);
   startReq(r);
   *q = newReq(r);
   return MPI_SUCCESS;
}
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { return MPI_Isend(b, n, t, dst, tag, c, q); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q)
{
   enter("Issend");
   auto r = mkSend(b, n, t, dst, tag, c);
   r->sync = true;
   startReq(r);
   *q = newReq(r);
   return MPI_SUCCESS;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q)
{
   enter("Irecv");
   auto r = mkRecv(b, n, t, src, tag, c);
   startReq(r);
   *q = newReq(r);
   return MPI_SUCCESS;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
   enter("Send");
   auto r = mkSend(b, n, t, dst, tag, c);
   r->eager = true;
   startReq(r);
   sim::blockUntil([&]() { return r->done; }, "MPI_Send");
   return MPI_SUCCESS;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
   enter("Ssend");
   auto r = mkSend(b, n, t, dst, tag, c);
   r->sync = true;
   startReq(r);
   sim::blockUntil([&]() { return r->done; }, "MPI_Ssend");
   return MPI_SUCCESS;
}
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s)
{
   enter("Recv");
   auto r = mkRecv(b, n, t, src, tag, c);
   startReq(r);
   sim::blockUntil([&]() { return ready(*r); }, "MPI_Recv");
   setStatus(s, r.get());
   fixSrc(s, r.get());
   return MPI_SUCCESS;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int dst, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *s)
{
   enter("Sendrecv");
   auto r = mkRecv(rb, rn, rt, src, rtag, c);
   startReq(r);
   auto q = mkSend(sb, sn, st, dst, stag, c);
   startReq(q);
   sim::blockUntil([&]() { return ready(*r) && q->done; }, "MPI_Sendrecv");
   setStatus(s, r.get());
   fixSrc(s, r.get());
   return MPI_SUCCESS;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q)
{
   auto r = mkSend(b, n, t, dst, tag, c);
   r->persistent = true;
   r->active = false;
   *q = newReq(r);
   return MPI_SUCCESS;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q)
{
   auto r = mkRecv(b, n, t, src, tag, c);
   r->persistent = true;
   r->active = false;
   *q = newReq(r);
   return MPI_SUCCESS;
}
int MPI_Start(MPI_Request *q) { enter("Start"); startReq(R(*q)); return MPI_SUCCESS; }
int MPI_Startall(int n, MPI_Request q[])
{
   enter("Startall");
   for (int i = 0; i < n; ++i) { startReq(R(q[i])); }
   return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request *q)
{
   if (*q != MPI_REQUEST_NULL) { reqs.erase(*q); }
   *q = MPI_REQUEST_NULL;
   return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *q, MPI_Status *s) { enter("Wait"); waitReq(q, s, "MPI_Wait"); return MPI_SUCCESS; }
int MPI_Waitall(int n, MPI_Request q[], MPI_Status s[])
{
   enter("Waitall");
   for (int i = 0; i < n; ++i) { waitReq(&q[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i], "MPI_Waitall"); }
   return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request q[], int *idx, MPI_Status *s)
{
   enter("Waitany");
   std::vector<int> act, rdy;
   for (int i = 0; i < n; ++i) { if (q[i] != MPI_REQUEST_NULL && R(q[i])->active) { act.push_back(i); } }
   if (act.empty()) { *idx = MPI_UNDEFINED; setStatus(s, nullptr); return MPI_SUCCESS; }
   auto scan = [&]()
   {
      rdy.clear();
      for (int i : act) { if (ready(*R(q[i]))) { rdy.push_back(i); } }
      return !rdy.empty();
   };
   sim::blockUntil(scan, "MPI_Waitany");
   scan();
   int pick = rdy[sim::sched(uint32_t(rdy.size()))];
   if (pick != rdy[0]) { sim::countFault("completion order permuted"); }
   *idx = pick;
   waitReq(&q[pick], s, "MPI_Waitany");
   return MPI_SUCCESS;
}
static bool lazyNo()
{
   if (sim::inJob() && sim::persona().lazyTest && sim::schedBool(1, 2))
   {
      sim::countFault("test or probe answers not yet");
      return true;
   }
   return false;
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *s)
{
   enter("Test");
   if (*q == MPI_REQUEST_NULL || !R(*q)->active) { *flag = 1; setStatus(s, nullptr); return MPI_SUCCESS; }
   *flag = ready(*R(*q)) && !lazyNo();
   if (*flag) { waitReq(q, s, "MPI_Test"); }
   else { sim::advance(2e-5); }
   return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request q[], int *flag, MPI_Status s[])
{
   enter("Testall");
   *flag = 1;
   for (int i = 0; i < n; ++i)
   {
      if (q[i] == MPI_REQUEST_NULL) { continue; }
      auto r = R(q[i]);
      if (r->active && !ready(*r)) { *flag = 0; }
   }
   if (*flag && n > 0 && lazyNo()) { *flag = 0; }
   if (*flag)
   {
      for (int i = 0; i < n; ++i) { waitReq(&q[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i], "MPI_Testall"); }
   }
   else { sim::advance(2e-5); }
   return MPI_SUCCESS;
}
static std::shared_ptr<Msg> findMsg(int src, int tag, CommObj *co, int me)
{
   Req r;
   r.ctx = co->ctx;
   r.src = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : co->ranks.at(size_t(src));
   r.tag = tag;
   progress(me);
   for (auto &m : boxes[size_t(me)].arrived) { if (matches(r, *m)) { return m; } }
   return nullptr;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *s)
{
   enter("Iprobe");
   auto m = findMsg(src, tag, C(c), sim::rank());
   if (m && lazyNo()) { m = nullptr; }
   *flag = m ? 1 : 0;
   if (!m) { sim::advance(2e-5); }
   if (m && s && s != MPI_STATUS_IGNORE)
   {
      s->MPI_SOURCE = localRank(C(c), m->src);
      s->MPI_TAG = m->tag;
      s->MPI_ERROR = MPI_SUCCESS;
      s->_cancelled = 0;
      s->_ucount = m->data.size();
   }
   return MPI_SUCCESS;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *s)
{
   enter("Probe");
   std::shared_ptr<Msg> m;
   CommObj *co = C(c);
   int me = sim::rank();
   sim::blockUntil([&]() { m = findMsg(src, tag, co, me); return m != nullptr; }, "MPI_Probe");
   if (s && s != MPI_STATUS_IGNORE)
   {
      s->MPI_SOURCE = localRank(C(c), m->src);
      s->MPI_TAG = m->tag;
      s->MPI_ERROR = MPI_SUCCESS;
      s->_cancelled = 0;
      s->_ucount = m->data.size();
   }
   return MPI_SUCCESS;
}

// collectives
int MPI_Barrier(MPI_Comm c)
{
   enter("Barrier");
   Coll k = joinColl(c, "Barrier", {});
   needAll(k, "MPI_Barrier");
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q)
{
   enter("Ibarrier");
   Coll k = joinColl(c, "Ibarrier", {});
   auto s = k.s;
   size_t n = k.n();
   auto r = std::make_shared<Req>();
   r->kind = Req::COLL;
   r->owner = sim::rank();
   r->test = [s, n]() { return s->in.size() == n; };
   leave(k);
   *q = newReq(r);
   return MPI_SUCCESS;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
   enter("Bcast");
   CommObj *co = C(c);
   int me = rankIn(co);
   size_t bytes = size_t(n) * T(t).size;
   Coll k = joinColl(c, fmt("Bcast(root %d, %zu bytes)", root, bytes), me == root ? pack(b, n, t) : std::vector<char>());
   if (me == root) { maybeSync(k, "MPI_Bcast"); }
   else
   {
      needRank(k, root, "MPI_Bcast");
      auto &v = k.s->in[root];
      unpack(v.data(), v.size(), b, t);
   }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
   enter("Allreduce");
   Coll k = joinColl(c, fmt("Allreduce(%s, %zu bytes)", opName(op).c_str(), size_t(n) * T(t).size), packIn(sb, rb, n, t));
   needAll(k, "MPI_Allreduce");
   reduceSlot(k, op, t, n);
   unpack(k.s->result.data(), k.s->result.size(), rb, t);
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
   enter("Reduce");
   Coll k = joinColl(c, fmt("Reduce(%s, root %d, %zu bytes)", opName(op).c_str(), root, size_t(n) * T(t).size), packIn(sb, rb, n, t));
   if (k.me == root)
   {
      needAll(k, "MPI_Reduce");
      reduceSlot(k, op, t, n);
      unpack(k.s->result.data(), k.s->result.size(), rb, t);
   }
   else { maybeSync(k, "MPI_Reduce"); }
   leave(k);
   return MPI_SUCCESS;
}
static int scanImpl(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool excl)
{
   enter("Scan");
   Coll k = joinColl(c, fmt("%s(%zu bytes)", excl ? "Exscan" : "Scan", size_t(n) * T(t).size), packIn(sb, rb, n, t));
   int me = k.me;
   auto s = k.s;
   sim::blockUntil([s, me]()
   {
      for (int i = 0; i <= me; ++i) { if (!s->in.count(i)) { return false; } }
      return true;
   }, excl ? "MPI_Exscan" : "MPI_Scan");
   maybeSync(k, "MPI_Scan");
   int last = excl ? me - 1 : me;
   if (last >= 0)
   {
      std::vector<char> acc = k.s->in[last];
      for (int i = last - 1; i >= 0; --i) { combine(op, t, k.s->in[i], acc, n); }
      unpack(acc.data(), acc.size(), rb, t);
   }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scanImpl(sb, rb, n, t, op, c, false); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scanImpl(sb, rb, n, t, op, c, true); }
static char *at(void *p, ptrdiff_t i, MPI_Datatype t) { return static_cast<char *>(p) + i * T(t).extent; }
static const char *cat(const void *p, ptrdiff_t i, MPI_Datatype t) { return static_cast<const char *>(p) + i * T(t).extent; }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c)
{
   enter("Allgather");
   int me = rankIn(C(c));
   auto d = sb == MPI_IN_PLACE ? pack(at(rb, ptrdiff_t(me) * rn, rt), rn, rt) : pack(sb, sn, st);
   Coll k = joinColl(c, fmt("Allgather(%zu bytes)", d.size()), d);
   needAll(k, "MPI_Allgather");
   for (size_t i = 0; i < k.n(); ++i) { auto &v = k.s->in[int(i)]; unpack(v.data(), v.size(), at(rb, ptrdiff_t(i) * rn, rt), rt); }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rn[], const int disp[], MPI_Datatype rt, MPI_Comm c)
{
   enter("Allgatherv");
   int me = rankIn(C(c));
   auto d = sb == MPI_IN_PLACE ? pack(at(rb, disp[me], rt), rn[me], rt) : pack(sb, sn, st);
   Coll k = joinColl(c, "Allgatherv", d);
   needAll(k, "MPI_Allgatherv");
   for (size_t i = 0; i < k.n(); ++i)
   {
      auto &v = k.s->in[int(i)];
      if (v.size() > size_t(rn[i]) * T(rt).size) { sim::violation("mpi-misuse", "Allgatherv: counts disagree"); }
      unpack(v.data(), v.size(), at(rb, disp[i], rt), rt);
   }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
   enter("Gather");
   int me = rankIn(C(c));
   auto d = sb == MPI_IN_PLACE ? pack(at(rb, ptrdiff_t(me) * rn, rt), rn, rt) : pack(sb, sn, st);
   Coll k = joinColl(c, fmt("Gather(root %d, %zu bytes)", root, d.size()), d);
   if (me == root)
   {
      needAll(k, "MPI_Gather");
      for (size_t i = 0; i < k.n(); ++i) { auto &v = k.s->in[int(i)]; unpack(v.data(), v.size(), at(rb, ptrdiff_t(i) * rn, rt), rt); }
   }
   else { maybeSync(k, "MPI_Gather"); }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rn[], const int disp[], MPI_Datatype rt, int root, MPI_Comm c)
{
   enter("Gatherv");
   int me = rankIn(C(c));
   auto d = sb == MPI_IN_PLACE ? pack(at(rb, disp[me], rt), rn[me], rt) : pack(sb, sn, st);
   Coll k = joinColl(c, fmt("Gatherv(root %d)", root), d);
   if (me == root)
   {
      needAll(k, "MPI_Gatherv");
      for (size_t i = 0; i < k.n(); ++i) { auto &v = k.s->in[int(i)]; unpack(v.data(), v.size(), at(rb, disp[i], rt), rt); }
   }
   else { maybeSync(k, "MPI_Gatherv"); }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
   enter("Scatter");
   CommObj *co = C(c);
   int me = rankIn(co);
   std::vector<char> d;
   if (me == root) { d = pack(sb, long(sn) * long(co->ranks.size()), st); }
   Coll k = joinColl(c, fmt("Scatter(root %d)", root), d);
   needRank(k, root, "MPI_Scatter");
   auto &v = k.s->in[root];
   size_t each = v.size() / k.n();
   if (rb != MPI_IN_PLACE) { unpack(v.data() + each * size_t(me), std::min(each, size_t(rn) * T(rt).size), rb, rt); }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Scatterv(const void *sb, const int sn[], const int disp[], MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
   enter("Scatterv");
   CommObj *co = C(c);
   int me = rankIn(co);
   std::vector<char> d;
   if (me == root)
   {
      for (size_t i = 0; i < co->ranks.size(); ++i)
      {
         auto p = pack(cat(sb, disp[i], st), sn[i], st);
         uint64_t z = p.size();
         d.insert(d.end(), reinterpret_cast<char *>(&z), reinterpret_cast<char *>(&z) + 8);
         d.insert(d.end(), p.begin(), p.end());
      }
   }
   Coll k = joinColl(c, fmt("Scatterv(root %d)", root), d);
   needRank(k, root, "MPI_Scatterv");
   auto &v = k.s->in[root];
   size_t p = 0;
   for (int i = 0;; ++i)
   {
      uint64_t z;
      memcpy(&z, v.data() + p, 8);
      p += 8;
      if (i == me) { if (rb != MPI_IN_PLACE) { unpack(v.data() + p, std::min<size_t>(z, size_t(rn) * T(rt).size), rb, rt); } break; }
      p += z;
   }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c)
{
   enter("Alltoall");
   CommObj *co = C(c);
   size_t n = co->ranks.size();
   auto d = sb == MPI_IN_PLACE ? pack(rb, long(rn) * long(n), rt) : pack(sb, long(sn) * long(n), st);
   Coll k = joinColl(c, fmt("Alltoall(%zu bytes)", d.size()), d);
   needAll(k, "MPI_Alltoall");
   for (size_t i = 0; i < n; ++i)
   {
      auto &v = k.s->in[int(i)];
      size_t each = v.size() / n;
      unpack(v.data() + each * size_t(k.me), each, at(rb, ptrdiff_t(i) * rn, rt), rt);
   }
   leave(k);
   return MPI_SUCCESS;
}
int MPI_Alltoallv(const void *sb, const int sn[], const int sd[], MPI_Datatype st, void *rb, const int rn[], const int rd[], MPI_Datatype rt, MPI_Comm c)
{
   enter("Alltoallv");
   CommObj *co = C(c);
   size_t n = co->ranks.size();
   std::vector<char> d;
   for (size_t i = 0; i < n; ++i)
   {
      auto p = pack(cat(sb, sd[i], st), sn[i], st);
      uint64_t z = p.size();
      d.insert(d.end(), reinterpret_cast<char *>(&z), reinterpret_cast<char *>(&z) + 8);
      d.insert(d.end(), p.begin(), p.end());
   }
   Coll k = joinColl(c, "Alltoallv", d);
   needAll(k, "MPI_Alltoallv");
   for (size_t i = 0; i < n; ++i)
   {
      auto &v = k.s->in[int(i)];
      size_t p = 0;
      for (int j = 0;; ++j)
      {
         uint64_t z;
         memcpy(&z, v.data() + p, 8);
         p += 8;
         if (j == k.me)
         {
            if (z > size_t(rn[i]) * T(rt).size) { sim::violation("mpi-misuse", "Alltoallv: counts disagree"); }
            unpack(v.data() + p, z, at(rb, rd[i], rt), rt);
            break;
         }
         p += z;
      }
   }
   leave(k);
   return MPI_SUCCESS;
}
}
#pragma GCC visibility pop

// hypre keeps one process-wide table of timers; ranks share this process.
extern "C"
{
int hypre_InitializeTiming(const char *) { return 0; }
int hypre_FinalizeTiming(int) { return 0; }
int hypre_BeginTiming(int) { return 0; }
int hypre_EndTiming(int) { return 0; }
int hypre_ClearTiming() { return 0; }
int hypre_PrintTiming(const char *, MPI_Comm) { return 0; }
}
