#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "simfs.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <vector>

#include "sim.hpp"

namespace
{
bool armed = false;
std::string root;  // scratch directory of this run
struct Fd
{
   std::string path;
   bool writes = false;
   bool deferredError = false;
};
std::map<int, Fd> fds;
std::map<FILE *, int> cookies;
std::set<std::string> synced;
std::map<int, long> hard;
long hardTotal = 0, opCount = 0;
simfs::Plan thePlan;

/// path relative to the scratch directory; empty if elsewhere
std::string rel(const char *p)
{
   if (!armed || !p || !*p) { return ""; }
   std::string s = p;
   if (s[0] == '/')
   {
      if (s.compare(0, root.size() + 1, root + "/") != 0) { return ""; }
      s = s.substr(root.size() + 1);
   }
   std::string o;
   for (char c : s)
   {
      if (c == '/' && !o.empty() && o.back() == '/') { continue; }
      o += c;
   }
   while (o.compare(0, 2, "./") == 0) { o = o.substr(2); }
   return o.empty() ? "." : o;
}
bool targeted(const std::string &p)
{
   return thePlan.only.empty() || p.find(thePlan.only) != std::string::npos;
}
bool hardHere(bool kindOn, const std::string &p, const char *kind)
{
   if (!kindOn || thePlan.errDen == 0 || !targeted(p)) { return false; }
   if (!sim::faultBool(1, thePlan.errDen)) { return false; }
   sim::countFault(kind);
   ++hard[sim::rank()];
   ++hardTotal;
   return true;
}
void before(const char *op, const std::string &p)
{
   ++opCount;
   sim::note("%s %s", op, p.c_str());
   sim::yieldPoint();
   sim::crashPoint(op);
}
void after(const char *op) { sim::crashPoint(op); sim::yieldPoint(); }
bool eintr(const char *op)
{
   if (thePlan.benign && sim::faultBool(1, 12))
   {
      sim::countFault("EINTR");
      sim::note("%s interrupted", op);
      errno = EINTR;
      return true;
   }
   return false;
}
int realOpen(const char *p, int flags, mode_t m) { return int(syscall(SYS_openat, AT_FDCWD, p, flags, m)); }
int simOpen(const char *path, int flags, mode_t mode)
{
   std::string r = rel(path);
   if (r.empty()) { return realOpen(path, flags, mode); }
   bool w = (flags & O_ACCMODE) != O_RDONLY;
   before(w ? "open for writing" : "open for reading", r);
   if (hardHere(thePlan.onOpen, r, w ? "open for writing fails" : "open for reading fails"))
   {
      static const int es[] = {EACCES, EMFILE, EIO, ENFILE, EROFS};
      errno = es[sim::fault(5)];
      if (errno == EROFS && !w) { errno = EACCES; }
      sim::note("open fails (%s)", strerror(errno));
      return -1;
   }
   if (w && (flags & O_CREAT) && thePlan.quota == 0)
   {
      // no room for a new directory entry
      struct stat st;
      if (stat(path, &st) != 0 && sim::faultBool(1, 2))
      {
         sim::countFault("no space for a new file");
         ++hard[sim::rank()];
         ++hardTotal;
         errno = ENOSPC;
         return -1;
      }
   }
   int fd = realOpen(path, flags, mode);
   int e = errno;
   if (fd >= 0)
   {
      Fd f;
      f.path = r;
      f.writes = w;
      fds[fd] = f;
      if (w) { synced.erase(r); }
      sim::note("open ok");
   }
   else { sim::note("open: %s", strerror(e)); }
   after("after open");
   errno = e;
   return fd;
}
ssize_t simWrite(int fd, const struct iovec *iov, int cnt)
{
   auto it = fds.find(fd);
   if (it == fds.end()) { return syscall(SYS_writev, fd, iov, cnt); }
   std::string path = it->second.path;
   std::string data;
   for (int i = 0; i < cnt; ++i) { data.append(static_cast<const char *>(iov[i].iov_base), iov[i].iov_len); }
   before("write", path);
   if (eintr("write")) { return -1; }
   size_t n = data.size();
   if (n == 0) { return 0; }
   if (it->second.deferredError)
   {
      errno = EIO;
      return -1;
   }
   if (hardHere(thePlan.onWrite, path, "write error"))
   {
      static const int es[] = {EIO, ENOSPC, EDQUOT, EFBIG};
      int e = es[sim::fault(4)];
      size_t part = sim::fault(3) == 0 ? 0 : sim::fault(uint32_t(n));
      if (thePlan.quota >= 0) { part = std::min(part, size_t(thePlan.quota)); thePlan.quota -= long(part); }
      if (part) { (void)!syscall(SYS_write, fd, data.data(), part); sim::countFault("torn write"); }
      // the short count may be reported first; the error sticks to this file
      it = fds.find(fd);
      if (it != fds.end()) { it->second.deferredError = true; }
      sim::note("write %zu of %zu then %s", part, n, strerror(e));
      if (part && sim::fault(2))
      {
         // error at once; the part written stays on disk
         errno = e;
         return -1;
      }
      if (part) { return ssize_t(part); }
      errno = e;
      return -1;
   }
   if (thePlan.quota >= 0)
   {
      if (long(n) > thePlan.quota)
      {
         n = size_t(thePlan.quota);
         if (n == 0)
         {
            sim::countFault("disk full");
            ++hard[sim::rank()];
            ++hardTotal;
            sim::note("ENOSPC");
            it->second.deferredError = true;
            errno = ENOSPC;
            return -1;
         }
      }
   }
   if (thePlan.benign && n > 1 && sim::faultBool(1, 6))
   {
      n = 1 + sim::fault(uint32_t(n - 1));
      sim::countFault("short write");
   }
   // a crash in the middle of a write leaves a part of it behind
   size_t done = 0;
   if (n > 1)
   {
      size_t half = 1 + (n - 1) / 2;
      ssize_t k = syscall(SYS_write, fd, data.data(), half);
      if (k < 0) { return k; }
      done = size_t(k);
      sim::crashPoint("middle of write");
   }
   ssize_t k = syscall(SYS_write, fd, data.data() + done, n - done);
   if (k < 0) { return done ? ssize_t(done) : k; }
   done += size_t(k);
   if (thePlan.quota >= 0) { thePlan.quota -= long(done); }
   sim::note("wrote %zu", done);
   after("after write");
   return ssize_t(done);
}
ssize_t simRead(int fd, void *buf, size_t n)
{
   auto it = fds.find(fd);
   if (it == fds.end()) { return syscall(SYS_read, fd, buf, n); }
   std::string path = it->second.path;
   before("read", path);
   if (eintr("read")) { return -1; }
   if (hardHere(thePlan.onRead, path, "read error"))
   {
      errno = EIO;
      return -1;
   }
   if (thePlan.benign && n > 1 && sim::faultBool(1, 5))
   {
      size_t m = 1 + sim::fault(uint32_t(std::min<size_t>(n - 1, 4096)));
      ssize_t k = syscall(SYS_read, fd, buf, m);
      sim::countFault("short read");
      sim::note("short read %zd", k);
      return k;
   }
   ssize_t k = syscall(SYS_read, fd, buf, n);
   sim::note("read %zd", k);
   return k;
}
int simClose(int fd)
{
   auto it = fds.find(fd);
   if (it == fds.end()) { return int(syscall(SYS_close, fd)); }
   Fd f = it->second;
   before("close", f.path);
   bool fail = f.writes && hardHere(thePlan.onClose, f.path, "deferred write error at close");
   if (fail)
   {
      // the delayed write-back failed: some of the data never got to disk
      struct stat st;
      if (fstat(fd, &st) == 0 && st.st_size > 0) { (void)!ftruncate(fd, off_t(sim::fault(uint32_t(st.st_size)))); }
   }
   fds.erase(fd);
   int r = int(syscall(SYS_close, fd));
   if (fail) { errno = EIO; r = -1; }
   int e = errno;
   after("after close");
   errno = e;
   return r;
}

// FILE* objects on scratch files: a cookie stream over the simulated calls
struct Cookie { int fd; };
ssize_t ckRead(void *c, char *b, size_t n) { return simRead(static_cast<Cookie *>(c)->fd, b, n); }
ssize_t ckWrite(void *c, const char *b, size_t n)
{
   size_t done = 0;
   while (done < n)
   {
      struct iovec v{const_cast<char *>(b) + done, n - done};
      ssize_t k = simWrite(static_cast<Cookie *>(c)->fd, &v, 1);
      if (k < 0)
      {
         if (errno == EINTR) { continue; }
         return done ? ssize_t(done) : 0;
      }
      done += size_t(k);
   }
   return ssize_t(done);
}
int ckSeek(void *c, off64_t *off, int wh)
{
   off_t r = lseek(static_cast<Cookie *>(c)->fd, *off, wh);
   if (r < 0) { return -1; }
   *off = r;
   return 0;
}
int ckClose(void *c)
{
   int fd = static_cast<Cookie *>(c)->fd;
   delete static_cast<Cookie *>(c);
   return simClose(fd);
}
FILE *simFopen(const char *path, const char *mode)
{
   int fl = 0;
   bool plus = strchr(mode, '+') != nullptr;
   switch (mode[0])
   {
      case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
      case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
      case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
      default: errno = EINVAL; return nullptr;
   }
   int fd = simOpen(path, fl, 0666);
   if (fd < 0) { return nullptr; }
   cookie_io_functions_t io{ckRead, ckWrite, ckSeek, ckClose};
   FILE *f = fopencookie(new Cookie{fd}, mode, io);
   if (f) { cookies[f] = fd; }
   return f;
}
}  // namespace

#define REAL(name) ((decltype(&::name))dlsym(RTLD_NEXT, #name))

extern "C"
{
void simfs_reset()
{
   char buf[PATH_MAX];
   if (!getcwd(buf, sizeof buf)) { sim::harnessError("getcwd"); }
   root = buf;
   armed = true;
}
FILE *fopen(const char *p, const char *m)
{
   if (!rel(p).empty()) { return simFopen(p, m); }
   static auto f = REAL(fopen);
   return f(p, m);
}
FILE *fopen64(const char *p, const char *m)
{
   if (!rel(p).empty()) { return simFopen(p, m); }
   static auto f = REAL(fopen64);
   return f(p, m);
}
int fileno(FILE *f) noexcept
{
   if (!cookies.empty())
   {
      auto it = cookies.find(f);
      if (it != cookies.end()) { return it->second; }
   }
   static auto r = REAL(fileno);
   return r(f);
}
int fclose(FILE *f)
{
   cookies.erase(f);
   static auto r = REAL(fclose);
   return r(f);
}
int open(const char *p, int fl, ...)
{
   mode_t m = 0;
   if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
   return simOpen(p, fl, m);
}
int open64(const char *p, int fl, ...)
{
   mode_t m = 0;
   if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
   return simOpen(p, fl, m);
}
int creat(const char *p, mode_t m) { return simOpen(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
ssize_t write(int fd, const void *b, size_t n)
{
   struct iovec v{const_cast<void *>(b), n};
   return simWrite(fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int c) { return simWrite(fd, v, c); }
ssize_t read(int fd, void *b, size_t n) { return simRead(fd, b, n); }
int close(int fd) { return simClose(fd); }
static int syncIt(int fd, int nr)
{
   auto it = fds.find(fd);
   if (it == fds.end()) { return int(syscall(nr, fd)); }
   std::string p = it->second.path;
   before("fsync", p);
   if (hardHere(thePlan.onClose, p, "fsync fails")) { errno = EIO; return -1; }
   synced.insert(p);
   after("after fsync");
   return 0;
}
int fsync(int fd) { return syncIt(fd, SYS_fsync); }
int fdatasync(int fd) { return syncIt(fd, SYS_fdatasync); }
int mkdir(const char *p, mode_t m) noexcept
{
   std::string r = rel(p);
   if (r.empty()) { return int(syscall(SYS_mkdir, p, m)); }
   before("mkdir", r);
   if (hardHere(thePlan.onMkdir, r, "mkdir fails"))
   {
      static const int es[] = {EACCES, ENOSPC, EIO, EROFS};
      errno = es[sim::fault(4)];
      return -1;
   }
   int k = int(syscall(SYS_mkdir, p, m));
   int e = errno;
   sim::note("mkdir -> %d %s", k, k ? strerror(e) : "");
   after("after mkdir");
   errno = e;
   return k;
}
int rename(const char *a, const char *b) noexcept
{
   std::string r = rel(a);
   if (r.empty()) { return int(syscall(SYS_rename, a, b)); }
   before("rename", r);
   if (hardHere(thePlan.onWrite, r, "rename fails")) { errno = EIO; return -1; }
   bool s = synced.count(r) != 0;
   int k = int(syscall(SYS_rename, a, b));
   if (k == 0)
   {
      synced.erase(r);
      if (s) { synced.insert(rel(b)); }
      else { synced.erase(rel(b)); }
   }
   after("after rename");
   return k;
}
int unlink(const char *p) noexcept
{
   std::string r = rel(p);
   if (r.empty()) { return int(syscall(SYS_unlink, p)); }
   before("unlink", r);
   int k = int(syscall(SYS_unlink, p));
   int e = errno;
   after("after unlink");
   errno = e;
   return k;
}
int remove(const char *p) noexcept
{
   std::string r = rel(p);
   if (!r.empty()) { before("remove", r); }
   int k = int(syscall(SYS_unlink, p));
   if (k != 0 && errno == EISDIR) { k = int(syscall(SYS_rmdir, p)); }
   return k;
}
}  // extern C

namespace simfs
{
Plan &plan() { return thePlan; }
long hardFaults(int r) { return hard[r]; }
long hardFaults() { return hardTotal; }
long ops() { return opCount; }
int powerLoss(const std::string &dir)
{
   int damaged = 0;
   std::vector<std::string> names;
   DIR *d = opendir(dir.c_str());
   if (!d) { return 0; }
   while (struct dirent *e = readdir(d))
   {
      std::string n = e->d_name;
      if (n != "." && n != "..") { names.push_back(n); }
   }
   closedir(d);
   std::sort(names.begin(), names.end());
   for (auto &n : names)
   {
      std::string p = dir + "/" + n;
      struct stat st;
      if (stat(p.c_str(), &st) != 0) { continue; }
      if (S_ISDIR(st.st_mode)) { damaged += powerLoss(p); continue; }
      if (synced.count(rel(p.c_str()))) { continue; }
      switch (sim::fault(3))
      {
         case 0: break;
         case 1:
         {
            if (st.st_size == 0) { break; }
            off_t keep = off_t(sim::fault(uint32_t(st.st_size)));
            if (truncate(p.c_str(), keep) == 0)
            {
               sim::note("power loss keeps %ld of %ld bytes of %s", long(keep), long(st.st_size), p.c_str());
               sim::countFault("power loss truncates file");
               ++damaged;
            }
            break;
         }
         default:
            if (syscall(SYS_unlink, p.c_str()) == 0)
            {
               sim::note("power loss loses %s", p.c_str());
               sim::countFault("power loss drops file");
               ++damaged;
            }
      }
   }
   return damaged;
}
}  // namespace simfs
