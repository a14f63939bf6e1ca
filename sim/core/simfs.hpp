// SimFS: the file-system calls made on the run's scratch directory go through
// these interposed functions. Files are real (on tmpfs); faults, short
// transfers, crash points and yields are decided by the simulator.
#ifndef VERIF_SIMFS_HPP
#define VERIF_SIMFS_HPP
#include <cstdint>
#include <string>
namespace simfs
{
struct Plan
{
   bool benign = false;   // short transfers, EINTR, delays: must be harmless
   uint32_t errDen = 0;   // hard error with probability 1/errDen per operation
   bool onOpen = true, onWrite = true, onRead = true, onMkdir = true, onClose = true;
   long quota = -1;       // bytes left on the device (-1: unlimited)
   std::string only;      // restrict hard faults to paths containing this
};
Plan &plan();
/// hard faults injected so far by operations of this rank
long hardFaults(int rank);
/// hard faults injected so far
long hardFaults();
/// power loss: file data that was never fsynced may be lost (a prefix of the
/// file survives, or nothing). Returns the number of files damaged.
int powerLoss(const std::string &dir);
/// file operations seen so far
long ops();
}  // namespace simfs
#endif
