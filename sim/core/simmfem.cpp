// mfem_error() ends the process after an MPI abort; in the simulator it is an
// exception of the rank that called it.
#include <stdexcept>
#include <string>
namespace mfem
{
void mfem_error(const char *msg) { throw std::runtime_error(std::string("mfem_error: ") + (msg ? msg : "")); }
void mfem_warning(const char *) {}
}  // namespace mfem
