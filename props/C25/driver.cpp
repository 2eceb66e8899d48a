// Verification driver for C25: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Iterate.h>
namespace gfv {
using GooseFEM::Iterate::StopList;
StopList make(size_t n) { return StopList(n); }
StopList make_default() { return StopList(); }
void reset(StopList& s) { s.reset(); }
void reset_n(StopList& s, size_t n) { s.reset(n); }
void roll_insert(StopList& s, double res) { s.roll_insert(res); }
bool descending(const StopList& s) { return s.descending(); }
bool all_less(const StopList& s, double tol) { return s.all_less(tol); }
std::vector<double> data(const StopList& s) { return s.data(); }
std::vector<double> get(const StopList& s) { return s.get(); }
}
