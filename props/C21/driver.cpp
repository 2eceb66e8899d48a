// Verification driver for C21: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D2 = xt::xtensor<double, 2>;
using GooseFEM::Mesh::ManualStitch;
using GooseFEM::Mesh::Stitch;
using GooseFEM::Mesh::Vstack;

ManualStitch make(const D2& xa, const U2& ea, const U1& oa, const D2& xb, const U2& eb, const U1& ob) { return ManualStitch(xa, ea, oa, xb, eb, ob); }
ManualStitch make_tol(const D2& xa, const U2& ea, const U1& oa, const D2& xb, const U2& eb, const U1& ob, bool check, double rtol, double atol) { return ManualStitch(xa, ea, oa, xb, eb, ob, check, rtol, atol); }
size_t nmesh(const ManualStitch& s) { return s.nmesh(); }
size_t nelem(const ManualStitch& s) { return s.nelem(); }
size_t nnode(const ManualStitch& s) { return s.nnode(); }
size_t nne(const ManualStitch& s) { return s.nne(); }
size_t ndim(const ManualStitch& s) { return s.ndim(); }
D2 coor(const ManualStitch& s) { return s.coor(); }
U2 conn(const ManualStitch& s) { return s.conn(); }
U2 dofs(const ManualStitch& s) { return s.dofs(); }
U1 nodemap(const ManualStitch& s, size_t i) { return s.nodemap(i); }
U1 elemmap(const ManualStitch& s, size_t i) { return s.elemmap(i); }
U1 nodemaps(const ManualStitch& s, size_t i) { return s.nodemap()[i]; }
U1 elemmaps(const ManualStitch& s, size_t i) { return s.elemmap()[i]; }
U1 nodeset(const ManualStitch& s, const U1& v, size_t i) { return s.nodeset(v, i); }
U1 elemset(const ManualStitch& s, const U1& v, size_t i) { return s.elemset(v, i); }

Stitch st_make() { return Stitch(); }
void st_push(Stitch& s, const D2& x, const U2& e) { s.push_back(x, e); }
size_t st_nmesh(const Stitch& s) { return s.nmesh(); }
size_t st_nelem(const Stitch& s) { return s.nelem(); }
size_t st_nnode(const Stitch& s) { return s.nnode(); }
size_t st_nne(const Stitch& s) { return s.nne(); }
size_t st_ndim(const Stitch& s) { return s.ndim(); }
D2 st_coor(const Stitch& s) { return s.coor(); }
U2 st_conn(const Stitch& s) { return s.conn(); }
U2 st_dofs(const Stitch& s) { return s.dofs(); }
U1 st_nodemap(const Stitch& s, size_t i) { return s.nodemap(i); }
U1 st_elemmap(const Stitch& s, size_t i) { return s.elemmap(i); }
U1 st_nodemaps(const Stitch& s, size_t i) { return s.nodemap()[i]; }
U1 st_elemmaps(const Stitch& s, size_t i) { return s.elemmap()[i]; }
U1 st_nodeset(const Stitch& s, const U1& v, size_t i) { return s.nodeset(v, i); }
U1 st_elemset(const Stitch& s, const U1& v, size_t i) { return s.elemset(v, i); }
U1 st_nodeset2(const Stitch& s, const U1& a, const U1& b) { return s.nodeset(std::vector<U1>{a, b}); }
U1 st_elemset2(const Stitch& s, const U1& a, const U1& b) { return s.elemset(std::vector<U1>{a, b}); }
U1 st_nodeset3(const Stitch& s, const U1& a, const U1& b, const U1& c) { return s.nodeset({a, b, c}); }
U1 st_elemset3(const Stitch& s, const U1& a, const U1& b, const U1& c) { return s.elemset({a, b, c}); }

Vstack vs_make(bool check) { return Vstack(check); }
void vs_push(Vstack& s, const D2& x, const U2& e, const U1& bot, const U1& top) { s.push_back(x, e, bot, top); }

U2 overlapping(const D2& a, const D2& b, double rtol, double atol) { return GooseFEM::Mesh::overlapping(a, b, rtol, atol); }
}
