// Verification driver for C22: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using U3 = xt::xtensor<size_t, 3>;
using GooseFEM::Mesh::Renumber;
using GooseFEM::Mesh::Reorder;

Renumber renum1(const U1& a) { return Renumber(a); }
Renumber renum2(const U2& a) { return Renumber(a); }
Renumber renum3(const U3& a) { return Renumber(a); }
U1 renum_apply1(const Renumber& r, const U1& a) { return r.apply(a); }
U2 renum_apply2(const Renumber& r, const U2& a) { return r.apply(a); }
U3 renum_apply3(const Renumber& r, const U3& a) { return r.apply(a); }
U1 renum_index(const Renumber& r) { return r.index(); }
U1 renumber1(const U1& a) { return GooseFEM::Mesh::renumber(a); }
U2 renumber2(const U2& a) { return GooseFEM::Mesh::renumber(a); }
U3 renumber3(const U3& a) { return GooseFEM::Mesh::renumber(a); }

Reorder reorder1(const U1& a) { return Reorder({a}); }
Reorder reorder2(const U1& a, const U1& b) { return Reorder({a, b}); }
Reorder reorder3(const U1& a, const U1& b, const U1& c) { return Reorder({a, b, c}); }
U1 reorder_apply1(const Reorder& r, const U1& a) { return r.apply(a); }
U2 reorder_apply2(const Reorder& r, const U2& a) { return r.apply(a); }
U3 reorder_apply3(const Reorder& r, const U3& a) { return r.apply(a); }
U1 reorder_index(const Reorder& r) { return r.index(); }
U2 dofs(size_t nnode, size_t ndim) { return GooseFEM::Mesh::dofs(nnode, ndim); }
}
