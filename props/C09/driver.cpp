// Verification driver for C09: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using M = GooseFEM::MatrixDiagonalPartitioned;
M make(const U2& conn, const U2& dofs, const U1& iip) { return M(conn, dofs, iip); }
void assemble(M& A, const D3& e) { A.assemble(e); }
void set(M& A, const D1& a) { A.set(a); }
D1 data(const M& A) { return A.data(); }
D1 data_uu(const M& A) { return A.data_uu(); }
D1 data_pp(const M& A) { return A.data_pp(); }
D2 Todense(const M& A) { return A.Todense(); }
void todense(const M& A, D2& r) { A.todense(r); }
D1 Dot_dof(const M& A, const D1& x) { return A.Dot(x); }
void dot_dof(const M& A, const D1& x, D1& b) { A.dot(x, b); }
D2 Dot_node(const M& A, const D2& x) { return A.Dot(x); }
void dot_node(const M& A, const D2& x, D2& b) { A.dot(x, b); }
D1 Dot_u(const M& A, const D1& xu, const D1& xp) { return A.Dot_u(xu, xp); }
D1 Dot_p(const M& A, const D1& xu, const D1& xp) { return A.Dot_p(xu, xp); }
void dot_u(const M& A, const D1& xu, const D1& xp, D1& o) { A.dot_u(xu, xp, o); }
void dot_p(const M& A, const D1& xu, const D1& xp, D1& o) { A.dot_p(xu, xp, o); }
void solve_dof(M& A, const D1& b, D1& x) { A.solve(b, x); }
void solve_node(M& A, const D2& b, D2& x) { A.solve(b, x); }
D1 Solve_dof(M& A, const D1& b) { return A.Solve(b); }
D2 Solve_node(M& A, const D2& b) { return A.Solve(b); }
D1 Solve_u(M& A, const D1& b, const D1& x) { return A.Solve_u(b, x); }
void solve_u(M& A, const D1& b, const D1& x, D1& o) { A.solve_u(b, x, o); }
D1 Reaction_dof(const M& A, const D1& x, const D1& b) { return A.Reaction(x, b); }
void reaction_dof(const M& A, const D1& x, D1& b) { A.reaction(x, b); }
D2 Reaction_node(const M& A, const D2& x, const D2& b) { return A.Reaction(x, b); }
void reaction_node(const M& A, const D2& x, D2& b) { A.reaction(x, b); }
D1 Reaction_p(const M& A, const D1& xu, const D1& xp) { return A.Reaction_p(xu, xp); }
void reaction_p(const M& A, const D1& xu, const D1& xp, D1& o) { A.reaction_p(xu, xp, o); }
size_t nnu(const M& A) { return A.nnu(); }
size_t nnp(const M& A) { return A.nnp(); }
U1 iiu(const M& A) { return A.iiu(); }
U1 iip(const M& A) { return A.iip(); }
}
