// Verification driver for C08: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using M = GooseFEM::MatrixDiagonal;
M make(const U2& conn, const U2& dofs) { return M(conn, dofs); }
void assemble(M& A, const D3& e) { A.assemble(e); }
void set(M& A, const D1& a) { A.set(a); }
D1 data(const M& A) { return A.data(); }
D2 Todense(const M& A) { return A.Todense(); }
void todense(const M& A, D2& r) { A.todense(r); }
D1 Dot_dof(const M& A, const D1& x) { return A.Dot(x); }
void dot_dof(const M& A, const D1& x, D1& b) { A.dot(x, b); }
D2 Dot_node(const M& A, const D2& x) { return A.Dot(x); }
void dot_node(const M& A, const D2& x, D2& b) { A.dot(x, b); }
D1 Solve_dof(M& A, const D1& b) { return A.Solve(b); }
D2 Solve_node(M& A, const D2& b) { return A.Solve(b); }
void solve_dof(M& A, const D1& b, D1& x) { A.solve(b, x); }
void solve_node(M& A, const D2& b, D2& x) { A.solve(b, x); }
}
