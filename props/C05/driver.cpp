// Verification driver for C05: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Matrix.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using Sp = Eigen::SparseMatrix<double>;
using M = GooseFEM::Matrix;
M make(const U2& conn, const U2& dofs) { return M(conn, dofs); }
void assemble(M& A, const D3& e) { A.assemble(e); }
void set(M& A, const U1& r, const U1& c, const D2& m) { A.set(r, c, m); }
void add(M& A, const U1& r, const U1& c, const D2& m) { A.add(r, c, m); }
Sp data(const M& A) { return A.data(); }
D2 Todense(const M& A) { return A.Todense(); }
void todense(const M& A, D2& r) { A.todense(r); }
D1 Dot_dof(const M& A, const D1& x) { return A.Dot(x); }
void dot_dof(const M& A, const D1& x, D1& b) { A.dot(x, b); }
D2 Dot_node(const M& A, const D2& x) { return A.Dot(x); }
void dot_node(const M& A, const D2& x, D2& b) { A.dot(x, b); }
}
