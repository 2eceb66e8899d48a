// Verification driver for C07: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using Sp = Eigen::SparseMatrix<double>;
using M = GooseFEM::MatrixPartitionedTyings;
using Solver = GooseFEM::MatrixPartitionedTyingsSolver<>;
M make(const U2& conn, const U2& dofs, const Sp& Cdu, const Sp& Cdp) { return M(conn, dofs, Cdu, Cdp); }
Solver solver() { return Solver(); }
U1 iiu(const M& A) { return A.iiu(); }
U1 iip(const M& A) { return A.iip(); }
U1 iii(const M& A) { return A.iii(); }
U1 iid(const M& A) { return A.iid(); }
size_t nnu(const M& A) { return A.nnu(); }
size_t nnp(const M& A) { return A.nnp(); }
size_t nni(const M& A) { return A.nni(); }
size_t nnd(const M& A) { return A.nnd(); }
void assemble(M& A, const D3& e) { A.assemble(e); }
Sp uu(const M& A) { return A.data_uu(); }
Sp up(const M& A) { return A.data_up(); }
Sp ud(const M& A) { return A.data_ud(); }
Sp pu(const M& A) { return A.data_pu(); }
Sp pp(const M& A) { return A.data_pp(); }
Sp pd(const M& A) { return A.data_pd(); }
Sp du(const M& A) { return A.data_du(); }
Sp dp(const M& A) { return A.data_dp(); }
Sp dd(const M& A) { return A.data_dd(); }
D2 Todense(const M& A) { return A.Todense(); }
void todense(const M& A, D2& r) { A.todense(r); }
D1 Solve_dof(Solver& S, M& A, const D1& b, const D1& x) { return S.Solve(A, b, x); }
void solve_dof(Solver& S, M& A, const D1& b, D1& x) { S.solve(A, b, x); }
D2 Solve_node(Solver& S, M& A, const D2& b, const D2& x) { return S.Solve(A, b, x); }
void solve_node(Solver& S, M& A, const D2& b, D2& x) { S.solve(A, b, x); }
D1 Solve_u(Solver& S, M& A, const D1& bu, const D1& bd, const D1& xp) { return S.Solve_u(A, bu, bd, xp); }
void solve_u(Solver& S, M& A, const D1& bu, const D1& bd, const D1& xp, D1& xu) { S.solve_u(A, bu, bd, xp, xu); }
}
