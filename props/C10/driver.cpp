// Verification driver for C10: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using Sp = Eigen::SparseMatrix<double>;
using M = GooseFEM::Matrix;
using S = GooseFEM::MatrixSolver<>;
M m_make(const U2& conn, const U2& dofs) { return M(conn, dofs); }
S m_solver() { return S(); }
void m_assemble(M& A, const D3& e) { A.assemble(e); }
void m_set(M& A, const U1& r, const U1& c, const D2& m) { A.set(r, c, m); }
void m_add(M& A, const U1& r, const U1& c, const D2& m) { A.add(r, c, m); }
Sp m_data(const M& A) { return A.data(); }
D1 m_Solve_dof(S& s, M& A, const D1& b) { return s.Solve(A, b); }
void m_solve_dof(S& s, M& A, const D1& b, D1& x) { s.solve(A, b, x); }
D2 m_Solve_node(S& s, M& A, const D2& b) { return s.Solve(A, b); }
void m_solve_node(S& s, M& A, const D2& b, D2& x) { s.solve(A, b, x); }

using PM = GooseFEM::MatrixPartitioned;
using PS = GooseFEM::MatrixPartitionedSolver<>;
PM p_make(const U2& conn, const U2& dofs, const U1& iip) { return PM(conn, dofs, iip); }
PS p_solver() { return PS(); }
void p_assemble(PM& A, const D3& e) { A.assemble(e); }
void p_set(PM& A, const U1& r, const U1& c, const D2& m) { A.set(r, c, m); }
void p_add(PM& A, const U1& r, const U1& c, const D2& m) { A.add(r, c, m); }
Sp p_uu(const PM& A) { return A.data_uu(); }
Sp p_up(const PM& A) { return A.data_up(); }
Sp p_pu(const PM& A) { return A.data_pu(); }
Sp p_pp(const PM& A) { return A.data_pp(); }
D1 p_Solve_dof(PS& s, PM& A, const D1& b, const D1& x) { return s.Solve(A, b, x); }
void p_solve_dof(PS& s, PM& A, const D1& b, D1& x) { s.solve(A, b, x); }
D2 p_Solve_node(PS& s, PM& A, const D2& b, const D2& x) { return s.Solve(A, b, x); }
void p_solve_node(PS& s, PM& A, const D2& b, D2& x) { s.solve(A, b, x); }
D1 p_Solve_u(PS& s, PM& A, const D1& bu, const D1& xp) { return s.Solve_u(A, bu, xp); }
void p_solve_u(PS& s, PM& A, const D1& bu, const D1& xp, D1& xu) { s.solve_u(A, bu, xp, xu); }

using TM = GooseFEM::MatrixPartitionedTyings;
using TS = GooseFEM::MatrixPartitionedTyingsSolver<>;
TM t_make(const U2& conn, const U2& dofs, const Sp& Cdu, const Sp& Cdp) { return TM(conn, dofs, Cdu, Cdp); }
TS t_solver() { return TS(); }
void t_assemble(TM& A, const D3& e) { A.assemble(e); }
Sp t_uu(const TM& A) { return A.data_uu(); }
Sp t_up(const TM& A) { return A.data_up(); }
Sp t_ud(const TM& A) { return A.data_ud(); }
Sp t_pu(const TM& A) { return A.data_pu(); }
Sp t_pp(const TM& A) { return A.data_pp(); }
Sp t_pd(const TM& A) { return A.data_pd(); }
Sp t_du(const TM& A) { return A.data_du(); }
Sp t_dp(const TM& A) { return A.data_dp(); }
Sp t_dd(const TM& A) { return A.data_dd(); }
D1 t_Solve_u(TS& s, TM& A, const D1& bu, const D1& bd, const D1& xp) { return s.Solve_u(A, bu, bd, xp); }
D1 t_Solve_dof(TS& s, TM& A, const D1& b, const D1& x) { return s.Solve(A, b, x); }
void t_solve_dof(TS& s, TM& A, const D1& b, D1& x) { s.solve(A, b, x); }
D2 t_Solve_node(TS& s, TM& A, const D2& b, const D2& x) { return s.Solve(A, b, x); }

using DM = GooseFEM::MatrixDiagonal;
DM d_make(const U2& conn, const U2& dofs) { return DM(conn, dofs); }
void d_assemble(DM& A, const D3& e) { A.assemble(e); }
void d_set(DM& A, const D1& a) { A.set(a); }
D1 d_data(const DM& A) { return A.data(); }
D1 d_Solve_dof(DM& A, const D1& b) { return A.Solve(b); }
D2 d_Solve_node(DM& A, const D2& b) { return A.Solve(b); }
void d_solve_dof(DM& A, const D1& b, D1& x) { A.solve(b, x); }
void d_solve_node(DM& A, const D2& b, D2& x) { A.solve(b, x); }

using DP = GooseFEM::MatrixDiagonalPartitioned;
DP q_make(const U2& conn, const U2& dofs, const U1& iip) { return DP(conn, dofs, iip); }
void q_assemble(DP& A, const D3& e) { A.assemble(e); }
void q_set(DP& A, const D1& a) { A.set(a); }
D1 q_uu(const DP& A) { return A.data_uu(); }
D1 q_pp(const DP& A) { return A.data_pp(); }
void q_solve_dof(DP& A, const D1& b, D1& x) { A.solve(b, x); }
void q_solve_node(DP& A, const D2& b, D2& x) { A.solve(b, x); }
D1 q_Solve_u(DP& A, const D1& b, const D1& x) { return A.Solve_u(b, x); }
void q_solve_u(DP& A, const D1& b, const D1& x, D1& o) { A.solve_u(b, x, o); }
}
