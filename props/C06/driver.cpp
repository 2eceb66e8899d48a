// Verification driver for C06: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MatrixPartitioned.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using Sp = Eigen::SparseMatrix<double>;
using M = GooseFEM::MatrixPartitioned;
M make(const U2& conn, const U2& dofs, const U1& iip) { return M(conn, dofs, iip); }
U1 iiu(const M& A) { return A.iiu(); }
U1 iip(const M& A) { return A.iip(); }
size_t nnu(const M& A) { return A.nnu(); }
size_t nnp(const M& A) { return A.nnp(); }
void assemble(M& A, const D3& e) { A.assemble(e); }
void set(M& A, const U1& r, const U1& c, const D2& m) { A.set(r, c, m); }
void add(M& A, const U1& r, const U1& c, const D2& m) { A.add(r, c, m); }
Sp uu(const M& A) { return A.data_uu(); }
Sp up(const M& A) { return A.data_up(); }
Sp pu(const M& A) { return A.data_pu(); }
Sp pp(const M& A) { return A.data_pp(); }
D2 Todense(const M& A) { return A.Todense(); }
void todense(const M& A, D2& r) { A.todense(r); }
D1 Dot_dof(const M& A, const D1& x) { return A.Dot(x); }
void dot_dof(const M& A, const D1& x, D1& b) { A.dot(x, b); }
D2 Dot_node(const M& A, const D2& x) { return A.Dot(x); }
void dot_node(const M& A, const D2& x, D2& b) { A.dot(x, b); }
D1 Reaction_dof(const M& A, const D1& x, const D1& b) { return A.Reaction(x, b); }
void reaction_dof(const M& A, const D1& x, D1& b) { A.reaction(x, b); }
D2 Reaction_node(const M& A, const D2& x, const D2& b) { return A.Reaction(x, b); }
void reaction_node(const M& A, const D2& x, D2& b) { A.reaction(x, b); }
D1 Reaction_p(const M& A, const D1& xu, const D1& xp) { return A.Reaction_p(xu, xp); }
void reaction_p(const M& A, const D1& xu, const D1& xp, D1& b) { A.reaction_p(xu, xp, b); }
}
