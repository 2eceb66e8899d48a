// Verification driver for C04: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/VectorPartitionedTyings.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using Sp = Eigen::SparseMatrix<double>;
using V = GooseFEM::VectorPartitionedTyings;
#define ARGS const U2 &conn, const U2 &dofs, const Sp &Cdu, const Sp &Cdp, const Sp &Cdi
#define MK V v(conn, dofs, Cdu, Cdp, Cdi)
size_t nnu(ARGS) { MK; return v.nnu(); }
size_t nnp(ARGS) { MK; return v.nnp(); }
size_t nni(ARGS) { MK; return v.nni(); }
size_t nnd(ARGS) { MK; return v.nnd(); }
U1 iiu(ARGS) { MK; return v.iiu(); }
U1 iip(ARGS) { MK; return v.iip(); }
U1 iii(ARGS) { MK; return v.iii(); }
U1 iid(ARGS) { MK; return v.iid(); }
void copy_p(ARGS, const D1& s, D1& d) { MK; v.copy_p(s, d); }
D1 AsDofs_i(ARGS, const D2& x) { MK; return v.AsDofs_i(x); }
void asDofs_i(ARGS, const D2& x, D1& r, bool apply) { MK; v.asDofs_i(x, r, apply); }
void asDofs_i_default(ARGS, const D2& x, D1& r) { MK; v.asDofs_i(x, r); }
}
