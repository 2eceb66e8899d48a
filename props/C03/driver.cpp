// Verification driver for C03: the public entry points under contract.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using B2 = xt::xtensor<bool, 2>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using V = GooseFEM::VectorPartitioned;
#define ARGS const U2 &conn, const U2 &dofs, const U1 &iip
#define MK V v(conn, dofs, iip)
U1 iiu(ARGS) { MK; return v.iiu(); }
U1 iip_(ARGS) { MK; return v.iip(); }
size_t nnu(ARGS) { MK; return v.nnu(); }
size_t nnp(ARGS) { MK; return v.nnp(); }
B2 dofs_is_u(ARGS) { MK; return v.dofs_is_u(); }
B2 dofs_is_p(ARGS) { MK; return v.dofs_is_p(); }
D2 Copy_u(ARGS, const D2& s, const D2& d) { MK; return v.Copy_u(s, d); }
D2 Copy_p(ARGS, const D2& s, const D2& d) { MK; return v.Copy_p(s, d); }
void copy_u(ARGS, const D2& s, D2& d) { MK; v.copy_u(s, d); }
void copy_p(ARGS, const D2& s, D2& d) { MK; v.copy_p(s, d); }
D1 AsDofs_u_dofval(ARGS, const D1& x) { MK; return v.AsDofs_u(x); }
D1 AsDofs_p_dofval(ARGS, const D1& x) { MK; return v.AsDofs_p(x); }
D1 AsDofs_u_nodevec(ARGS, const D2& x) { MK; return v.AsDofs_u(x); }
D1 AsDofs_p_nodevec(ARGS, const D2& x) { MK; return v.AsDofs_p(x); }
D1 AsDofs_u_elemvec(ARGS, const D3& x) { MK; return v.AsDofs_u(x); }
D1 AsDofs_p_elemvec(ARGS, const D3& x) { MK; return v.AsDofs_p(x); }
void asDofs_u_dofval(ARGS, const D1& x, D1& r) { MK; v.asDofs_u(x, r); }
void asDofs_p_dofval(ARGS, const D1& x, D1& r) { MK; v.asDofs_p(x, r); }
void asDofs_u_nodevec(ARGS, const D2& x, D1& r) { MK; v.asDofs_u(x, r); }
void asDofs_p_nodevec(ARGS, const D2& x, D1& r) { MK; v.asDofs_p(x, r); }
void asDofs_u_elemvec(ARGS, const D3& x, D1& r) { MK; v.asDofs_u(x, r); }
void asDofs_p_elemvec(ARGS, const D3& x, D1& r) { MK; v.asDofs_p(x, r); }
D1 DofsFromParitioned(ARGS, const D1& u, const D1& p) { MK; return v.DofsFromParitioned(u, p); }
D2 NodeFromPartitioned(ARGS, const D1& u, const D1& p) { MK; return v.NodeFromPartitioned(u, p); }
D3 ElementFromPartitioned(ARGS, const D1& u, const D1& p) { MK; return v.ElementFromPartitioned(u, p); }
void dofsFromParitioned(ARGS, const D1& u, const D1& p, D1& r) { MK; v.dofsFromParitioned(u, p, r); }
void nodeFromPartitioned(ARGS, const D1& u, const D1& p, D2& r) { MK; v.nodeFromPartitioned(u, p, r); }
void elementFromPartitioned(ARGS, const D1& u, const D1& p, D3& r) { MK; v.elementFromPartitioned(u, p, r); }
}
