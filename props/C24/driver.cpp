// Verification driver for C24: the public entry points under contract.
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/TyingsPeriodic.h>
namespace gfv {
using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using D2 = xt::xtensor<double, 2>;
using Sp = Eigen::SparseMatrix<double>;
using GooseFEM::Tyings::Control;
using GooseFEM::Tyings::Periodic;

Periodic make(const D2& coor, const U2& dofs, const U2& control, const U2& tyings, const U1& iip) { return Periodic(coor, dofs, control, tyings, iip); }
Periodic make_default(const D2& coor, const U2& dofs, const U2& control, const U2& tyings) { return Periodic(coor, dofs, control, tyings); }
size_t nnd(const Periodic& t) { return t.nnd(); }
size_t nni(const Periodic& t) { return t.nni(); }
size_t nnu(const Periodic& t) { return t.nnu(); }
size_t nnp(const Periodic& t) { return t.nnp(); }
U2 dofs(const Periodic& t) { return t.dofs(); }
U2 control(const Periodic& t) { return t.control(); }
U2 nodal_tyings(const Periodic& t) { return t.nodal_tyings(); }
U1 iid(const Periodic& t) { return t.iid(); }
U1 iii(const Periodic& t) { return t.iii(); }
U1 iiu(const Periodic& t) { return t.iiu(); }
U1 iip(const Periodic& t) { return t.iip(); }
Sp Cdi(const Periodic& t) { return t.Cdi(); }
Sp Cdu(const Periodic& t) { return t.Cdu(); }
Sp Cdp(const Periodic& t) { return t.Cdp(); }

Control make_control(const D2& coor, const U2& dofs) { return Control(coor, dofs); }
D2 control_coor(const Control& c) { return c.coor(); }
U2 control_dofs(const Control& c) { return c.dofs(); }
U2 control_controlDofs(const Control& c) { return c.controlDofs(); }
U1 control_controlNodes(const Control& c) { return c.controlNodes(); }
}
