import prove
import spec
from spec import *

FLAGS = ["-fopenmp", "-DEIGEN_DONT_PARALLELIZE"]
HARNESS = [("harness.cpp", FLAGS), ("harness.cpp", FLAGS + ["-DGFV_TSAN=1", "-fsanitize=thread"], "optional")]
HSECONDS = 12
EXPLANATION = ("Every work-sharing loop that is reached by the contracts of C01-C14 is executed symbolically in order; for every shared array that its iterations modify the "
               "obligation is that two different iterations never touch the same entry, unless they write equal values (consistent data: one value per DOF), and that no "
               "iteration reads what another one writes; shared scalars may not be modified. Variables declared inside the region are private.")
TRUSTED = ["OpenMP semantics: iterations of a work-sharing loop run in any order and concurrently, a region ends with a barrier; equal values written concurrently to one entry are taken to be harmless",
           "Element.h: the loops of QuadratureBaseCartesian::int_N_scalar_NT_dV_impl and int_gradN_dot_tensor2_dV_impl are not instantiated by any class (all override them), and not covered"]
BOUNDED = "schedules: coroutines in a random order, and real threads under ThreadSanitizer"
PIDS = ["C%02d" % i for i in range(1, 15)]


def wrap(pid, f):
    def g(S):
        S.ns, S.mute, S.consistent = "gfv%s::" % pid[1:], True, True
        f(S)
        S.mute = False
        S.independent("the iterations of every parallel loop are independent")
        S.mute = True
    return g


def quick(pid, name):
    """(every parallel loop is in one of these; the other contracts reach the same loops in other histories)"""
    if pid == "C10":
        return "interface" in name
    if pid == "C13":
        return "Hex8" not in name or name.endswith(("total mass", "virtual work", "transpose of interpolation"))
    return name not in ("assemble again",)


_own = list(spec.CONTRACTS)
for _p in PIDS:
    for _c in prove.load_contracts(_p)[1]:
        _own.append((_p + " " + _c[0], wrap(_p, _c[1]), _c[2], _c[3] if quick(_p, _c[0]) else "thorough"))
spec.CONTRACTS[:] = _own
