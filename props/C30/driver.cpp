// Verification driver for C30: the entry points of the properties of which the code has parallel loops.
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Iterate.h>
#define gfv gfv01
#include "../C01/driver.cpp"
#undef gfv
#define gfv gfv02
#include "../C02/driver.cpp"
#undef gfv
#define gfv gfv03
#include "../C03/driver.cpp"
#undef gfv
#undef ARGS
#undef MK
#define gfv gfv04
#include "../C04/driver.cpp"
#undef gfv
#undef ARGS
#undef MK
#define gfv gfv05
#include "../C05/driver.cpp"
#undef gfv
#define gfv gfv06
#include "../C06/driver.cpp"
#undef gfv
#define gfv gfv07
#include "../C07/driver.cpp"
#undef gfv
#define gfv gfv08
#include "../C08/driver.cpp"
#undef gfv
#define gfv gfv09
#include "../C09/driver.cpp"
#undef gfv
#define gfv gfv10
#include "../C10/driver.cpp"
#undef gfv
#define gfv gfv11
#include "../C11/driver.cpp"
#undef gfv
#define gfv gfv12
#include "../C12/driver.cpp"
#undef gfv
#undef ENTRIES
#define gfv gfv13
#include "../C13/driver.cpp"
#undef gfv
#undef ENTRIES
#define gfv gfv14
#include "../C14/driver.cpp"
#undef gfv
#undef ENTRIES
