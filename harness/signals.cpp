// Signals, slots and connections: what names.cpp has on the checks about them (family 3), and incorrect-emit.
#include "h.h"
#include <map>
#undef rt_finish
#define rt_finish() return 0
namespace names
{
#include "names.cpp"
}
namespace emits
{
#include "emits.cpp"
}
#undef rt_finish
int main()
{
    names::main();
    emits::main();
    rt_finish();
}
