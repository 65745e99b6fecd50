// What is reported about a translation unit does not depend on those analysed before it in the same process: the templates
// of names.cpp and rewrite.cpp, each after two others about the same check.
#include "h.h"
#include <map>
#undef rt_finish
#define rt_finish() return 0
namespace names
{
#include "names.cpp"
}
namespace rewrite
{
#include "rewrite.cpp"
}
#undef rt_finish
int main()
{
    names::main();
    rewrite::main();
    rt_finish();
}
