// What a program does before main() is reached, in a constructor of a global object, works like it does later:
// the library's own globals may not have been initialised yet.
#include "work.h"
typedef fr::Socket::Status S;
extern "C" { int frv_early = 1; }       // the engine lets constructors have inputs
struct Early
{
    unsigned op; std::string in, out;
    Early()
    {
        work_init();
        op = sym_choose(OPS, "operation");
        in = sym_string(sym_param("N", 2), "data");
        for(char &c : in) sym_assume((c >= 'a') & (c <= 'f'));
        out = work(op, in);
    }
};
static Early early;
int main()
{
    sym_observe_bytes("out", early.out.data(), early.out.size());
    std::string now = work(early.op, early.in);
    sym_check(!now.empty() && same_str(early.out, now), "what is done before main() works like it does later");
    sym_reach("done");
    return 0;
}
