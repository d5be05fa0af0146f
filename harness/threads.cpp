// Two threads, each with objects of its own, do any two things at the same time: nothing they share is used without
// synchronisation, and each gets what it would have got alone.
#include "work.h"
struct Task { unsigned op; std::string in; Kernel *k; Tls *t; std::string out; };
static void run(void *p)
{
    Task &t = *(Task*)p;
    frv_kernel = t.k; frv_tls = t.t;
    t.out = work(t.op, t.in);
}
int main()
{
    Task t[2];
    work_init();
    for(unsigned i = 0; i < 2; i++)
    {
        t[i].op = sym_choose(OPS, "operation");
        t[i].in = sym_string(sym_param("N", 2), "data");
        for(char &c : t[i].in) sym_assume((c >= 'a') & (c <= 'f'));
        t[i].k = &frv_kernels[1 + i]; t[i].t = &frv_tlss[1 + i];
    }
    sym_threads(run, &t[0], run, &t[1]);
    for(unsigned i = 0; i < 2; i++)
    {
        std::string alone = work(t[i].op, t[i].in);
        sym_observe("size", t[i].out.size());        sym_observe_bytes("o", t[i].out.data(), t[i].out.size());
        sym_check(!alone.empty() && same_str(t[i].out, alone), "each thread gets what it would have got alone");
    }
    sym_reach("done");
    return 0;
}
