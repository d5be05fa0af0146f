// Headers, GET and POST variables are a map from names in any case to values, whichever calls are made.
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include "tokens.h"
int main()
{
    unsigned N = sym_param("N", 2), STEPS = sym_param("STEPS", 3);
    fr::HttpRequest req; fr::HttpResponse res;
    fr::Http &h = sym_choose(2, "message") ? (fr::Http&)res : (fr::Http&)req;
    static const struct { std::string &(fr::Http::*ref)(std::string); bool (fr::Http::*exists)(std::string) const; } acc[] = {
        {&fr::Http::header, &fr::Http::header_exists}, {&fr::Http::get, &fr::Http::get_exists}, {&fr::Http::post, &fr::Http::post_exists}};
    struct Ent { unsigned k; std::string n, v; } ent[8]; unsigned ents = 0;
    for(unsigned i = 0; i < STEPS; i++)
    {
        unsigned k = sym_choose(3, "kind"), op = sym_choose(3, "operation");
        std::string name = token(0, N, "", "name", true), l = lower(name);
        Ent *e = nullptr;
        for(unsigned j = 0; j < ents; j++) if(ent[j].k == k && same_str(ent[j].n, l)) e = &ent[j];
        if(op == 0) { sym_check((h.*acc[k].exists)(name) == (e != nullptr), "a name exists if it has been set, in any case"); sym_reach(e ? "exists" : "missing"); continue; }
        std::string &v = (h.*acc[k].ref)(name);
        sym_check(same_str(v, e ? e->v : std::string()), "the value is the one which has been set, or empty");
        if(!e) { e = &ent[ents++]; *e = Ent{k, l, std::string()}; }
        if(op == 1) { std::string nv = sym_string(1, "value"); v = nv; e->v = nv; sym_reach("set"); }
        for(unsigned j = 0; j < ents; j++) sym_check((h.*acc[ent[j].k].exists)(ent[j].n), "nothing else is lost");
    }
    sym_reach("done");
    return 0;
}
