// Conversion to and from network byte order
#include <frnetlib/NetworkEncoding.h>
#include "sym.h"
int main()
{
    unsigned k = sym_choose(3, "type");
    if(k == 0)
    {
        uint32_t b = sym_val<uint32_t>("float"); float f, n, back; memcpy(&f, &b, 4);
        // checked as bytes: a value which is passed around as a float must not change
        n = fr::htonf(f); unsigned char o[4]; memcpy(o, &n, 4);
        for(int i = 0; i < 4; i++) sym_check(o[i] == (unsigned char)(b >> (24 - 8 * i)), "the most significant byte comes first");
        back = fr::ntohf(n); uint32_t r; memcpy(&r, &back, 4);
        sym_observe("float", r);
        sym_check(r == b, "a float survives");
        sym_reach("float");
    }
    else if(k == 1)
    {
        uint64_t b = sym_val<uint64_t>("double"); double d, n, back; memcpy(&d, &b, 8);
        n = fr::htond(d); unsigned char o[8]; memcpy(o, &n, 8);
        for(int i = 0; i < 8; i++) sym_check(o[i] == (unsigned char)(b >> (56 - 8 * i)), "the most significant byte comes first");
        back = fr::ntohd(n); uint64_t r; memcpy(&r, &back, 8);
        sym_observe("double", r);
        sym_check(r == b, "a double survives");
        sym_reach("double");
    }
    else
    {
        uint64_t b = sym_val<uint64_t>("int"), n = fr_htonll(b); unsigned char o[8]; memcpy(o, &n, 8);
        for(int i = 0; i < 8; i++) sym_check(o[i] == (unsigned char)(b >> (56 - 8 * i)), "the most significant byte comes first");
        sym_observe("int", fr_ntohll(n));
        sym_check(fr_ntohll(n) == b, "an integer survives");
        sym_reach("int");
    }
    sym_reach("done");
    return 0;
}
