// Sha1::sha1_digest against FIPS 180-4, for every message of the given lengths.
#include <frnetlib/Sha1.h>
#include <vector>
#include "sym.h"
static uint32_t rol(uint32_t v, int n) { return v << n | v >> (32 - n); }
static void ref(const std::string &m, unsigned char out[20])
{
    std::vector<unsigned char> p(m.begin(), m.end());
    p.push_back(0x80);
    while(p.size() % 64 != 56) p.push_back(0);
    uint64_t bits = (uint64_t)m.size() * 8;
    for(int i = 7; i >= 0; i--) p.push_back((unsigned char)(bits >> (8 * i)));
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    for(size_t o = 0; o < p.size(); o += 64)
    {
        uint32_t w[80];
        for(int t = 0; t < 16; t++) w[t] = (uint32_t)p[o + 4 * t] << 24 | (uint32_t)p[o + 4 * t + 1] << 16 | (uint32_t)p[o + 4 * t + 2] << 8 | p[o + 4 * t + 3];
        for(int t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for(int t = 0; t < 80; t++)
        {
            uint32_t f, k;
            if(t < 20) { f = (b & c) ^ (~b & d); k = 0x5a827999; }
            else if(t < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
            else if(t < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdc; }
            else { f = b ^ c ^ d; k = 0xca62c1d6; }
            uint32_t T = rol(a, 5) + f + e + k + w[t];
            e = d; d = c; c = rol(b, 30); b = a; a = T;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    for(int i = 0; i < 20; i++) out[i] = (unsigned char)(h[i / 4] >> (24 - 8 * (i % 4)));
}
int main()
{
    size_t n = sym_param("LEN", 1000) != 1000 ? sym_param("LEN", 0) : sym_choose(sym_param("MAX", 130) + 1, "len");
    std::string m = sym_string(n, "msg");
    std::string d = fr::Sha1::sha1_digest(m);
    sym_observe_str("digest", d);
    sym_check(d.size() == 20, "digest has 20 bytes");
    unsigned char r[20];
    ref(m, r);
    sym_check(same_bytes(d.data(), r, 20), "digest is the FIPS 180-4 SHA-1 of the message");
    sym_reach("done");
    return 0;
}
