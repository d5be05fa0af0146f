// SSLContext: its random number generator is seeded, or it can't be made; certificates are handed to mbed TLS the way
// it wants them and added to the same chain; the result is mbed TLS's.
#include <frnetlib/SSLContext.h>
#include "tls.h"
static const char begin[] = "-----BEGIN CERTIFICATE-----", end[] = "-----END CERTIFICATE-----";
static std::string text(size_t n, const char *name) { std::string s = sym_string(n, name); for(char c : s) sym_assume((c != 0) & (c != '-')); return s; }
int main()
{
    kernel_init();
    K.faults = sym_param("FAULTS", 1);
    unsigned N = sym_param("N", 3), steps = sym_param("STEPS", 2), faults = K.faults;
    {
        std::unique_ptr<fr::SSLContext> c;
        try { c.reset(new fr::SSLContext()); }
        catch(const std::runtime_error &)
        {
            sym_check(K.faults < faults, "a context can be made unless a call fails");
            sym_check(T.crts == 0 && T.drbgs == 0 && T.entropies == 0, "a context which can't be made keeps nothing");
            sym_reach("no context");
            return 0;
        }
        sym_check(K.faults == faults, "a context without a random number generator isn't made");
        sym_check(T.seeded == &c->ctr_drbg && T.seeder == &c->entropy, "its own generator is seeded from its own source");
        sym_check(T.crts == 1 && T.drbgs == 1 && T.entropies == 1, "everything is initialised once");
        for(unsigned i = 0; i < steps; i++)
        {
            unsigned before = T.parses; bool ok;
            unsigned kind = sym_choose(4, "kind");
            if(kind == 0)
            {
                std::string path = text(sym_choose(N + 1, "path length"), "path");
                ok = c->load_ca_certs_from_file(path);
                sym_check(same_str(T.crt_path, path), "the given file is loaded");
                sym_reach("file");
            }
            else
            {
                std::string d;
                if(kind == 1) { d = text(sym_choose(N + 1, "comment length"), "comment"); d += begin; d += text(N, "certificate"); d += end; d += text(sym_choose(N + 1, "end length"), "end"); if(sym_choose(2, "null")) d.push_back('\0'); }
                else { d = sym_string(sym_choose(N + 1, "length"), "data"); if(kind == 2) d = '\x30' + d; else if(!d.empty()) sym_assume(d[0] != 0x30); }
                ok = c->load_ca_certs_from_memory(d);
                size_t n = T.parsed.size();
                sym_check(n == d.size() || (n == d.size() + 1 && T.parsed[n - 1] == 0), "all of the data is parsed");
                sym_check(n >= d.size() && same_bytes(T.parsed.data(), d.data(), d.size()), "as it is");
                if(kind == 1) { sym_check(n && T.parsed[n - 1] == 0, "and in the form of a PEM file"); sym_reach("PEM"); }
                if(kind == 2) sym_reach("DER");
                if(kind == 3) { sym_check(!ok, "what isn't a certificate is refused"); sym_reach("neither"); }
            }
            sym_observe("ok", ok);
            sym_check(T.parses == before + 1 && T.parsed_into == &c->cacert, "certificates are added to the chain once");
            sym_check(ok == (T.parse_result == 0), "it succeeds if and only if every certificate could be parsed");
            if(!ok) sym_reach("refused");
            sym_check(T.crts == 1 && T.drbgs == 1 && T.entropies == 1, "and the ones before are kept");
        }
    }
    sym_check(T.crts == 0 && T.drbgs == 0 && T.entropies == 0 && K.bad == 0 && K.live() == 0, "destruction frees everything, once");
    sym_reach("done");
    return 0;
}
