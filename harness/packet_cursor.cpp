// The read cursor: any position or offset ends up inside of the packet, and reading continues from there.
#include <frnetlib/Packet.h>
#include "fake_socket.h"
int main()
{
    size_t n = sym_choose(sym_param("N", 5) + 1, "size");
    std::string data = sym_string(n, "data");
    fr::Packet p;
    unsigned how = sym_choose(2, "how");
    if(how == 0) p.add_raw(data.data(), data.size());
    else
    {
        // set_buffer takes a whole packet, header included; a shorter one is an empty packet
        unsigned cut = sym_choose(5, "header bytes");
        std::string b(cut, 'h');
        if(cut == 4) b += data; else n = 0;
        p.set_buffer(std::move(b));
    }
    sym_check(p.size() == n && p.get_cursor() == 0 && p.get_bytes_remaining() == n, "fresh packet");
    int64_t cur = 0;    // reference
    unsigned steps = sym_param("STEPS", 3);
    for(unsigned i = 0; i < steps; i++)
    {
        switch(sym_choose(5, "op"))
        {
            case 0: { size_t pos = sym_val<size_t>("pos"); p.set_cursor(pos); cur = pos > n ? n : pos; break; }
            case 1:
            {
                ssize_t off = sym_val<ssize_t>("off"); p.seek_cursor(off);
                if(off < -cur) cur = 0; else if(off > (int64_t)n - cur) cur = n; else cur += off;
                break;
            }
            case 2:
            {
                uint16_t v = 0; bool ok = true;
                cur = sym_concretize(cur);
                try { p >> v; } catch(const std::out_of_range &) { ok = false; }
                sym_check(ok == ((int64_t)n - cur >= 2), "a read succeeds iff enough bytes are left");
                if(ok) { sym_check(v == ((unsigned char)data[cur] << 8 | (unsigned char)data[cur + 1]), "a read gives the bytes at the cursor"); cur += 2; sym_reach("read"); }
                break;
            }
            case 3:
            {
                size_t need = sym_val<size_t>("need"); bool ok = true;
                try { p.assert_bytes_remaining(need); } catch(const std::out_of_range &) { ok = false; }
                sym_check(ok == (need <= n - (size_t)cur), "assert_bytes_remaining");
                break;
            }
            case 4:
            {
                // a failed read leaves the cursor where it was
                char out[16]; size_t need = sym_val<size_t>("length"); bool ok = true;
                cur = sym_concretize(cur);
                if(need <= n) need = sym_concretize(need);
                try { p.extract_raw(out, need); } catch(const std::out_of_range &) { ok = false; }
                sym_check(ok == (need <= n - (size_t)cur), "bytes are extracted iff there are enough of them");
                if(ok) { sym_check(std::string(out, need) == data.substr(cur, need), "the extracted bytes"); cur += need; sym_reach("extracted"); }
                break;
            }
        }
        sym_check(p.get_cursor() == (size_t)cur, "the cursor is where it should be");
        sym_check(p.get_bytes_remaining() == n - (size_t)cur, "bytes remaining");
        sym_check(p.size() == n, "moving the cursor doesn't change the packet");
    }
    sym_observe("cursor", p.get_cursor());
    sym_reach("done");
    return 0;
}
