// Small replacement for libstdc++'s iostreams, used only when compiling for the symbolic engine.
// (The native replay build uses the real ones.)
#ifndef FRV_IOS_H
#define FRV_IOS_H
#include <iosfwd>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <cctype>
#include <string>
#include <cstring>
#include <cstdint>
#include <cstddef>
namespace std
{
    typedef ptrdiff_t streamsize;
    class ios_base
    {
    public:
        typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
        static constexpr fmtflags dec = 2, hex = 8, oct = 64, basefield = 74, uppercase = 16384, showbase = 512, left = 32, right = 128, internal = 16, adjustfield = 176, boolalpha = 1, skipws = 4096, fixed = 4, scientific = 256, floatfield = 260;
        static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
        static constexpr seekdir beg = 0, cur = 1, end = 2;
        fmtflags fl_ = dec | skipws; streamsize wd_ = 0, pr_ = 6; char fi_ = ' '; iostate st_ = 0;
        fmtflags flags() const { return fl_; }
        fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
        fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
        fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
        void unsetf(fmtflags f) { fl_ &= ~f; }
        streamsize width() const { return wd_; }
        streamsize width(streamsize w) { streamsize o = wd_; wd_ = w; return o; }
        streamsize precision(streamsize w) { streamsize o = pr_; pr_ = w; return o; }
        virtual ~ios_base() {}
    };
    template<typename C, typename T> class basic_streambuf
    {
    public:
        basic_string<C> data_; size_t pos_ = 0;
        virtual ~basic_streambuf() {}
    };
    template<typename C, typename T> class basic_ios : public ios_base
    {
    public:
        bool good() const { return st_ == 0; }
        bool eof() const { return st_ & eofbit; }
        bool fail() const { return st_ & (failbit | badbit); }
        bool bad() const { return st_ & badbit; }
        iostate rdstate() const { return st_; }
        void clear(iostate s = goodbit) { st_ = s; }
        void setstate(iostate s) { st_ |= s; }
        explicit operator bool() const { return !fail(); }
        bool operator!() const { return fail(); }
        C fill() const { return fi_; }
        C fill(C c) { C o = fi_; fi_ = c; return o; }
    };
    template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T>
    {
    public:
        basic_string<C> *ob_ = nullptr;
        basic_ostream &put_(const C *s, size_t n)
        {
            size_t w = this->wd_ > 0 ? (size_t)this->wd_ : 0; this->wd_ = 0;
            if(!ob_) return *this;
            size_t pad = w > n ? w - n : 0; bool left = (this->fl_ & ios_base::adjustfield) == ios_base::left;
            if(!left) ob_->append(pad, this->fi_);
            ob_->append(s, n);
            if(left) ob_->append(pad, this->fi_);
            return *this;
        }
        basic_ostream &num_(uint64_t v, bool neg)
        {
            char b[80]; int i = 80; unsigned base = (this->fl_ & ios_base::hex) ? 16 : (this->fl_ & ios_base::oct) ? 8 : 10;
            const char *d = (this->fl_ & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
            do { b[--i] = d[v % base]; v /= base; } while(v);
            if((this->fl_ & ios_base::showbase) && base == 16) { b[--i] = (this->fl_ & ios_base::uppercase) ? 'X' : 'x'; b[--i] = '0'; }
            if(neg) b[--i] = '-';
            return put_(b + i, 80 - i);
        }
        template<typename I> basic_ostream &int_(I v) { bool dec = !(this->fl_ & (ios_base::hex | ios_base::oct)); if(dec && v < 0) return num_(0 - (uint64_t)v, true); return num_(sizeof(I) == 8 ? (uint64_t)v : (uint64_t)v & ((1ull << (8 * (sizeof(I) & 7))) - 1), false); }
        basic_ostream &operator<<(short v) { return int_(v); }
        basic_ostream &operator<<(unsigned short v) { return int_(v); }
        basic_ostream &operator<<(int v) { return int_(v); }
        basic_ostream &operator<<(unsigned v) { return int_(v); }
        basic_ostream &operator<<(long v) { return int_(v); }
        basic_ostream &operator<<(unsigned long v) { return int_(v); }
        basic_ostream &operator<<(long long v) { return int_(v); }
        basic_ostream &operator<<(unsigned long long v) { return int_(v); }
        basic_ostream &operator<<(bool v) { return (this->fl_ & ios_base::boolalpha) ? (v ? put_("true", 4) : put_("false", 5)) : int_((int)v); }
        basic_ostream &operator<<(const void *p) { return num_((uint64_t)p, false); }
        basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
        basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
        basic_ostream &write(const C *s, streamsize n) { if(ob_) ob_->append(s, n); return *this; }
        basic_ostream &put(C c) { if(ob_) ob_->push_back(c); return *this; }
        basic_ostream &flush() { return *this; }
    };
    template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T>
    {
    public:
        basic_string<C> *ib_ = nullptr; size_t ip_ = 0; streamsize gc_ = 0;
        size_t left_() const { return ib_ && ip_ < ib_->size() ? ib_->size() - ip_ : 0; }
        basic_istream &read(C *s, streamsize n)
        {
            gc_ = 0;
            if(!this->good()) { this->setstate(ios_base::failbit); return *this; }
            size_t k = left_() < (size_t)n ? left_() : (size_t)n;
            if(k) memcpy(s, ib_->data() + ip_, k);
            ip_ += k; gc_ = k;
            if(k < (size_t)n) this->setstate(ios_base::eofbit | ios_base::failbit);
            return *this;
        }
        streamsize readsome(C *s, streamsize n) { size_t k = left_() < (size_t)n ? left_() : (size_t)n; if(k) memcpy(s, ib_->data() + ip_, k); ip_ += k; gc_ = k; if(!k) this->setstate(ios_base::eofbit); return k; }
        streamsize gcount() const { return gc_; }
        int get() { gc_ = 0; if(!this->good() || !left_()) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; } gc_ = 1; return (unsigned char)(*ib_)[ip_++]; }
        basic_istream &get(C &c) { int v = get(); if(v >= 0) c = (C)v; return *this; }
        int peek() { if(!this->good()) return -1; if(!left_()) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)(*ib_)[ip_]; }
        basic_istream &ignore(streamsize n = 1, int delim = -1) { gc_ = 0; while(n-- > 0) { if(!left_()) { this->setstate(ios_base::eofbit); break; } int c = (unsigned char)(*ib_)[ip_++]; gc_++; if(c == delim) break; } return *this; }
        basic_istream &unget() { if(ip_) ip_--; return *this; }
        size_t tellg() const { return ip_; }
        basic_istream &seekg(size_t p) { this->st_ &= ~ios_base::eofbit; ip_ = p; return *this; }
        void ws_() { while(left_()) { C c = (*ib_)[ip_]; if(c == ' ' || (c >= 9 && c <= 13)) ip_++; else return; } }
        template<typename I> basic_istream &num_(I &out)
        {
            if(!this->good()) { this->setstate(ios_base::failbit); return *this; }
            if(this->fl_ & ios_base::skipws) ws_();
            bool neg = false, any = false, over = false; uint64_t v = 0; unsigned base = (this->fl_ & ios_base::hex) ? 16 : (this->fl_ & ios_base::oct) ? 8 : 10;
            if(left_() && ((*ib_)[ip_] == '-' || (*ib_)[ip_] == '+')) { neg = (*ib_)[ip_] == '-'; ip_++; }
            if(base == 16 && left_() >= 2 && (*ib_)[ip_] == '0' && ((*ib_)[ip_ + 1] | 32) == 'x') ip_ += 2;
            while(left_())
            {
                C c = (*ib_)[ip_]; unsigned d = 99;
                if(c >= '0' && c <= '9') d = c - '0'; else if(c >= 'a' && c <= 'f') d = c - 'a' + 10; else if(c >= 'A' && c <= 'F') d = c - 'A' + 10;
                if(d >= base) break;
                if(v > (~0ull - d) / base) over = true;
                v = v * base + d; any = true; ip_++;
            }
            if(!left_()) this->setstate(ios_base::eofbit);
            if(!any) { out = 0; this->setstate(ios_base::failbit); return *this; }
            constexpr bool sg = I(-1) < I(0); const uint64_t mx = sg ? (~0ull >> (65 - 8 * sizeof(I))) : (~0ull >> (64 - 8 * sizeof(I)));
            if(over || v > mx + (sg && neg ? 1 : 0)) { out = (I)(sg && neg ? mx + 1 : mx); this->setstate(ios_base::failbit); return *this; }
            out = (I)(neg ? 0 - v : v);
            return *this;
        }
        basic_istream &operator>>(short &v) { return num_(v); }
        basic_istream &operator>>(unsigned short &v) { return num_(v); }
        basic_istream &operator>>(int &v) { return num_(v); }
        basic_istream &operator>>(unsigned &v) { return num_(v); }
        basic_istream &operator>>(long &v) { return num_(v); }
        basic_istream &operator>>(unsigned long &v) { return num_(v); }
        basic_istream &operator>>(long long &v) { return num_(v); }
        basic_istream &operator>>(unsigned long long &v) { return num_(v); }
        basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
        basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
        basic_istream &getline(C *s, streamsize n, C d = '\n') { gc_ = 0; streamsize i = 0; while(left_() && i + 1 < n) { C c = (*ib_)[ip_++]; gc_++; if(c == d) { s[i] = 0; return *this; } s[i++] = c; } s[i] = 0; if(!left_()) this->setstate(ios_base::eofbit | (i ? 0 : ios_base::failbit)); else this->setstate(ios_base::failbit); return *this; }
    };
    template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};

    template<typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, const char *s) { return o.put_(s, strlen(s)); }
    template<typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, char c) { return o.put_(&c, 1); }
    template<typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, unsigned char c) { return o.put_((char*)&c, 1); }
    template<typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, signed char c) { return o.put_((char*)&c, 1); }
    inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const basic_string<char> &s) { return o.put_(s.data(), s.size()); }
    template<typename C, typename T> basic_istream<C, T> &operator>>(basic_istream<C, T> &i, C &c) { if(i.flags() & ios_base::skipws) i.ws_(); return i.get(c); }
    inline basic_istream<char> &operator>>(basic_istream<char> &i, basic_string<char> &s)
    {
        typedef char C;
        s.clear(); if(!i.good()) { i.setstate(ios_base::failbit); return i; }
        i.ws_(); while(i.left_()) { C c = (*i.ib_)[i.ip_]; if(c == ' ' || (c >= 9 && c <= 13)) break; s.push_back(c); i.ip_++; }
        if(!i.left_()) i.setstate(ios_base::eofbit); if(s.empty()) i.setstate(ios_base::failbit); return i;
    }
    inline basic_istream<char> &getline(basic_istream<char> &i, basic_string<char> &s, char d)
    {
        s.clear(); if(!i.good()) { i.setstate(ios_base::failbit); return i; }
        bool any = false;
        while(i.left_()) { char c = (*i.ib_)[i.ip_++]; any = true; if(c == d) return i; s.push_back(c); }
        i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit);
        return i;
    }
    inline basic_istream<char> &getline(basic_istream<char> &i, basic_string<char> &s) { return getline(i, s, '\n'); }
    template<typename C, typename T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
    template<typename C, typename T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
    template<typename C, typename T> basic_istream<C, T> &ws(basic_istream<C, T> &o) { o.ws_(); return o; }
    inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
    inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
    inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
    inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
    inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
    inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
    inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
    inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
    inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
    inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
    inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
    inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
    inline ios_base &fixed(ios_base &b) { return b; }
    struct frv_setw { int v; }; inline frv_setw setw(int n) { return {n}; }
    struct frv_setfill { char v; }; inline frv_setfill setfill(char c) { return {c}; }
    struct frv_setprec { int v; }; inline frv_setprec setprecision(int n) { return {n}; }
    struct frv_setbase { int v; }; inline frv_setbase setbase(int n) { return {n}; }
    template<typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, frv_setw s) { o.width(s.v); return o; }
    template<typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, frv_setfill s) { o.fill(s.v); return o; }
    template<typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, frv_setprec) { return o; }
    template<typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, frv_setbase s) { if(s.v == 16) hex(o); else if(s.v == 8) oct(o); else dec(o); return o; }
    template<typename C, typename T> basic_istream<C, T> &operator>>(basic_istream<C, T> &o, frv_setbase s) { if(s.v == 16) hex(o); else if(s.v == 8) oct(o); else dec(o); return o; }

_GLIBCXX_BEGIN_NAMESPACE_CXX11
    template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T>
    {
        basic_string<C> buf_;
    public:
        basic_istringstream() { this->ib_ = &buf_; }
        explicit basic_istringstream(const basic_string<C, T, A> &s, ios_base::openmode = ios_base::in) : buf_(s) { this->ib_ = &buf_; }
        basic_string<C> str() const { return buf_; }
        void str(const basic_string<C> &s) { buf_ = s; this->ip_ = 0; }
    };
    template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T>
    {
        basic_string<C> buf_;
    public:
        basic_ostringstream() { this->ob_ = &buf_; }
        explicit basic_ostringstream(const basic_string<C, T, A> &, ios_base::openmode = ios_base::out) { this->ob_ = &buf_; }
        explicit basic_ostringstream(ios_base::openmode) { this->ob_ = &buf_; }
        basic_string<C> str() const { return buf_; }
        void str(const basic_string<C> &s) { buf_ = s; }
    };
    template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T>
    {
        basic_string<C> buf_;
    public:
        basic_stringstream() { this->ib_ = this->ob_ = &buf_; }
        explicit basic_stringstream(const basic_string<C, T, A> &s, ios_base::openmode = ios_base::in | ios_base::out) : buf_(s) { this->ib_ = this->ob_ = &buf_; }
        explicit basic_stringstream(ios_base::openmode) { this->ib_ = this->ob_ = &buf_; }
        basic_string<C> str() const { return buf_; }
        void str(const basic_string<C> &s) { buf_ = s; this->ip_ = 0; }
    };
_GLIBCXX_END_NAMESPACE_CXX11
    // files never open
    template<typename C, typename T> class basic_ifstream : public basic_istream<C, T>
    {
    public:
        basic_ifstream() {}
        template<typename S> explicit basic_ifstream(const S &, ios_base::openmode = ios_base::in) { this->setstate(ios_base::failbit); }
        bool is_open() const { return false; } void close() {}
    };
    template<typename C, typename T> class basic_ofstream : public basic_ostream<C, T>
    {
    public:
        basic_ofstream() {}
        template<typename S> explicit basic_ofstream(const S &, ios_base::openmode = ios_base::out) { this->setstate(ios_base::failbit); }
        bool is_open() const { return false; } void close() {}
    };
    extern ostream cout, cerr, clog;
    extern istream cin;
    template<typename C, typename T> class istreambuf_iterator;
}
#endif
