// In-memory replacement of the iostream classes, for the solver encoding only.
// (Counterexamples are replayed on the real libstdc++ streams and real files.)
// Semantics follow [istream.unformatted], [ostream.unformatted] and [filebuf]:
//  - read past the end transfers what is there and sets eofbit|failbit;
//  - a state bit in the exceptions() mask makes the call throw ios_base::failure;
//  - one joint get/put position per file; writing past the end zero fills;
//  - `out` without `in`/`app` truncates; opening a missing file for input fails.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <ios>
#include <iosfwd>
#include <string>
#include <string_view>
#include <utility>
extern "C" {
[[noreturn]] void __vf_throw_ios();
uint64_t __vf_conc(uint64_t);
}
namespace vfshim {
struct File {
    std::string name;
    char* data = nullptr;
    size_t size = 0, cap = 0;
    File* next = nullptr;
};
File* find(const std::string& name, bool create);
// faults: the bytes of any file from these places on can not be written, or read
extern size_t no_write_from, no_read_from;
void put(File*, size_t pos, const char* p, size_t n);

struct Ios {
    using openmode = std::ios_base::openmode;
    using iostate = std::ios_base::iostate;
    using seekdir = std::ios_base::seekdir;
    using fmtflags = std::ios_base::fmtflags;
    using failure = std::ios_base::failure;
    using pos_type = std::streampos;
    using off_type = std::streamoff;
    using char_type = char;
    using int_type = int;
    using traits_type = std::char_traits<char>;
    static constexpr openmode in = std::ios_base::in, out = std::ios_base::out, binary = std::ios_base::binary,
                              app = std::ios_base::app, ate = std::ios_base::ate, trunc = std::ios_base::trunc;
    static constexpr iostate goodbit = std::ios_base::goodbit, badbit = std::ios_base::badbit, eofbit = std::ios_base::eofbit, failbit = std::ios_base::failbit;
    static constexpr seekdir beg = std::ios_base::beg, cur = std::ios_base::cur, end = std::ios_base::end;
    static constexpr fmtflags dec = std::ios_base::dec, hex = std::ios_base::hex, oct = std::ios_base::oct;

    unsigned st_ = 0, ex_ = 0;
    File* f_ = nullptr; // file streams
    size_t pos_ = 0;
    size_t gc_ = 0;
    unsigned mode_ = 0;
    std::string* s_ = nullptr; // string streams

    Ios() = default;
    Ios(const Ios&) = delete;
    Ios(Ios&& o) noexcept { take(o); }
    virtual ~Ios() { }
    void take(Ios& o) noexcept
    {
        st_ = o.st_; ex_ = o.ex_; f_ = o.f_; pos_ = o.pos_; gc_ = o.gc_; mode_ = o.mode_;
        o.f_ = nullptr; o.pos_ = 0; o.gc_ = 0; o.mode_ = 0;
    }
    void swp(Ios& o) noexcept
    {
        std::swap(st_, o.st_); std::swap(ex_, o.ex_); std::swap(f_, o.f_); std::swap(pos_, o.pos_); std::swap(gc_, o.gc_); std::swap(mode_, o.mode_);
    }
    void set_(unsigned b) { st_ |= b; if (st_ & ex_) __vf_throw_ios(); }
    iostate rdstate() const { return iostate(st_); }
    void setstate(iostate s) { set_(unsigned(s)); }
    void clear(iostate s = std::ios_base::goodbit) { st_ = unsigned(s); if (st_ & ex_) __vf_throw_ios(); }
    bool good() const { return st_ == 0; }
    bool eof() const { return st_ & unsigned(std::ios_base::eofbit); }
    bool fail() const { return st_ & unsigned(std::ios_base::failbit | std::ios_base::badbit); }
    bool bad() const { return st_ & unsigned(std::ios_base::badbit); }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    iostate exceptions() const { return iostate(ex_); }
    void exceptions(iostate e) { ex_ = unsigned(e); if (st_ & ex_) __vf_throw_ios(); }
    fmtflags flags() const { return fmtflags(); }
    fmtflags setf(fmtflags) { return fmtflags(); }
    std::streamsize width(std::streamsize = 0) { return 0; }
    std::streamsize precision(std::streamsize = 0) { return 6; }
    size_t size_() const { return f_ ? f_->size : s_ ? s_->size() : 0; }
    const char* data_() const { return f_ ? f_->data : s_ ? s_->data() : nullptr; }
    bool open_() const { return f_ || s_; }
    bool seek_(int64_t off, int dir)
    {
        if (!open_()) return false;
        int64_t b = dir == 0 ? 0 : dir == 1 ? (int64_t)pos_ : (int64_t)size_();
        int64_t n = b + off;
        if (n < 0) return false;
        pos_ = (size_t)n;
        return true;
    }
};
}
namespace std {
template <> class basic_istream<char, char_traits<char>> : public virtual vfshim::Ios {
public:
    basic_istream() = default;
    size_t xfer_(char* p, size_t n)
    {
        size_t sz = size_();
        pos_ = __vf_conc(pos_);
        size_t av = pos_ < sz ? sz - pos_ : 0;
        n = n < av ? n : __vf_conc(n < av ? n : av);
        if (f_ && pos_ + n > vfshim::no_read_from) { // a read error
            gc_ = 0;
            set_(unsigned(ios_base::badbit));
            return 0;
        }
        if (n) memcpy(p, data_() + pos_, n);
        pos_ += n;
        return n;
    }
    bool rd_() const { return open_() && (mode_ & unsigned(ios_base::in)); }
    basic_istream& read(char* p, streamsize n)
    {
        gc_ = 0;
        if (st_) { set_(unsigned(ios_base::failbit)); return *this; }
        if (!rd_() || n < 0) { if (n > 0 || n < 0) set_(unsigned(ios_base::failbit | ios_base::eofbit)); return *this; }
        size_t want = (size_t)n;
        gc_ = xfer_(p, want);
        if (gc_ != want && !bad()) set_(unsigned(ios_base::eofbit | ios_base::failbit));
        return *this;
    }
    streamsize readsome(char* p, streamsize n) { gc_ = 0; if (st_) { set_(unsigned(ios_base::failbit)); return 0; } if (rd_()) gc_ = xfer_(p, (size_t)n); return (streamsize)gc_; }
    streamsize gcount() const { return (streamsize)gc_; }
    int get()
    {
        gc_ = 0;
        if (st_) { set_(unsigned(ios_base::failbit)); return -1; }
        char c;
        if (!rd_() || !(gc_ = xfer_(&c, 1))) { set_(unsigned(ios_base::eofbit | ios_base::failbit)); return -1; }
        return (unsigned char)c;
    }
    basic_istream& get(char& c) { int k = get(); if (gc_) c = (char)k; return *this; }
    int peek()
    {
        gc_ = 0;
        if (st_) { set_(unsigned(ios_base::failbit)); return -1; }
        char c; size_t save = pos_;
        if (!rd_() || !xfer_(&c, 1)) { set_(unsigned(ios_base::eofbit)); return -1; }
        pos_ = save;
        return (unsigned char)c;
    }
    basic_istream& unget() { st_ &= ~unsigned(ios_base::eofbit); if (st_ || !pos_) { set_(unsigned(ios_base::badbit)); return *this; } --pos_; return *this; }
    basic_istream& ignore(streamsize n = 1, int delim = -1)
    {
        gc_ = 0;
        if (st_) { set_(unsigned(ios_base::failbit)); return *this; }
        if (delim < 0) {
            pos_ = __vf_conc(pos_);
            size_t sz = size_(), av = pos_ < sz ? sz - pos_ : 0, want = (size_t)n, k = want < av ? want : av;
            pos_ += k; gc_ = k;
            if (k < want) set_(unsigned(ios_base::eofbit));
        } else
            for (streamsize i = 0; i < n; ++i) { char c; if (!xfer_(&c, 1)) { set_(unsigned(ios_base::eofbit)); break; } ++gc_; if ((unsigned char)c == (unsigned)delim) break; }
        return *this;
    }
    pos_type tellg() { if (st_) set_(unsigned(ios_base::failbit)); if (fail() || !open_()) return pos_type(-1); return pos_type((streamoff)pos_); }
    basic_istream& seekg(pos_type p) { clear(ios_base::iostate(st_ & ~unsigned(ios_base::eofbit))); if (!fail() && !seek_((streamoff)p, 0)) set_(unsigned(ios_base::failbit)); return *this; }
    basic_istream& seekg(streamoff o, ios_base::seekdir d) { clear(ios_base::iostate(st_ & ~unsigned(ios_base::eofbit))); if (!fail() && !seek_(o, (int)d)) set_(unsigned(ios_base::failbit)); return *this; }
    int sync() { return 0; }
};
template <> class basic_ostream<char, char_traits<char>> : public virtual vfshim::Ios {
public:
    basic_ostream() = default;
    bool wr_() const { return open_() && (mode_ & unsigned(ios_base::out)); }
    basic_ostream& write(const char* p, streamsize n)
    {
        if (st_) { if (bad()) set_(unsigned(ios_base::failbit)); return *this; }
        if (!wr_() || n < 0) { if (n) set_(unsigned(ios_base::badbit)); return *this; }
        if (s_) { s_->append(p, (size_t)n); return *this; }
        pos_ = __vf_conc(pos_);
        if (mode_ & unsigned(ios_base::app)) pos_ = f_->size;
        n = (streamsize)__vf_conc((size_t)n);
        if (pos_ + (size_t)n > vfshim::no_write_from) { set_(unsigned(ios_base::badbit)); return *this; }
        vfshim::put(f_, pos_, p, (size_t)n);
        pos_ += (size_t)n;
        return *this;
    }
    basic_ostream& put(char c) { return write(&c, 1); }
    basic_ostream& flush() { return *this; }
    pos_type tellp() { if (fail() || !open_()) return pos_type(-1); return pos_type((streamoff)pos_); }
    basic_ostream& seekp(pos_type p) { if (!fail() && !seek_((streamoff)p, 0)) set_(unsigned(ios_base::failbit)); return *this; }
    basic_ostream& seekp(streamoff o, ios_base::seekdir d) { if (!fail() && !seek_(o, (int)d)) set_(unsigned(ios_base::failbit)); return *this; }
    basic_ostream& num_(unsigned long long v, bool neg)
    {
        char b[24]; int i = 24;
        v = __vf_conc(v);
        do { b[--i] = char('0' + v % 10); v /= 10; } while (v);
        if (neg) b[--i] = '-';
        return write(b + i, 24 - i);
    }
    basic_ostream& operator<<(long long v) { v = (long long)__vf_conc((uint64_t)v); return v < 0 ? num_(0ULL - (unsigned long long)v, true) : num_((unsigned long long)v, false); }
    basic_ostream& operator<<(unsigned long long v) { return num_(v, false); }
    basic_ostream& operator<<(int v) { return *this << (long long)v; }
    basic_ostream& operator<<(long v) { return *this << (long long)v; }
    basic_ostream& operator<<(short v) { return *this << (long long)v; }
    basic_ostream& operator<<(unsigned v) { return *this << (unsigned long long)v; }
    basic_ostream& operator<<(unsigned long v) { return *this << (unsigned long long)v; }
    basic_ostream& operator<<(unsigned short v) { return *this << (unsigned long long)v; }
    basic_ostream& operator<<(bool v) { return *this << (unsigned long long)v; }
    basic_ostream& operator<<(double) { return write("<fp>", 4); }
    basic_ostream& operator<<(const void*) { return write("<ptr>", 5); }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
};
inline ostream& operator<<(ostream& o, char c) { return o.put(c); }
inline ostream& operator<<(ostream& o, signed char c) { return o.put((char)c); }
inline ostream& operator<<(ostream& o, unsigned char c) { return o.put((char)c); }
inline ostream& operator<<(ostream& o, const char* s) { return o.write(s, (streamsize)strlen(s)); }
inline ostream& operator<<(ostream& o, const string& s) { return o.write(s.data(), (streamsize)s.size()); }
inline ostream& operator<<(ostream& o, string_view s) { return o.write(s.data(), (streamsize)s.size()); }
inline ostream& endl(ostream& o) { return o.put('\n'); }
inline ostream& ends(ostream& o) { return o.put('\0'); }
inline ostream& flush(ostream& o) { return o; }
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {
public:
    basic_iostream() = default;
};
namespace __vfd {
inline void open(vfshim::Ios& s, const string& n, unsigned m)
{
    const unsigned in = unsigned(ios_base::in), out = unsigned(ios_base::out), app = unsigned(ios_base::app), tr = unsigned(ios_base::trunc), ate = unsigned(ios_base::ate);
    if (s.f_ || !(m & (in | out | app)) || ((m & tr) && !(m & out))) { s.set_(unsigned(ios_base::failbit)); return; }
    bool create = !(m & in) || (m & (tr | app));
    vfshim::File* f = vfshim::find(n, create);
    if (!f) { s.set_(unsigned(ios_base::failbit)); return; }
    if ((m & tr) || ((m & out) && !(m & (in | app)))) f->size = 0;
    s.f_ = f; s.pos_ = 0; s.mode_ = m | ((m & app) ? out : 0u);
    if (m & ate) s.pos_ = f->size;
    s.st_ = 0;
}
}
#define VF_FILESTREAM(CLS, BASE, DEF, ADD)                                                                    \
    template <> class CLS<char, char_traits<char>> : public BASE<char> {                                       \
    public:                                                                                                    \
        CLS() { }                                                                                              \
        explicit CLS(const string& n, ios_base::openmode m = DEF) { open(n, m); }                              \
        explicit CLS(const char* n, ios_base::openmode m = DEF) { open(n, m); }                                \
        CLS(CLS&& o) { take(o); }                                                                              \
        CLS& operator=(CLS&& o) { swp(o); o.f_ = nullptr; return *this; }                                      \
        void swap(CLS& o) { swp(o); }                                                                          \
        void open(const string& n, ios_base::openmode m = DEF) { __vfd::open(*this, n, unsigned(m | (ADD))); } \
        void open(const char* n, ios_base::openmode m = DEF) { __vfd::open(*this, n, unsigned(m | (ADD))); }   \
        bool is_open() const { return f_ != nullptr; }                                                         \
        void close() { if (!f_) set_(unsigned(ios_base::failbit)); f_ = nullptr; pos_ = 0; }                   \
    }
VF_FILESTREAM(basic_fstream, basic_iostream, ios_base::in | ios_base::out, ios_base::openmode(0));
VF_FILESTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in);
VF_FILESTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out);
#define VF_STRSTREAM(CLS, BASE)                                                                                \
    template <> class CLS<char, char_traits<char>, allocator<char>> : public BASE<char> {                      \
        string buf_;                                                                                           \
    public:                                                                                                    \
        CLS() { s_ = &buf_; mode_ = unsigned(ios_base::in | ios_base::out); }                                  \
        explicit CLS(const string& s) : buf_(s) { s_ = &buf_; mode_ = unsigned(ios_base::in | ios_base::out); } \
        string str() const { return buf_; }                                                                    \
        void str(const string& s) { buf_ = s; pos_ = 0; }                                                      \
        string_view view() const { return buf_; }                                                              \
    }
VF_STRSTREAM(basic_ostringstream, basic_ostream);
VF_STRSTREAM(basic_istringstream, basic_istream);
VF_STRSTREAM(basic_stringstream, basic_iostream);
inline istream& getline(istream& i, string& s, char d = '\n')
{
    s.clear();
    for (;;) { int c = i.get(); if (c < 0) { if (!s.empty()) i.clear(ios_base::eofbit); break; } if (c == (unsigned char)d) break; s.push_back((char)c); }
    return i;
}
// the standard streams: write only, nothing observable
inline ostream __vf_cout, __vf_cerr, __vf_clog;
#define VF_STD(n) inline ostream& n = __vf_##n;
VF_STD(cout) VF_STD(cerr) VF_STD(clog)
struct _Setw { int n; };
inline _Setw setw(int n) { return { n }; }
struct _Setfill { char c; };
inline _Setfill setfill(char c) { return { c }; }
struct _Setprecision { int n; };
inline _Setprecision setprecision(int n) { return { n }; }
inline ostream& operator<<(ostream& o, _Setw) { return o; }
inline ostream& operator<<(ostream& o, _Setfill) { return o; }
inline ostream& operator<<(ostream& o, _Setprecision) { return o; }
}
