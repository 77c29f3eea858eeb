// Stand-ins for the standard stream classes, on top of the file model in cli.cpp. Force-included in front of every source
// of the command line tool when it is compiled for the engine; the real headers are kept out by their guards.
#pragma once
#ifdef __cplusplus
#define _IOS_BASE_H 1
#define _BASIC_IOS_H 1
#define _GLIBXX_STREAMBUF 1
#define _LOCALE_FACETS_TCC 1
#define _LOCALE_FACETS_NONIO_TCC 1
#define _GLIBCXX_IOMANIP 1
#define _GLIBCXX_IOS 1
#define _GLIBCXX_ISTREAM 1
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_IOSTREAM 1
#define _GLIBCXX_FSTREAM 1
#define _GLIBCXX_SSTREAM 1
#define _OSTREAM_INSERT_H 1
#include <iosfwd>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
namespace std {
template<class C, class T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n);
}
#include <string>
#include <string_view>
#include <vector>

extern "C" {
int vpf_open(const char*, int read, int write, int trunc, int append);
long vpf_read(int, char*, long);      // -1: error
int vpf_write(int, const char*, long); // bytes to the disk; 0: error
int vpf_close(int);                   // 0: error
long vpf_seek(int, long, int);
}

namespace std {
class ios_base {
public:
    typedef unsigned openmode;
    typedef unsigned iostate;
    typedef unsigned fmtflags;
    typedef int seekdir;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    static constexpr fmtflags skipws = 1, hex = 2, dec = 4, oct = 8;
    class failure : public runtime_error { public: explicit failure(const char* s) : runtime_error(s) {} explicit failure(const string& s) : runtime_error(s) {} };
    struct Init {};
};

template<class C, class T> class basic_streambuf {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    int fd = -1;          // file; -2: standard error; -3: memory
    bool writing = false, rerr = false;
    string mem;           // memory, or bytes not yet written
    size_t at = 0;        // read position in memory or in the buffer
    string buf;           // bytes read ahead
    // one more character is available; -1: error
    int fill() {
        if (fd == -3) return at < mem.size();
        if (fd < 0) return 0;
        if (at < buf.size()) return 1;
        char tmp[512];
        const long k = vpf_read(fd, tmp, sizeof tmp);
        if (k < 0) { rerr = true; return -1; }
        buf.assign(tmp, k); at = 0;
        return k > 0;
    }
    int_type sgetc() { const int k = fill(); if (k < 0) abort(); return k ? (unsigned char)(fd == -3 ? mem : buf)[at] : T::eof(); }
    int_type sbumpc() { const int_type c = sgetc(); if (c != T::eof()) ++at; return c; }
    int_type snextc() { return sbumpc() == T::eof() ? T::eof() : sgetc(); }
    streamsize sgetn(C* s, streamsize n) {
        streamsize got = 0;
        while (got < n) {
            const int k = fill();
            if (k < 0) return -1;
            if (!k) break;
            const string& b = fd == -3 ? mem : buf;
            streamsize m = (streamsize)(b.size() - at);
            if (m > n - got) m = n - got;
            for (streamsize i = 0; i < m; ++i) s[got + i] = b[at + i];
            at += m; got += m;
        }
        return got;
    }
    streamsize sputn(const C* s, streamsize n) {
        if (fd == -2) { for (streamsize i = 0; i < n; ++i) putchar((unsigned char)s[i]); return n; }
        if (fd == -3) { mem.append(s, n); return n; }
        if (fd < 0 || !writing) return 0;
        if (vpf_write(fd, nullptr, n) == 0) return 0;   // asks whether a write of this size fails at once
        mem.append(s, n);
        return n;
    }
    int_type sputc(C c) { return sputn(&c, 1) == 1 ? (unsigned char)c : T::eof(); }
    int pubsync() {
        if (fd >= 0 && writing && !mem.empty()) { const bool ok = vpf_write(fd, mem.data(), (long)mem.size()); mem.clear(); return ok ? 0 : -1; }
        return 0;
    }
    pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode = 0) {
        if (fd == -3) { long b = d == 0 ? 0 : d == 1 ? (long)at : (long)mem.size(); at = b + o; return pos_type((long)at); }
        if (fd < 0) return pos_type(off_type(-1));
        if (writing) { pubsync(); return pos_type(vpf_seek(fd, o, d)); }
        if (d == 1) o -= (long)(buf.size() - at);
        buf.clear(); at = 0;
        return pos_type(vpf_seek(fd, o, d));
    }
    pos_type pubseekpos(pos_type p, ios_base::openmode m = 0) { return pubseekoff(off_type(p), 0, m); }
    streamsize in_avail() { const int k = fill(); return k < 0 ? -1 : (streamsize)((fd == -3 ? mem : buf).size() - at); }
    basic_streambuf* pubsetbuf(C*, streamsize) { return this; }
};

template<class C, class T> class basic_filebuf : public basic_streambuf<C, T> {
public:
    ~basic_filebuf() { close(); }
    bool is_open() const { return this->fd >= 0; }
    basic_filebuf* open(const char* p, ios_base::openmode m) {
        if (is_open()) return nullptr;
        const bool w = m & (ios_base::out | ios_base::app), r = m & ios_base::in;
        this->fd = vpf_open(p, r, w, (m & ios_base::trunc) || (w && !r && !(m & ios_base::app)), (m & ios_base::app) != 0);
        this->writing = w; this->mem.clear(); this->buf.clear(); this->at = 0;
        if (is_open() && (m & ios_base::ate)) vpf_seek(this->fd, 0, 2);
        return is_open() ? this : nullptr;
    }
    template<class P> basic_filebuf* open(const P& p, ios_base::openmode m) requires requires { p.c_str(); } { return open(p.c_str(), m); }
    basic_filebuf* close() {
        if (!is_open()) return nullptr;
        const bool a = this->pubsync() == 0, b = vpf_close(this->fd) != 0;
        this->fd = -1;
        return a && b ? this : nullptr;
    }
};

template<class C, class T> class basic_ios : public ios_base {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    iostate st = goodbit, ex = goodbit;
    basic_streambuf<C, T>* sb = nullptr;
    bool good() const { return st == goodbit; }
    bool eof() const { return st & eofbit; }
    bool fail() const { return st & (failbit | badbit); }
    bool bad() const { return st & badbit; }
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    iostate rdstate() const { return st; }
    void clear(iostate s = goodbit) { st = s; if (st & ex) throw failure("stream"); }
    void setstate(iostate s) { clear(st | s); }
    iostate exceptions() const { return ex; }
    void exceptions(iostate e) { ex = e; clear(st); }
    basic_streambuf<C, T>* rdbuf() const { return sb; }
    C widen(char c) const { return c; }
    char narrow(C c, char) const { return c; }
    fmtflags flags() const { return 0; }
    fmtflags setf(fmtflags) { return 0; }
    fmtflags unsetf(fmtflags) { return 0; }
    static bool sync_with_stdio(bool = true) { return true; }
    basic_ios* tie(void*) { return nullptr; }
};

template<class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
    explicit basic_ostream(basic_streambuf<C, T>* b = nullptr) { this->sb = b; }
    struct sentry { basic_ostream& o; explicit sentry(basic_ostream& x) : o(x) {} explicit operator bool() const { return o.good(); } };
    basic_ostream& write(const C* s, streamsize n) { if (!this->good()) { this->setstate(ios_base::badbit); return *this; } if (this->sb->sputn(s, n) != n) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& put(C c) { return write(&c, 1); }
    basic_ostream& flush() { if (this->sb && this->sb->pubsync() != 0) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& seekp(typename T::pos_type p) { this->sb->pubseekpos(p); return *this; }
    basic_ostream& seekp(typename T::off_type o, ios_base::seekdir d) { this->sb->pubseekoff(o, d); return *this; }
    typename T::pos_type tellp() { if (this->fail()) return typename T::pos_type(-1); return this->sb->pubseekoff(0, 1); }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(int v) { return *this << (long long)v; }
    basic_ostream& operator<<(long v) { return *this << (long long)v; }
    basic_ostream& operator<<(unsigned v) { return *this << (long long)v; }
    basic_ostream& operator<<(unsigned long v) { return *this << (long long)v; }
    basic_ostream& operator<<(bool v) { return *this << (long long)v; }
    basic_ostream& operator<<(long long v) { char b[24]; int n = 0; const bool neg = v < 0; unsigned long long u = neg ? 0ull - v : v; do b[n++] = '0' + u % 10; while (u /= 10); if (neg) b[n++] = '-'; while (n) put(b[--n]); return *this; }
    basic_ostream& operator<<(basic_streambuf<C, T>* b) {
        if (!b) { this->setstate(ios_base::badbit); return *this; }
        streamsize total = 0;
        char tmp[512];
        for (;;) {
            const streamsize k = b->sgetn(tmp, sizeof tmp);
            if (k < 0) { this->setstate(ios_base::failbit); break; }
            if (!k) break;
            if (this->sb->sputn(tmp, k) != k) { this->setstate(ios_base::badbit); break; }
            total += k;
        }
        if (!total) this->setstate(ios_base::failbit);
        return *this;
    }
};
template<class C, class T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { return o.write(s, n); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { return o.write(s, (streamsize)char_traits<char>::length(s)); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.put(c); }
// not the templates of <string>, which are instantiated in the library
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const string& s) { return o.write(s.data(), (streamsize)s.size()); }
inline basic_ostream<char>& operator<<(basic_ostream<char>&& o, const string& s) { return o.write(s.data(), (streamsize)s.size()); }
template<class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n').flush(); }
template<class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }

template<class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
    typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    streamsize count = 0;
    explicit basic_istream(basic_streambuf<C, T>* b = nullptr) { this->sb = b; }
    struct sentry { basic_istream& i; explicit sentry(basic_istream& x, bool = false) : i(x) { if (!i.good()) i.setstate(ios_base::failbit); } explicit operator bool() const { return i.good(); } };
    streamsize gcount() const { return count; }
    basic_istream& read(C* s, streamsize n) {
        count = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        const streamsize k = this->sb->sgetn(s, n);
        if (k < 0) { this->setstate(ios_base::badbit); return *this; }
        count = k;
        if (k != n) this->setstate(ios_base::eofbit | ios_base::failbit);
        return *this;
    }
    streamsize readsome(C* s, streamsize n) { count = 0; if (!this->good()) { this->setstate(ios_base::failbit); return 0; } streamsize a = this->sb->in_avail(); if (a <= 0) { this->setstate(ios_base::eofbit); return 0; } return count = this->sb->sgetn(s, a < n ? a : n); }
    int_type get() { C c; get(c); return count ? (unsigned char)c : T::eof(); }
    basic_istream& get(C& c) {
        count = 0;
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        const int k = this->sb->fill();
        if (k < 0) { this->setstate(ios_base::badbit); return *this; }
        if (!k) { this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
        c = (C)this->sb->sbumpc(); count = 1;
        return *this;
    }
    int_type peek() { count = 0; if (!this->good()) return T::eof(); const int k = this->sb->fill(); if (k < 0) { this->setstate(ios_base::badbit); return T::eof(); } if (!k) { this->setstate(ios_base::eofbit); return T::eof(); } return this->sb->sgetc(); }
    basic_istream& seekg(pos_type p) { return seekg(off_type(p), 0); }
    basic_istream& seekg(off_type o, ios_base::seekdir d) { this->clear(this->st & ~ios_base::eofbit); if (!this->fail() && this->sb->pubseekoff(o, d) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
    pos_type tellg() { if (this->fail()) return pos_type(off_type(-1)); return this->sb->pubseekoff(0, 1); }
    basic_istream& ignore(streamsize n = 1, int_type d = -1) { while (n-- > 0) { int_type c = get(); if (c == T::eof() || c == d) break; } return *this; }
    basic_istream& operator>>(basic_streambuf<C, T>* b) { char tmp[512]; for (;;) { streamsize k = this->sb->sgetn(tmp, sizeof tmp); if (k < 0) { this->setstate(ios_base::badbit); break; } if (!k) break; b->sputn(tmp, k); } return *this; }
};
template<> inline basic_istream<char>& getline(basic_istream<char>& i, string& s, char d)
{
    s.clear();
    if (!i.good()) { i.setstate(ios_base::failbit); return i; }
    bool any = false;
    for (;;) {
        const int k = i.sb->fill();
        if (k < 0) { i.setstate(ios_base::badbit); return i; }
        if (!k) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); return i; }
        const char c = (char)i.sb->sbumpc();
        any = true;
        if (c == d) return i;
        s.push_back(c);
    }
}

inline basic_istream<char>& getline(basic_istream<char>& i, string& s) { return getline<char>(i, s, '\n'); }
inline basic_istream<char>& getline(basic_istream<char>&& i, string& s) { return getline<char>(i, s, '\n'); }
inline basic_istream<char>& operator>>(basic_istream<char>& i, string& s)
{
    s.clear();
    if (!i.good()) { i.setstate(ios_base::failbit); return i; }
    for (;;) {
        const int k = i.sb->fill();
        if (k < 0) { i.setstate(ios_base::badbit); return i; }
        if (!k) { i.setstate(s.empty() ? ios_base::eofbit | ios_base::failbit : ios_base::eofbit); return i; }
        const int c = i.sb->sgetc();
        if (c == ' ' || (c >= 9 && c <= 13)) { if (!s.empty()) return i; i.sb->sbumpc(); continue; }
        s.push_back((char)i.sb->sbumpc());
    }
}

template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
    explicit basic_iostream(basic_streambuf<C, T>* b = nullptr) { this->sb = b; }
};

#define VP_FILE(NAME, BASE, DEFMODE, ADD)                                                                                      \
    template<class C, class T> class NAME : public BASE<C, T> {                                                                \
        basic_filebuf<C, T> fb;                                                                                                \
    public:                                                                                                                    \
        NAME() { this->sb = &fb; }                                                                                             \
        template<class P> explicit NAME(const P& p, ios_base::openmode m = DEFMODE) { this->sb = &fb; open(p, m); }            \
        template<class P> void open(const P& p, ios_base::openmode m = DEFMODE) { if (!fb.open(p, m | (ADD))) this->setstate(ios_base::failbit); else this->clear(); } \
        bool is_open() const { return fb.is_open(); }                                                                          \
        void close() { if (!fb.close()) this->setstate(ios_base::failbit); }                                                   \
        basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&fb); }                                   \
    };
VP_FILE(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
VP_FILE(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
VP_FILE(basic_fstream, basic_iostream, ios_base::in | ios_base::out, 0u)

inline namespace __cxx11 {
template<class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> { public: basic_stringbuf() { this->fd = -3; } string str() const { return this->mem; } void str(const string& s) { this->mem = s; this->at = 0; } };
#define VP_STR(NAME, BASE)                                                                                                     \
    template<class C, class T, class A> class NAME : public BASE<C, T> {                                                       \
        basic_stringbuf<C, T, A> b;                                                                                            \
    public:                                                                                                                    \
        NAME() { this->sb = &b; }                                                                                              \
        explicit NAME(ios_base::openmode) { this->sb = &b; }                                                                   \
        explicit NAME(const string& s, ios_base::openmode = 0) { b.str(s); this->sb = &b; }                                    \
        string str() const { return b.str(); }                                                                                 \
        void str(const string& s) { b.str(s); }                                                                                \
        string_view view() const { return b.mem; }                                                                             \
        basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b); }                          \
    };
VP_STR(basic_istringstream, basic_istream)
VP_STR(basic_ostringstream, basic_ostream)
VP_STR(basic_stringstream, basic_iostream)
}

struct vp_stdbuf : basic_streambuf<char, char_traits<char>> { vp_stdbuf() { fd = -2; } };
inline vp_stdbuf vp_stdbuf0;
inline basic_ostream<char> cerr(&vp_stdbuf0), clog(&vp_stdbuf0), cout(&vp_stdbuf0);
inline ios_base& hex(ios_base& b) { return b; }
inline ios_base& dec(ios_base& b) { return b; }
inline ios_base& oct(ios_base& b) { return b; }
template<class X> string quoted(const X&);
template<class X, class C> string quoted(const X&, C, C);
}
#include <iterator>
#include <memory>
#include <algorithm>
#endif
