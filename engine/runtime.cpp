// Models of the C library functions the assembler calls, written in C++ and executed symbolically
// together with the assembler's own bitcode, plus the entry points the engine starts from.
#include <cerrno>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

#include <nxas.h>

extern "C" {
void vp_result(const uint64_t*, size_t);
void vp_unsupported(const char*);
float vp_float(const char*, size_t, int);
unsigned vp_digit(unsigned);
int vp_errno;

// define the C library symbol `name` without clashing with its header declaration
#define DEF(ret, name, ...) __attribute__((used)) ret vp_##name(__VA_ARGS__) __asm__(#name); ret vp_##name(__VA_ARGS__)

// ------------------------------------------------------------------ entry points
void vp_run(const char* text, size_t n)
{
    const std::string code(text, n);
    const std::vector<uint64_t> r = nxas::assemble(code, "vp.s");
    vp_result(r.data(), r.size());
}

// every call's text in the same place
static std::string* vp_place;
void vp_run_shared(const char* text, size_t n)
{
    if (!vp_place) {
        vp_place = new std::string;
        vp_place->reserve(511);
    }
    vp_place->assign(text, n);
    const std::vector<uint64_t> r = nxas::assemble(*vp_place, "vp.s");
    vp_result(r.data(), r.size());
}

// ------------------------------------------------------------------ character classes
#define SP(c) ((c) == ' ' || (unsigned)((c) - 9) < 5u)
DEF(int, isspace, int c) { return SP(c); }
DEF(int, isblank, int c) { return c == ' ' || c == '\t'; }
DEF(int, isdigit, int c) { return (unsigned)(c - '0') < 10u; }
DEF(int, isupper, int c) { return (unsigned)(c - 'A') < 26u; }
DEF(int, islower, int c) { return (unsigned)(c - 'a') < 26u; }
DEF(int, isalpha, int c) { return (unsigned)((c | 32) - 'a') < 26u; }
DEF(int, isalnum, int c) { return vp_isalpha(c) | vp_isdigit(c); }
DEF(int, isxdigit, int c) { return vp_isdigit(c) | ((unsigned)((c | 32) - 'a') < 6u); }
DEF(int, isprint, int c) { return (unsigned)(c - 32) < 95u; }
DEF(int, isgraph, int c) { return (unsigned)(c - 33) < 94u; }
DEF(int, iscntrl, int c) { return (unsigned)c < 32u || c == 127; }
DEF(int, ispunct, int c) { return vp_isgraph(c) && !vp_isalnum(c); }
DEF(int, toupper, int c) { return vp_islower(c) ? c - 32 : c; }
DEF(int, tolower, int c) { return vp_isupper(c) ? c + 32 : c; }

// ------------------------------------------------------------------ integer conversion
static inline unsigned digit_value(unsigned char c) { return vp_digit(c); }

// c23: glibc's __isoc23_ variants also accept the 0b prefix
static uint64_t strto(const char* s, char** end, int base, bool is_signed, bool c23)
{
    const char* p = s;
    while (SP((unsigned char)*p)) ++p;
    bool neg = false;
    if (*p == '-') { neg = true; ++p; }
    else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit_value(p[2]) < 16) { base = 16; p += 2; }
    else if (c23 && (base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && digit_value(p[2]) < 2) { base = 2; p += 2; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    const int safe = base == 10 ? 18 : base == 16 ? 15 : base == 8 ? 20 : base == 2 ? 62 : 11;
    uint64_t acc = 0;
    bool over = false;
    const char* first = p;
    int count = 0;
    for (;; ++p) {
        const unsigned v = digit_value((unsigned char)*p);
        if (v >= (unsigned)base) break;
        if (count >= safe) {
            const uint64_t lim = UINT64_MAX / (unsigned)base;
            const bool o = acc > lim || (acc == lim && v > UINT64_MAX % (unsigned)base);
            over = over | o;
        }
        // leading zeros do not count towards the length
        if (base == 16) acc = (acc << 4) | v;
        else if (base == 8) acc = (acc << 3) | v;
        else if (base == 2) acc = (acc << 1) | v;
        else acc = acc * (unsigned)base + v;
        ++count;
    }
    if (p == first) { if (end) *end = (char*)s; return 0; }
    if (end) *end = (char*)p;
    if (is_signed) {
        const uint64_t max = neg ? (uint64_t)INT64_MAX + 1 : (uint64_t)INT64_MAX;
        if (count > safe - 0) {
            const bool big = over | (acc > max);
            vp_errno = big ? ERANGE : vp_errno;
            acc = big ? max : acc;
        }
        return neg ? 0 - acc : acc;
    }
    if (count > safe) {
        vp_errno = over ? ERANGE : vp_errno;
        return over ? UINT64_MAX : (neg ? 0 - acc : acc);
    }
    return neg ? 0 - acc : acc;
}
DEF(long long, strtoll, const char* s, char** e, int b) { return (long long)strto(s, e, b, true, false); }
DEF(long, strtol, const char* s, char** e, int b) { return (long)strto(s, e, b, true, false); }
DEF(unsigned long long, strtoull, const char* s, char** e, int b) { return strto(s, e, b, false, false); }
DEF(unsigned long, strtoul, const char* s, char** e, int b) { return strto(s, e, b, false, false); }
DEF(long long, __isoc23_strtoll, const char* s, char** e, int b) { return (long long)strto(s, e, b, true, true); }
DEF(long, __isoc23_strtol, const char* s, char** e, int b) { return (long)strto(s, e, b, true, true); }
DEF(unsigned long long, __isoc23_strtoull, const char* s, char** e, int b) { return strto(s, e, b, false, true); }
DEF(unsigned long, __isoc23_strtoul, const char* s, char** e, int b) { return strto(s, e, b, false, true); }
DEF(int, atoi, const char* s) { return (int)strto(s, nullptr, 10, true, false); }
DEF(long, atol, const char* s) { return (long)strto(s, nullptr, 10, true, false); }
DEF(long long, atoll, const char* s) { return (long long)strto(s, nullptr, 10, true, false); }

// ------------------------------------------------------------------ floating conversion
static float strtofp(const char* s, char** end)
{
    const char* p = s;
    while (SP((unsigned char)*p)) ++p;
    const char* start = p;
    bool neg = false;
    if (*p == '-') { neg = true; ++p; }
    else if (*p == '+') ++p;
    if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) vp_unsupported("hexadecimal floating literal");
    if (vp_isalpha(*p)) {
        if ((p[0] | 32) == 'i' || (p[0] | 32) == 'n') vp_unsupported("inf/nan floating literal");
        if (end) *end = (char*)s;
        return 0;
    }
    int digits = 0;
    while (vp_isdigit((unsigned char)*p)) { ++p; ++digits; }
    if (*p == '.') {
        const char* q = p + 1;
        int frac = 0;
        while (vp_isdigit((unsigned char)*q)) { ++q; ++frac; }
        if (digits + frac) { p = q; digits += frac; }
    }
    if (!digits) { if (end) *end = (char*)s; return 0; }
    if (*p == 'e' || *p == 'E') {
        const char* q = p + 1;
        if (*q == '+' || *q == '-') ++q;
        if (vp_isdigit((unsigned char)*q)) { while (vp_isdigit((unsigned char)*q)) ++q; p = q; }
    }
    if (end) *end = (char*)p;
    return vp_float(start, (size_t)(p - start), neg);
}
DEF(float, strtof, const char* s, char** e) { return strtofp(s, e); }
DEF(double, strtod, const char* s, char** e) { vp_unsupported("strtod"); return strtofp(s, e); }

// ------------------------------------------------------------------ strings
DEF(char*, strcpy, char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
DEF(char*, strncpy, char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
DEF(char*, strcat, char* d, const char* s) { char* r = d; while (*d) ++d; while ((*d++ = *s++)) {} return r; }
DEF(size_t, strnlen, const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
DEF(size_t, strspn, const char* s, const char* a) { size_t i = 0; for (; s[i]; ++i) { const char* q = a; while (*q && *q != s[i]) ++q; if (!*q) break; } return i; }
DEF(size_t, strcspn, const char* s, const char* a) { size_t i = 0; for (; s[i]; ++i) { const char* q = a; while (*q && *q != s[i]) ++q; if (*q) break; } return i; }

// ------------------------------------------------------------------ libstdc++ containers
// one bucket for ever: any load factor is a correct hash table
__attribute__((used)) std::pair<bool, size_t> vp_need_rehash(const void*, size_t, size_t, size_t) __asm__("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
std::pair<bool, size_t> vp_need_rehash(const void*, size_t, size_t, size_t) { return {false, 0}; }
__attribute__((used)) size_t vp_next_bkt(const void*, size_t) __asm__("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
size_t vp_next_bkt(const void*, size_t n) { return n < 13 ? 13 : n | 1; }

// red-black trees without the balancing: still correct search trees
struct rb { int color; rb *parent, *left, *right; };
__attribute__((used)) void vp_rb_insert(bool, rb*, rb*, rb&) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void vp_rb_insert(bool left, rb* x, rb* p, rb& h)
{
    x->parent = p; x->left = nullptr; x->right = nullptr; x->color = 1;
    if (left) {
        p->left = x;
        if (p == &h) { h.parent = x; h.right = x; }
        else if (p == h.left) h.left = x;
    } else {
        p->right = x;
        if (p == h.right) h.right = x;
    }
    h.color = 0;
}
static rb* rb_inc(rb* x)
{
    if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
    rb* y = x->parent;
    while (x == y->right) { x = y; y = y->parent; }
    return x->right != y ? y : x;
}
static rb* rb_dec(rb* x)
{
    if (x->color == 0 && x->parent->parent == x) return x->right;
    if (x->left) { rb* y = x->left; while (y->right) y = y->right; return y; }
    rb* y = x->parent;
    while (x == y->left) { x = y; y = y->parent; }
    return y;
}
__attribute__((used)) rb* vp_rb_inc1(rb*) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
rb* vp_rb_inc1(rb* x) { return rb_inc(x); }
__attribute__((used)) rb* vp_rb_inc2(rb*) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
rb* vp_rb_inc2(rb* x) { return rb_inc(x); }
__attribute__((used)) rb* vp_rb_dec1(rb*) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
rb* vp_rb_dec1(rb* x) { return rb_dec(x); }
__attribute__((used)) rb* vp_rb_dec2(rb*) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
rb* vp_rb_dec2(rb* x) { return rb_dec(x); }
}

// std::from_chars(float)
namespace std { enum class chars_format; struct from_chars_result; }
struct vp_fcr { const char* ptr; int ec; };
extern "C" {
__attribute__((used)) vp_fcr vp_from_chars_f(const char*, const char*, float&, int) __asm__("_ZSt10from_charsPKcS0_RfSt12chars_format");
vp_fcr vp_from_chars_f(const char* f, const char* l, float& v, int)
{
    const char* p = f;
    bool neg = false;
    if (p != l && *p == '-') { neg = true; ++p; }
    int digits = 0;
    while (p != l && vp_isdigit((unsigned char)*p)) { ++p; ++digits; }
    if (p != l && *p == '.') { ++p; while (p != l && vp_isdigit((unsigned char)*p)) { ++p; ++digits; } }
    if (!digits) return {f, EINVAL};
    v = vp_float(f, (size_t)(p - f), neg);
    return {p, 0};
}
}

// ------------------------------------------------------------------ standard exceptions
// object: vtable, message. The type information says only what is derived from what.
extern "C" {
extern const char vp_tv_si[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE");
extern const char vp_tv_c[] __asm__("_ZTVN10__cxxabiv117__class_type_infoE");
struct vp_ti0 { const void* vt; const char* name; };
struct vp_ti1 { const void* vt; const char* name; const void* base; };
static void vp_ex_dtor(void*) {}
#define VP_WHAT(ID, N) const char* vp_what_##ID(void** self) __asm__("_ZNKSt" N "4whatEv"); __attribute__((used)) const char* vp_what_##ID(void** self) { return (const char*)self[1]; }
#define VP_EXC(ID, N, TI)                                                                                                       \
    VP_WHAT(ID, N)                                                                                                              \
    void vp_d0_##ID(void*) __asm__("_ZNSt" N "D0Ev"); __attribute__((used)) void vp_d0_##ID(void*) {}                           \
    void vp_d1_##ID(void*) __asm__("_ZNSt" N "D1Ev"); __attribute__((used)) void vp_d1_##ID(void*) {}                           \
    void vp_d2_##ID(void*) __asm__("_ZNSt" N "D2Ev"); __attribute__((used)) void vp_d2_##ID(void*) {}                           \
    extern const void* const vp_vt_##ID[5] __asm__("_ZTVSt" N);                                                                 \
    __attribute__((used, visibility("default"))) const void* const vp_vt_##ID[5] = {nullptr, &TI, (void*)vp_d1_##ID, (void*)vp_d0_##ID, (void*)vp_what_##ID};
#define VP_CTOR(ID, N)                                                                                                          \
    void vp_c1_##ID(void** self, const char* s) __asm__("_ZNSt" N "C1EPKc");                                                    \
    __attribute__((used)) void vp_c1_##ID(void** self, const char* s) { self[0] = (void*)(vp_vt_##ID + 2); char* c = new char[strlen(s) + 1]; for (size_t i = 0;; ++i) if (!(c[i] = s[i])) break; self[1] = c; } \
    void vp_c2_##ID(void** self, const char* s) __asm__("_ZNSt" N "C2EPKc");                                                    \
    __attribute__((used)) void vp_c2_##ID(void** self, const char* s) { vp_c1_##ID(self, s); }                                  \
    void vp_c3_##ID(void** self, const std::string& s) __asm__("_ZNSt" N "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); \
    __attribute__((used)) void vp_c3_##ID(void** self, const std::string& s) { vp_c1_##ID(self, s.c_str()); }                   \
    void vp_c4_##ID(void** self, const std::string& s) __asm__("_ZNSt" N "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); \
    __attribute__((used)) void vp_c4_##ID(void** self, const std::string& s) { vp_c1_##ID(self, s.c_str()); }                   \
    void vp_c5_##ID(void** self, void* const* o) __asm__("_ZNSt" N "C1ERKS_");                                                  \
    __attribute__((used)) void vp_c5_##ID(void** self, void* const* o) { self[0] = (void*)(vp_vt_##ID + 2); self[1] = o[1]; }   \
    void vp_c6_##ID(void** self, void* const* o) __asm__("_ZNSt" N "C2ERKS_");                                                  \
    __attribute__((used)) void vp_c6_##ID(void** self, void* const* o) { vp_c5_##ID(self, o); }
#define VP_TI1(ID, N, BASE) extern const vp_ti1 vp_ti_##ID __asm__("_ZTISt" N); __attribute__((used)) const vp_ti1 vp_ti_##ID = {vp_tv_si, N, &BASE};
extern const vp_ti0 vp_ti_exc __asm__("_ZTISt9exception");
__attribute__((used)) const vp_ti0 vp_ti_exc = {vp_tv_c, "9exception"};
VP_TI1(run, "13runtime_error", vp_ti_exc)
VP_TI1(log, "11logic_error", vp_ti_exc)
VP_TI1(oor, "12out_of_range", vp_ti_log)
VP_TI1(inv, "16invalid_argument", vp_ti_log)
VP_TI1(len, "12length_error", vp_ti_log)
VP_TI1(ran, "11range_error", vp_ti_run)
VP_TI1(ovf, "14overflow_error", vp_ti_run)
VP_TI1(boa, "19bad_optional_access", vp_ti_exc)
VP_TI1(bva, "18bad_variant_access", vp_ti_exc)
VP_TI1(bfc, "17bad_function_call", vp_ti_exc)
VP_TI1(bal, "9bad_alloc", vp_ti_exc)
VP_EXC(exc, "9exception", vp_ti_exc)
VP_EXC(run, "13runtime_error", vp_ti_run) VP_CTOR(run, "13runtime_error")
VP_EXC(log, "11logic_error", vp_ti_log) VP_CTOR(log, "11logic_error")
VP_EXC(oor, "12out_of_range", vp_ti_oor) VP_CTOR(oor, "12out_of_range")
VP_EXC(inv, "16invalid_argument", vp_ti_inv) VP_CTOR(inv, "16invalid_argument")
VP_EXC(len, "12length_error", vp_ti_len) VP_CTOR(len, "12length_error")
VP_EXC(ran, "11range_error", vp_ti_ran) VP_CTOR(ran, "11range_error")
VP_EXC(ovf, "14overflow_error", vp_ti_ovf) VP_CTOR(ovf, "14overflow_error")
}
