// Entry point of the command line tool for the engine, with a model of the file system: the input file "ii", the output
// file "oo" that already holds something, and one injected fault.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>

extern "C" {
void vp_outbyte(unsigned char);
void vp_outstate(int);
void vp_unsupported(const char*);
[[noreturn]] void _exit(int);
int nxas_main(int, char**) __asm__("main");

struct disk { char name[3]; bool exists, changed; unsigned char* data; size_t n, cap; };
static disk ii, oo, other;
static char fault;
static int faulted;
struct handle { disk* d; size_t pos; bool r, w, app, used, err, eof; size_t wrote; };
static handle hs[16];

static void put(disk* d, size_t at, unsigned char c)
{
    if (at >= d->cap) {
        const size_t cap = d->cap ? 2 * d->cap + at : at + 64;
        unsigned char* q = new unsigned char[cap];
        for (size_t i = 0; i < d->n; ++i) q[i] = d->data[i];
        d->data = q; d->cap = cap;
    }
    while (d->n <= at) d->data[d->n++] = 0;
    d->data[at] = c;
}

int vpf_open(const char* p, int r, int w, int trunc, int append)
{
    disk* d = p[0] == 'i' && p[1] == 'i' && !p[2] ? &ii : p[0] == 'o' && p[1] == 'o' && !p[2] ? &oo : &other;
    if (d == &other && w) {
        // one more file may be created
        if (!other.name[0]) { other.name[0] = p[0]; other.name[1] = p[0] ? p[1] : 0; }
    }
    if (!w) {
        if (fault == '1' || !d->exists) return -1;
    } else {
        if (fault == '4') return -1;
        if (!d->exists && r && !trunc && !append) return -1;
        d->exists = true;
        d->changed = true;
        if (trunc) d->n = 0;
    }
    for (int i = 3; i < 16; ++i) if (!hs[i].used) { hs[i] = handle{d, append ? d->n : 0, r != 0, w != 0, append != 0, true, false, false, 0}; return i; }
    return -1;
}

long vpf_read(int h, char* b, long n)
{
    handle& f = hs[h];
    size_t end = f.d->n;
    if (fault == '2') { f.err = true; return -1; }
    if (fault == '3') { end /= 2; if (f.pos >= end) { f.err = true; return -1; } }
    long k = 0;
    while (k < n && f.pos < end) b[k++] = (char)f.d->data[f.pos++];
    if (k < n && fault != '3') f.eof = true;
    return k;
}

// without data: whether a write of n bytes fails at once instead of later
int vpf_write(int h, const char* b, long n)
{
    handle& f = hs[h];
    if (!b) { if (fault == '5' && n > 0) { f.err = true; return 0; } return 1; }
    if (fault == '5' && n > 0) { f.err = true; return 0; }
    if (f.app) f.pos = f.d->n;
    long m = fault == '6' ? n / 2 : n;
    for (long i = 0; i < m; ++i) put(f.d, f.pos++, (unsigned char)b[i]);
    if (fault == '6' && n > 0) { f.err = true; return 0; }
    return 1;
}

int vpf_close(int h) { handle& f = hs[h]; f.used = false; return !(fault == '7' && f.w); }

long vpf_seek(int h, long o, int whence)
{
    handle& f = hs[h];
    const long p = whence == 0 ? o : whence == 1 ? (long)f.pos + o : (long)f.d->n + o;
    if (p < 0) return -1;
    f.pos = (size_t)p; f.eof = false;
    return p;
}

#define DEF(ret, name, ...) __attribute__((used)) ret vpx_##name(__VA_ARGS__) __asm__(#name); ret vpx_##name(__VA_ARGS__)

// ------------------------------------------------------------------ C streams; null is standard error or output
static handle& H(FILE* f) { return hs[(uintptr_t)f >> 4]; }
static int N(FILE* f) { return (int)((uintptr_t)f >> 4); }
static struct { unsigned char b[4096]; size_t n; bool failed; } wbuf[16];
static int drain(int h) { if (!hs[h].used || !hs[h].w || !wbuf[h].n) return 0; const int ok = vpf_write(h, (const char*)wbuf[h].b, (long)wbuf[h].n); wbuf[h].n = 0; return ok ? 0 : -1; }
static FILE* openc(const char* p, const char* m)
{
    bool r = false, w = false, t = false, a = false;
    for (const char* q = m; *q; ++q) { if (*q == 'r') r = true; if (*q == 'w') { w = true; t = true; } if (*q == 'a') { w = true; a = true; } if (*q == '+') { r = true; w = true; } }
    const int h = vpf_open(p, r, w, t, a);
    if (h >= 0) { wbuf[h].n = 0; wbuf[h].failed = false; }
    return h < 0 ? nullptr : (FILE*)((uintptr_t)h << 4);
}
DEF(FILE*, fopen, const char* p, const char* m) { return openc(p, m); }
DEF(FILE*, fopen64, const char* p, const char* m) { return openc(p, m); }
DEF(size_t, fread, void* b, size_t s, size_t n, FILE* f)
{
    size_t got = 0;
    while (got < s * n) { const long k = vpf_read(N(f), (char*)b + got, (long)(s * n - got)); if (k <= 0) break; got += (size_t)k; }
    return s ? got / s : 0;
}
static size_t writec(const void* b, size_t len, FILE* f)
{
    const unsigned char* p = (const unsigned char*)b;
    if (!f) { for (size_t i = 0; i < len; ++i) putchar(p[i]); return len; }
    const int h = N(f);
    if (!vpf_write(h, nullptr, (long)len)) return 0;
    for (size_t i = 0; i < len; ++i) { if (wbuf[h].n == 4096 && drain(h)) return i; wbuf[h].b[wbuf[h].n++] = p[i]; }
    return len;
}
DEF(size_t, fwrite, const void* b, size_t s, size_t n, FILE* f) { return s ? writec(b, s * n, f) / s : 0; }
DEF(int, fputc, int c, FILE* f) { const unsigned char x = (unsigned char)c; return writec(&x, 1, f) ? x : -1; }
DEF(int, putc, int c, FILE* f) { const unsigned char x = (unsigned char)c; return writec(&x, 1, f) ? x : -1; }
DEF(int, fputs, const char* s, FILE* f) { size_t n = 0; while (s[n]) ++n; return writec(s, n, f) == n ? 1 : -1; }
DEF(int, fgetc, FILE* f) { unsigned char c; return vpf_read(N(f), (char*)&c, 1) == 1 ? c : -1; }
DEF(int, getc, FILE* f) { unsigned char c; return vpf_read(N(f), (char*)&c, 1) == 1 ? c : -1; }
DEF(int, fflush, FILE* f) { return f ? drain(N(f)) : 0; }
DEF(int, fclose, FILE* f) { const int a = drain(N(f)); return vpf_close(N(f)) && !a ? 0 : -1; }
DEF(int, ferror, FILE* f) { return f ? H(f).err : 0; }
DEF(int, feof, FILE* f) { return f ? H(f).eof : 0; }
DEF(void, clearerr, FILE* f) { if (f) H(f).err = H(f).eof = false; }
DEF(int, fseek, FILE* f, long o, int w) { drain(N(f)); return vpf_seek(N(f), o, w) < 0 ? -1 : 0; }
DEF(int, fseeko, FILE* f, long o, int w) { drain(N(f)); return vpf_seek(N(f), o, w) < 0 ? -1 : 0; }
DEF(long, ftell, FILE* f) { return (long)(H(f).pos + wbuf[N(f)].n); }
DEF(long, ftello, FILE* f) { return (long)(H(f).pos + wbuf[N(f)].n); }
DEF(void, rewind, FILE* f) { drain(N(f)); vpf_seek(N(f), 0, 0); }
DEF(void, perror, const char* s) { while (s && *s) putchar(*s++); putchar('\n'); }
DEF(char*, strerror, int) { return (char*)"error"; }
DEF(int, remove, const char* p) { disk* d = p[0] == 'i' && p[1] == 'i' && !p[2] ? &ii : p[0] == 'o' && p[1] == 'o' && !p[2] ? &oo : &other; if (!d->exists) return -1; d->exists = false; d->changed = true; d->n = 0; return 0; }
DEF(int, unlink, const char* p) { return vpx_remove(p); }

// ------------------------------------------------------------------ the end of the process
static void finish(bool flush)
{
    if (flush) for (int i = 3; i < 16; ++i) if (hs[i].used && hs[i].w) drain(i);
    for (size_t i = 0; i < oo.n; ++i) vp_outbyte(oo.data[i]);
    vp_outstate(ii.changed || other.changed ? 2 : oo.changed ? (oo.exists ? 1 : 3) : 0);
}
DEF(void, exit, int code) { finish(true); _exit(code); }

void vp_cli(const char* text, size_t n, int argc, char** argv)
{
    fault = text[0];
    ii.exists = oo.exists = true;
    ii.data = (unsigned char*)text + 1; ii.n = ii.cap = n - 1;
    static unsigned char old[3] = {'O', 'L', 'D'};
    oo.data = old; oo.n = oo.cap = 3;
    const int rc = nxas_main(argc, argv);
    finish(true);
    _exit(rc);
}
}
