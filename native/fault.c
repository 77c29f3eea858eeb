// Loaded in front of the C library when a counterexample of the command line tool is replayed: makes one file operation fail.
// VP_FAULT: 1 opening the input, 2 reading at once, 3 reading after half of it, 4 opening the output, 5 writing at once,
// 6 half is stored and the write fails, 7 closing the output. The files are "ii" and "oo".
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static int fault(void) { const char* s = getenv("VP_FAULT"); return s ? atoi(s) : 0; }
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
static unsigned char isin[1024], isout[1024];
static int bad[1024];
static long got[1024], size[1024];
static FILE* fs[1024];

static int deny(int w) { if (fault() == (w ? 4 : 1)) { errno = EACCES; return 1; } return 0; }
static void note(int fd, int w)
{
    if (fd < 0 || fd >= 1024) return;
    struct stat st;
    isin[fd] = !w; isout[fd] = w; bad[fd] = 0; got[fd] = 0;
    size[fd] = fstat(fd, &st) ? 0 : st.st_size;
}
static int fdof(FILE* f) { const int fd = fileno(f); return fd >= 0 && fd < 1024 && fs[fd] == f ? fd : -1; }
static FILE* op(FILE* (*real)(const char*, const char*), const char* p, const char* m)
{
    const int w = strpbrk(m, "wa+") != NULL;
    if (deny(w)) return NULL;
    FILE* f = real(p, m);
    if (f) { note(fileno(f), w); if (fileno(f) < 1024) fs[fileno(f)] = f; }
    return f;
}
FILE* fopen(const char* p, const char* m) { return op(REAL(fopen), p, m); }
FILE* fopen64(const char* p, const char* m) { return op(REAL(fopen64), p, m); }
int open(const char* p, int fl, ...)
{
    va_list a; va_start(a, fl); const int mode = va_arg(a, int); va_end(a);
    const int w = (fl & O_ACCMODE) != O_RDONLY;
    if (deny(w)) return -1;
    const int fd = REAL(open)(p, fl, mode);
    note(fd, w);
    return fd;
}
int open64(const char* p, int fl, ...)
{
    va_list a; va_start(a, fl); const int mode = va_arg(a, int); va_end(a);
    const int w = (fl & O_ACCMODE) != O_RDONLY;
    if (deny(w)) return -1;
    const int fd = REAL(open64)(p, fl, mode);
    note(fd, w);
    return fd;
}
// how many of n bytes may be read; -1: the read fails
static long allow(int fd, long n)
{
    if (fd < 0 || fd >= 1024 || !isin[fd]) return n;
    if (fault() == 2) { errno = EIO; return -1; }
    if (fault() == 3) { const long left = size[fd] / 2 - got[fd]; if (left <= 0) { errno = EIO; return -1; } return n < left ? n : left; }
    return n;
}
ssize_t read(int fd, void* b, size_t n)
{
    const long k = allow(fd, (long)n);
    if (k < 0) return -1;
    const ssize_t r = REAL(read)(fd, b, (size_t)k);
    if (r > 0 && fd < 1024) got[fd] += r;
    return r;
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (fd > 2 && fd < 1024 && isout[fd] && n) {
        if (fault() == 5) { errno = ENOSPC; return -1; }
        if (fault() == 6) { if (!bad[fd]) REAL(write)(fd, b, n / 2); bad[fd] = 1; errno = ENOSPC; return -1; }
    }
    return REAL(write)(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    if (fd > 2 && fd < 1024 && isout[fd] && (fault() == 5 || fault() == 6)) {
        for (int i = 0; i < n; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return REAL(writev)(fd, v, n);
}
size_t fread(void* b, size_t s, size_t n, FILE* f)
{
    const int fd = fdof(f);
    if (fd < 0 || !s) return REAL(fread)(b, s, n, f);
    const long k = allow(fd, (long)(s * n));
    if (k < 0) { bad[fd] = 1; return 0; }
    const size_t r = REAL(fread)(b, 1, (size_t)k, f);
    got[fd] += (long)r;
    if ((long)r == k && k < (long)(s * n)) bad[fd] = 1;
    return r / s;
}
static int getone(int (*real)(FILE*), FILE* f)
{
    const int fd = fdof(f);
    if (fd >= 0 && allow(fd, 1) < 0) { bad[fd] = 1; return EOF; }
    if (fd >= 0) got[fd]++;
    return real(f);
}
int fgetc(FILE* f) { return getone(REAL(fgetc), f); }
int getc(FILE* f) { return getone(REAL(fgetc), f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f)
{
    const int fd = fdof(f);
    if (fd > 2 && isout[fd] && s * n) {
        if (fault() == 5) { bad[fd] = 1; errno = ENOSPC; return 0; }
        if (fault() == 6) { REAL(fwrite)(b, 1, s * n / 2, f); bad[fd] = 2; return n; }
    }
    return REAL(fwrite)(b, s, n, f);
}
int fflush(FILE* f)
{
    const int r = REAL(fflush)(f), fd = f ? fdof(f) : -1;
    if (fd > 2 && bad[fd] == 2) { bad[fd] = 1; errno = ENOSPC; return EOF; }
    return r;
}
int ferror(FILE* f) { const int fd = fdof(f); return fd > 2 && bad[fd] == 1 ? 1 : REAL(ferror)(f); }
int fclose(FILE* f)
{
    const int fd = fdof(f), lost = fd > 2 && isout[fd] && (fault() == 7 || bad[fd]);
    if (fd >= 0) fs[fd] = NULL, isin[fd] = isout[fd] = 0;
    const int r = REAL(fclose)(f);
    if (lost) errno = EIO;
    return lost ? EOF : r;
}
int close(int fd)
{
    const int lost = fd > 2 && fd < 1024 && isout[fd] && fault() == 7;
    if (fd >= 0 && fd < 1024) isin[fd] = isout[fd] = 0;
    const int r = REAL(close)(fd);
    if (lost) errno = EIO;
    return lost ? -1 : r;
}
