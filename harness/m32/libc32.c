/* A small C library for freestanding 32-bit Linux programs (there is no 32-bit C library in the sandbox). Every heap block
   ends at an inaccessible page and becomes inaccessible when freed, so overruns and use after free fault. */
#include "stdio.h"
#include "stdlib.h"
#include "string.h"

static long sys(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    long args[7] = {a, b, c, d, e, f, n};
    __asm__ volatile("pushl %%ebx; pushl %%ebp; pushl %%esi; pushl %%edi; movl %%eax, %%edi; movl (%%edi), %%ebx; movl 4(%%edi), %%ecx;"
        "movl 8(%%edi), %%edx; movl 12(%%edi), %%esi; movl 20(%%edi), %%ebp; movl 24(%%edi), %%eax; movl 16(%%edi), %%edi; int $0x80;"
        "popl %%edi; popl %%esi; popl %%ebp; popl %%ebx" : "=a"(r) : "a"(args) : "ecx", "edx", "memory", "cc");
    return r;
}
void exit(int c) { for (;;) sys(252, c, 0, 0, 0, 0, 0); }
void abort(void) { exit(134); }

void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t n)
{
    char *a = d; const char *b = s;
    if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n];
    return d;
}
void *memset(void *d, int c, size_t n) { char *a = d; while (n--) *a++ = (char) c; return d; }
int memcmp(const void *x, const void *y, size_t n)
{
    const unsigned char *a = x, *b = y;
    for (; n--; a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
    return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n--; a++, b++) if (*a != *b || !*a) return (unsigned char) *a - (unsigned char) *b; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr(const char *s, int c) { for (; *s != (char) c; s++) if (!*s) return 0; return (char *) s; }

/* heap */
typedef struct { char *p; size_t n; char *map; size_t len; int live; } Blk;
static Blk blk[8192];
static int nblk;
int m32_live, m32_badfree;
void *calloc(size_t a, size_t b)
{
    unsigned long long t = (unsigned long long) a * b;
    if (t > 0x20000000u || nblk >= 8192) return 0;
    size_t n = (size_t) t, pages = (n + 4095) / 4096 * 4096 + (n == 0 ? 4096 : 0);
    char *m = (char *) sys(192, 0, (long) (pages + 4096), 7, 0x22, -1, 0);
    if ((unsigned long) m > 0xFFFFF000u) return 0;
    sys(125, (long) (m + pages), 4096, 0, 0, 0, 0);
    Blk *k = &blk[nblk++];
    k->map = m; k->len = pages + 4096; k->n = n; k->live = 1;
    k->p = m + pages - (n + 3) / 4 * 4;
    for (char *q = k->p + n; q < m + pages; q++) *q = 0x5A;
    for (char *q = m; q < k->p; q++) *q = 0x5A;
    m32_live++;
    return k->p;
}
void *malloc(size_t n) { char *p = calloc(n, 1); if (p) memset(p, 0xA5, n); return p; }
void free(void *p)
{
    if (!p) return;
    for (int i = 0; i < nblk; i++) if (blk[i].p == p && blk[i].live) {
        for (char *q = blk[i].p + blk[i].n; q < blk[i].map + blk[i].len - 4096; q++) if (*q != 0x5A) m32_badfree++;
        for (char *q = blk[i].map; q < blk[i].p; q++) if (*q != 0x5A) m32_badfree++;
        sys(125, (long) blk[i].map, (long) blk[i].len, 0, 0, 0, 0);
        blk[i].live = 0; m32_live--;
        return;
    }
    m32_badfree++;
}
void *realloc(void *p, size_t n)
{
    void *q = malloc(n);
    if (!p || !q) return q;
    for (int i = 0; i < nblk; i++) if (blk[i].p == p && blk[i].live) memcpy(q, p, blk[i].n < n ? blk[i].n : n);
    free(p);
    return q;
}

/* files */
struct M32File { int fd, used, eof; };
static FILE files[16] = {{0, 1, 0}, {1, 1, 0}, {2, 1, 0}};
FILE *stdin = &files[0], *stdout = &files[1], *stderr = &files[2];
int m32_open;
FILE *fopen(const char *n, const char *m)
{
    long fd = sys(5, (long) n, m[0] == 'w' ? 01101 : 0, 0600, 0, 0, 0);
    if (fd < 0) return 0;
    for (int i = 3; i < 16; i++) if (!files[i].used) { files[i].fd = (int) fd; files[i].used = 1; files[i].eof = 0; m32_open++; return &files[i]; }
    return 0;
}
int fclose(FILE *f) { if (!f->used) { m32_badfree++; return EOF; } sys(6, f->fd, 0, 0, 0, 0, 0); f->used = 0; m32_open--; return 0; }
int fseek(FILE *f, long o, int w) { f->eof = 0; long r = sys(19, f->fd, o, w, 0, 0, 0); return r < 0 && r > -4096 ? -1 : 0; }
long ftell(FILE *f) { return sys(19, f->fd, 0, 1, 0, 0, 0); }
void rewind(FILE *f) { fseek(f, 0, 0); }
size_t fread(void *p, size_t a, size_t b, FILE *f)
{
    size_t n = a * b, k = 0;
    if (!n) return 0;
    while (k < n) {
        long r = sys(3, f->fd, (long) ((char *) p + k), (long) (n - k), 0, 0, 0);
        if (r <= 0) { f->eof = 1; break; }
        k += (size_t) r;
    }
    size_t q = 0;
    while (k >= a) k -= a, q++;
    return q;
}
size_t fwrite(const void *p, size_t a, size_t b, FILE *f)
{
    size_t n = a * b, k = 0;
    while (k < n) { long r = sys(4, f->fd, (long) ((const char *) p + k), (long) (n - k), 0, 0, 0); if (r <= 0) return 0; k += (size_t) r; }
    return b;
}
int feof(FILE *f) { return f->eof; }
int ferror(FILE *f) { (void) f; return 0; }
int fgetc(FILE *f) { unsigned char c; return fread(&c, 1, 1, f) == 1 ? c : EOF; }
int fflush(FILE *f) { (void) f; return 0; }
int fputs(const char *s, FILE *f) { return fwrite(s, 1, strlen(s), f) ? 0 : EOF; }

static int fmt(char *o, size_t n, const char *f, va_list ap)
{
    size_t k = 0;
#define PUT(c) do { if (k + 1 < n) o[k] = (char) (c); k++; } while (0)
    for (; *f; f++) {
        if (*f != '%') { PUT(*f); continue; }
        int width = 0, prec = -1, l = 0;
        f++;
        while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#') f++;
        while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if (*f == '.') for (prec = 0, f++; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + *f - '0';
        while (*f == 'l' || *f == 'z' || *f == 'h') l += *f == 'l', f++;
        char b[40]; int m = 0;
        if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            for (; *s && prec; s++, prec--) PUT(*s);
        } else if (*f == 'c') PUT(va_arg(ap, int));
        else if (*f == 'p') { unsigned long v = (unsigned long) va_arg(ap, void *); for (int i = 7; i >= 0; i--) PUT("0123456789abcdef"[v >> (4 * i) & 15]); }
        else if (*f == '%') PUT('%');
        else {
            unsigned long long v = l >= 2 ? va_arg(ap, unsigned long long) : (unsigned long long) va_arg(ap, unsigned long);
            if ((*f == 'd' || *f == 'i') && (l >= 2 ? (long long) v < 0 : (long) (unsigned long) v < 0)) { PUT('-'); v = l >= 2 ? -v : (unsigned long) -(long) (unsigned long) v; }
            if (*f == 'x' || *f == 'X') { do b[m++] = (*f == 'x' ? "0123456789abcdef" : "0123456789ABCDEF")[v & 15]; while (v >>= 4); }
            else {
                unsigned hi = (unsigned) (v >> 32), lo = (unsigned) v;
                do {    /* division of 64 bits by 10 without library support */
                    unsigned qh = hi / 10, rh = hi % 10, ql, r;
                    __asm__("divl %4" : "=a"(ql), "=d"(r) : "0"(lo), "1"(rh), "r"(10u));
                    b[m++] = (char) ('0' + r); hi = qh; lo = ql;
                } while (hi | lo);
            }
            while (m < width && m < 39) b[m++] = '0';
            while (m--) PUT(b[m]);
        }
    }
    if (n) o[k < n ? k : n - 1] = 0;
    return (int) k;
}
int snprintf(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(o, n, f, ap); va_end(ap); return r; }
int sprintf(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(o, 1 << 20, f, ap); va_end(ap); return r; }
int m32_mute;
int printf(const char *f, ...)
{
    static char b[8192];
    va_list ap; va_start(ap, f); int r = fmt(b, sizeof b, f, ap); va_end(ap);
    if (!m32_mute) fwrite(b, 1, strlen(b), stdout);
    return r;
}
int fprintf(FILE *h, const char *f, ...)
{
    static char b[8192];
    va_list ap; va_start(ap, f); int r = fmt(b, sizeof b, f, ap); va_end(ap);
    if (!m32_mute || h != stdout) fwrite(b, 1, strlen(b), h);
    return r;
}
int puts(const char *s) { if (!m32_mute) { fputs(s, stdout); fputs("\n", stdout); } return 0; }
int putchar(int c) { char b = (char) c; if (!m32_mute) fwrite(&b, 1, 1, stdout); return c; }

int main(int argc, char **argv);
__asm__(".globl _start\n_start: xorl %ebp, %ebp\n movl %esp, %eax\n andl $-16, %esp\n subl $12, %esp\n pushl %eax\n call m32_start\n hlt");
void m32_start(long *sp);
void m32_start(long *sp) { exit(main((int) sp[0], (char **) (sp + 1))); }
