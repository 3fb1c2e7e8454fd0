// Source versions of C library functions that a change of the code might use (C locale; no headers:
// the names are the library's own).
using size_t = decltype(sizeof 0);
extern "C" {
static int vf_errno;
int* __errno_location() noexcept { return &vf_errno; }
int isdigit(int c) noexcept { return (unsigned)c - '0' < 10; }
int isupper(int c) noexcept { return (unsigned)c - 'A' < 26; }
int islower(int c) noexcept { return (unsigned)c - 'a' < 26; }
int isalpha(int c) noexcept { return ((unsigned)c | 32) - 'a' < 26; }
int isalnum(int c) noexcept { return (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10); }
int isspace(int c) noexcept { return (c == ' ') | ((unsigned)c - 9 < 5); }
int isprint(int c) noexcept { return (unsigned)c - 0x20 < 0x5f; }
int isgraph(int c) noexcept { return (unsigned)c - 0x21 < 0x5e; }
int iscntrl(int c) noexcept { return ((unsigned)c < 0x20) | (c == 0x7f); }
int isxdigit(int c) noexcept { return ((unsigned)c - '0' < 10) | (((unsigned)c | 32) - 'a' < 6); }
int ispunct(int c) noexcept { return ((unsigned)c - 0x21 < 0x5e) & !((((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10)); }
int toupper(int c) noexcept { return c - 32 * ((unsigned)c - 'a' < 26); }
int tolower(int c) noexcept { return c + 32 * ((unsigned)c - 'A' < 26); }
static unsigned long long vf_strto(const char* s, char** e, int base, bool& neg, bool& ovf)
{
    const char* p = s;
    while (*p == ' ' || (unsigned)(unsigned char)*p - 9 < 5) ++p;
    neg = *p == '-';
    if (*p == '-' || *p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    const char* q = p;
    ovf = false;
    for (;; ++p) {
        unsigned d = (unsigned char)*p;
        d = d - '0' < 10 ? d - '0' : (d | 32) - 'a' < 26 ? (d | 32) - 'a' + 10 : 99;
        if (d >= (unsigned)base) break;
        if (v > (~0ULL - d) / (unsigned)base) ovf = true;
        v = v * (unsigned)base + d;
    }
    if (e) *e = const_cast<char*>(p == q ? s : p);
    return v;
}
static long vf_strtol(const char* s, char** e, int b)
{
    bool n, o; unsigned long long v = vf_strto(s, e, b, n, o);
    if (o || v > (1ULL << 63) - !n) { vf_errno = 34; return n ? (long)(1ULL << 63) : (long)~(1ULL << 63); }
    return n ? (long)(0 - v) : (long)v;
}
static unsigned long vf_strtoul(const char* s, char** e, int b)
{
    bool n, o; unsigned long long v = vf_strto(s, e, b, n, o);
    if (o) { vf_errno = 34; return ~0UL; }
    return n ? 0 - v : v;
}
long __isoc23_strtol(const char* s, char** e, int b) noexcept { return vf_strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) noexcept { return vf_strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) noexcept { return vf_strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) noexcept { return vf_strtoul(s, e, b); }
char* strstr(const char* h, const char* n) noexcept
{
    for (;; ++h) { size_t i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return const_cast<char*>(h); if (!*h) return nullptr; }
}
size_t strnlen(const char* s, size_t m) noexcept { size_t i = 0; while (i < m && s[i]) ++i; return i; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strchr(const char* s, int c) noexcept { for (;; ++s) { if (*s == (char)c) return const_cast<char*>(s); if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) noexcept { char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = const_cast<char*>(s); if (!*s) return r; } }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) { } return r; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) noexcept { char* r = d; while (*d) ++d; while ((*d++ = *s++)) { } return r; }
void qsort(void* b, size_t n, size_t w, int (*f)(const void*, const void*))
{
    char* p = (char*)b;
    for (size_t i = 1; i < n; ++i)
        for (size_t j = i; j && f(p + (j - 1) * w, p + j * w) > 0; --j)
            for (size_t k = 0; k < w; ++k) { char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; }
}
int pthread_mutex_lock(void*) noexcept { return 0; }
int pthread_mutex_unlock(void*) noexcept { return 0; }
int pthread_mutex_trylock(void*) noexcept { return 0; }
int puts(const char*) { return 0; }
int putchar(int c) { return c; }
char* getenv(const char*) noexcept { return nullptr; }
struct vf_div { int q, r; };
struct vf_ldiv { long q, r; };
vf_div div(int a, int b) noexcept { return { a / b, a % b }; }
vf_ldiv ldiv(long a, long b) noexcept { return { a / b, a % b }; }
vf_ldiv lldiv(long a, long b) noexcept { return { a / b, a % b }; }
}
