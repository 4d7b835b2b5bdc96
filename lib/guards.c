/*
 * Stand between boxes and the libraries which are not built with the address sanitizer: what boxes passes to them is
 * looked at here, in code that is, before the library gets it. Linked into the asan variant with -Wl,--wrap.
 */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <unistr.h>
#include <uniwidth.h>
#include <uniconv.h>
#include <unistdio.h>
#define PCRE2_CODE_UNIT_WIDTH 32
#include <pcre2.h>

static volatile uint32_t seen;

static void readable(const uint32_t *s, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        seen = ((const volatile uint32_t *) s)[i];
    }
}

static void writable(uint32_t *s, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        volatile uint32_t *p = s + i;
        *p = *p;
    }
}

static size_t terminated(const uint32_t *s)
{
    size_t n = 0;
    while (((const volatile uint32_t *) s)[n] != 0) {
        ++n;
    }
    return n;
}

static size_t terminated_or(const uint32_t *s, size_t max)
{
    size_t n = 0;
    while (n < max && ((const volatile uint32_t *) s)[n] != 0) {
        ++n;
    }
    return n;
}

static void terminated8(const char *s)
{
    while (*(const volatile char *) s) {
        ++s;
    }
}

size_t __real_u32_strlen(const uint32_t *s);
size_t __wrap_u32_strlen(const uint32_t *s) { terminated(s); return __real_u32_strlen(s); }

uint32_t *__real_u32_strdup(const uint32_t *s);
uint32_t *__wrap_u32_strdup(const uint32_t *s)
{
    /* the result is to be one that the sanitizer knows; the library's malloc() is replaced as well */
    terminated(s);
    return __real_u32_strdup(s);
}

uint32_t *__real_u32_set(uint32_t *s, ucs4_t c, size_t n);
uint32_t *__wrap_u32_set(uint32_t *s, ucs4_t c, size_t n) { writable(s, n); return __real_u32_set(s, c, n); }

uint32_t *__real_u32_cpy(uint32_t *d, const uint32_t *s, size_t n);
uint32_t *__wrap_u32_cpy(uint32_t *d, const uint32_t *s, size_t n)
{
    readable(s, n);
    writable(d, n);
    return __real_u32_cpy(d, s, n);
}

uint32_t *__real_u32_move(uint32_t *d, const uint32_t *s, size_t n);
uint32_t *__wrap_u32_move(uint32_t *d, const uint32_t *s, size_t n)
{
    readable(s, n);
    writable(d, n);
    return __real_u32_move(d, s, n);
}

int __real_u32_cmp(const uint32_t *a, const uint32_t *b, size_t n);
int __wrap_u32_cmp(const uint32_t *a, const uint32_t *b, size_t n)
{
    /* not beyond the first difference */
    for (size_t i = 0; i < n; ++i) {
        uint32_t x = ((const volatile uint32_t *) a)[i];
        uint32_t y = ((const volatile uint32_t *) b)[i];
        if (x != y) {
            break;
        }
    }
    return __real_u32_cmp(a, b, n);
}

int __real_u32_strcmp(const uint32_t *a, const uint32_t *b);
int __wrap_u32_strcmp(const uint32_t *a, const uint32_t *b)
{
    for (size_t i = 0; ; ++i) {
        uint32_t x = ((const volatile uint32_t *) a)[i];
        uint32_t y = ((const volatile uint32_t *) b)[i];
        if (x != y || x == 0) {
            break;
        }
    }
    return __real_u32_strcmp(a, b);
}

int __real_u32_strncmp(const uint32_t *a, const uint32_t *b, size_t n);
int __wrap_u32_strncmp(const uint32_t *a, const uint32_t *b, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        uint32_t x = ((const volatile uint32_t *) a)[i];
        uint32_t y = ((const volatile uint32_t *) b)[i];
        if (x != y || x == 0) {
            break;
        }
    }
    return __real_u32_strncmp(a, b, n);
}

const uint32_t *__real_u32_next(ucs4_t *c, const uint32_t *s);
const uint32_t *__wrap_u32_next(ucs4_t *c, const uint32_t *s) { readable(s, 1); return __real_u32_next(c, s); }

uint32_t *__real_u32_strstr(const uint32_t *h, const uint32_t *n);
uint32_t *__wrap_u32_strstr(const uint32_t *h, const uint32_t *n)
{
    terminated(h);
    terminated(n);
    return __real_u32_strstr(h, n);
}

uint32_t *__real_u32_strrchr(const uint32_t *s, ucs4_t c);
uint32_t *__wrap_u32_strrchr(const uint32_t *s, ucs4_t c) { terminated(s); return __real_u32_strrchr(s, c); }

uint32_t *__real_u32_strchr(const uint32_t *s, ucs4_t c);
uint32_t *__wrap_u32_strchr(const uint32_t *s, ucs4_t c) { terminated(s); return __real_u32_strchr(s, c); }

uint32_t *__real_u32_strcpy(uint32_t *d, const uint32_t *s);
uint32_t *__wrap_u32_strcpy(uint32_t *d, const uint32_t *s)
{
    writable(d, terminated(s) + 1);
    return __real_u32_strcpy(d, s);
}

uint32_t *__real_u32_strcat(uint32_t *d, const uint32_t *s);
uint32_t *__wrap_u32_strcat(uint32_t *d, const uint32_t *s)
{
    size_t k = terminated(d);
    writable(d + k, terminated(s) + 1);
    return __real_u32_strcat(d, s);
}

uint32_t *__real_u32_strncpy(uint32_t *d, const uint32_t *s, size_t n);
uint32_t *__wrap_u32_strncpy(uint32_t *d, const uint32_t *s, size_t n)
{
    terminated_or(s, n);
    writable(d, n);
    return __real_u32_strncpy(d, s, n);
}

int __real_u32_strwidth(const uint32_t *s, const char *enc);
int __wrap_u32_strwidth(const uint32_t *s, const char *enc)
{
    terminated(s);
    terminated8(enc);
    return __real_u32_strwidth(s, enc);
}

int __real_u32_width(const uint32_t *s, size_t n, const char *enc);
int __wrap_u32_width(const uint32_t *s, size_t n, const char *enc)
{
    readable(s, n);
    return __real_u32_width(s, n, enc);
}

char *__real_u32_strconv_to_encoding(const uint32_t *s, const char *to, enum iconv_ilseq_handler h);
char *__wrap_u32_strconv_to_encoding(const uint32_t *s, const char *to, enum iconv_ilseq_handler h)
{
    terminated(s);
    terminated8(to);
    return __real_u32_strconv_to_encoding(s, to, h);
}

uint32_t *__real_u32_strconv_from_encoding(const char *s, const char *from, enum iconv_ilseq_handler h);
uint32_t *__wrap_u32_strconv_from_encoding(const char *s, const char *from, enum iconv_ilseq_handler h)
{
    terminated8(s);
    terminated8(from);
    return __real_u32_strconv_from_encoding(s, from, h);
}

pcre2_code_32 *__real_pcre2_compile_32(PCRE2_SPTR32 p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *at,
                                       pcre2_compile_context_32 *c);
pcre2_code_32 *__wrap_pcre2_compile_32(PCRE2_SPTR32 p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *at,
                                       pcre2_compile_context_32 *c)
{
    if (n == PCRE2_ZERO_TERMINATED) {
        terminated(p);
    }
    else {
        readable(p, n);
    }
    return __real_pcre2_compile_32(p, n, o, e, at, c);
}

int __real_pcre2_match_32(const pcre2_code_32 *c, PCRE2_SPTR32 s, PCRE2_SIZE n, PCRE2_SIZE at, uint32_t o,
                          pcre2_match_data_32 *m, pcre2_match_context_32 *mc);
int __wrap_pcre2_match_32(const pcre2_code_32 *c, PCRE2_SPTR32 s, PCRE2_SIZE n, PCRE2_SIZE at, uint32_t o,
                          pcre2_match_data_32 *m, pcre2_match_context_32 *mc)
{
    if (n == PCRE2_ZERO_TERMINATED) {
        terminated(s);
    }
    else {
        readable(s, n);
    }
    return __real_pcre2_match_32(c, s, n, at, o, m, mc);
}

int __real_pcre2_substitute_32(const pcre2_code_32 *c, PCRE2_SPTR32 s, PCRE2_SIZE n, PCRE2_SIZE at, uint32_t o,
                               pcre2_match_data_32 *m, pcre2_match_context_32 *mc, PCRE2_SPTR32 r, PCRE2_SIZE rn,
                               PCRE2_UCHAR32 *out, PCRE2_SIZE *outlen);
int __wrap_pcre2_substitute_32(const pcre2_code_32 *c, PCRE2_SPTR32 s, PCRE2_SIZE n, PCRE2_SIZE at, uint32_t o,
                               pcre2_match_data_32 *m, pcre2_match_context_32 *mc, PCRE2_SPTR32 r, PCRE2_SIZE rn,
                               PCRE2_UCHAR32 *out, PCRE2_SIZE *outlen)
{
    if (n == PCRE2_ZERO_TERMINATED) {
        terminated(s);
    }
    else {
        readable(s, n);
    }
    if (rn == PCRE2_ZERO_TERMINATED) {
        terminated(r);
    }
    else {
        readable(r, rn);
    }
    writable(out, *outlen);
    return __real_pcre2_substitute_32(c, s, n, at, o, m, mc, r, rn, out, outlen);
}
