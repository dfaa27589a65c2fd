/* snprintf and sprintf for %x %X %u %d %s %c %%, with width, precision, zero
 * flag and length modifiers. */
#ifndef VF_FMT_H
#define VF_FMT_H
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#undef vf_sprintf
#undef vf_snprintf
static size_t vf_emit(char *b, size_t size, size_t n, char c)
{
    if (n < size && n + 1 < size)
        b[n] = c;
    return n + 1;
}
static int vf_vfmt(char *b, size_t size, const char *f, va_list ap)
{
    size_t n = 0;
    for (; *f; f++) {
        if (*f != '%') {
            n = vf_emit(b, size, n, *f);
            continue;
        }
        unsigned width = 0, prec = 1, lng = 0;
        char pad = ' ';
        f++;
        for (; *f == '0' || *f == '#' || *f == '-'; f++)
            if (*f == '0')
                pad = '0';
        for (; *f >= '0' && *f <= '9'; f++)
            width = width * 10 + (*f - '0');
        if (*f == '.') {
            prec = 0;
            pad = ' ';
            for (f++; *f >= '0' && *f <= '9'; f++)
                prec = prec * 10 + (*f - '0');
        }
        for (; *f == 'l' || *f == 'z' || *f == 'h'; f++)
            if (*f != 'h')
                lng = 1;
        if (*f == '%') {
            n = vf_emit(b, size, n, '%');
        } else if (*f == 'c') {
            n = vf_emit(b, size, n, (char)va_arg(ap, int));
        } else if (*f == 's') {
            for (const char *s = va_arg(ap, const char *); *s; s++)
                n = vf_emit(b, size, n, *s);
        } else {
            uint64_t v = lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
            bool neg = false;
            if (*f == 'd' || *f == 'i') {
                int64_t s = lng ? (int64_t)v : (int)(unsigned)v;
                neg = s < 0;
                v = neg ? 0 - (uint64_t)s : (uint64_t)s;
            }
            char d[20];
            unsigned k = 0;
            if (*f == 'x' || *f == 'X') {
                for (unsigned i = 0; i < (lng ? 16 : 8); i++) {
                    unsigned x = (v >> (4 * i)) & 15;
                    d[i] = x < 10 ? '0' + x : (*f == 'x' ? 'a' : 'A') + (x - 10);
                    if (x)
                        k = i + 1;
                }
            } else {
                for (unsigned i = 0; i < 20; i++) {
                    d[i] = '0' + v % 10;
                    if (v)
                        k = i + 1;
                    v /= 10;
                }
            }
            unsigned digits = k > prec ? k : prec;
#if defined(VF_FMT_FIXED) && VF_SYMBOLIC
            /* zero padded fields keep their width, so that positions stay constants */
            if (pad == '0' && width && width < 16) {
                VF_ASSERT(v >> (4 * width) == 0, "the value fits the field");
                digits = width;
            }
#endif
            if (pad == '0' && width > digits + neg)
                digits = width - neg;
            for (unsigned w = digits + neg; w < width; w++)
                n = vf_emit(b, size, n, ' ');
            if (neg)
                n = vf_emit(b, size, n, '-');
            for (unsigned i = 20; i-- > 0;)
                if (i < digits)
                    n = vf_emit(b, size, n, i < k ? d[i] : '0');
        }
    }
    if (size)
        b[n < size ? n : size - 1] = 0;
    return (int)n;
}
int vf_snprintf(char *b, size_t size, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vf_vfmt(b, size, f, ap);
    va_end(ap);
    return r;
}
int vf_sprintf(char *b, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vf_vfmt(b, INT_MAX, f, ap);
    va_end(ap);
    return r;
}
#endif
