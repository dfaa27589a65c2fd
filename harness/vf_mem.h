/* Byte by byte memset, memcpy, memmove: keeps constants where CBMC's own
 * models, being updates of whole objects, lose them. */
#ifndef VF_MEM_H
#define VF_MEM_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifdef VF_MEMSET_BIG /* the built-in one for big objects */
#pragma push_macro("memset")
#undef memset
void *memset(void *d, int c, size_t n);
static void *vf_big(void *d, int c, size_t n)
{
    return memset(d, c, n);
}
#pragma pop_macro("memset")
#endif
void *vf_memset(void *d, int c, size_t n)
{
#ifdef VF_MEMSET_BIG
    if (n > VF_MEMSET_BIG)
        return vf_big(d, c, n);
#endif
    for (size_t i = 0; i < n; i++)
        ((uint8_t *)d)[i] = (uint8_t)c;
    return d;
}
void *vf_memcpy(void *d, const void *s, size_t n)
{
#ifdef VF_MEM_HDR /* headers as a whole */
    if (n == sizeof(struct bpak_header)) {
        *(struct bpak_header *)d = *(const struct bpak_header *)s;
        return d;
    }
#endif
    for (size_t i = 0; i < n; i++)
        ((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
    return d;
}
void *vf_memmove(void *d, const void *s, size_t n)
{
    if (d == s)
        return d;
    if ((const uint8_t *)d < (const uint8_t *)s)
        return vf_memcpy(d, s, n);
    for (size_t i = n; i > 0; i--)
        ((uint8_t *)d)[i - 1] = ((const uint8_t *)s)[i - 1];
    return d;
}
#endif
