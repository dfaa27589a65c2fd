/* Identifiers: bpak_crc32 / bpak_id against a bit-serial reference */
#include "vf.h"
#include <bpak/crc.h>
#include <bpak/id.h>
#ifndef L
#define L 12
#endif

static uint32_t ref_crc(uint32_t c, const uint8_t *d, unsigned n)
{
    for (unsigned i = 0; i < n; i++) {
        c ^= d[i];
        for (int b = 0; b < 8; b++)
            c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1;
    }
    return c;
}

void harness(void)
{
#if defined(STEP)
    /* one table step from any state: with the incremental law below this
     * determines the checksum of every input of any length */
    uint32_t c = vf_u32();
    uint8_t b[2];
    b[0] = vf_u8();
    b[1] = vf_u8();
    VF_ASSERT(bpak_crc32(c, b, 0) == c, "an empty input leaves the checksum as it is");
    uint8_t zero = 0;
    bool ok = true;
    for (unsigned lo = 0; lo < 256; lo++) {
        uint32_t s = (c & 0xffffff00u) | lo;
        ok = ok && bpak_crc32(s, &zero, 1) == ref_crc(s, &zero, 1);
    }
    VF_ASSERT(ok, "a zero byte, any preceding state");
    VF_ASSERT(bpak_crc32(c, b, 1) == bpak_crc32(c ^ b[0], &zero, 1), "a byte is combined with the preceding state");
    VF_ASSERT(bpak_crc32(c, b, 2) == bpak_crc32(bpak_crc32(c, b, 1), b + 1, 1), "two bytes are two single steps");
    VF_REACH("step");
#elif defined(STR)
    /* every C string of up to L characters */
    char s[L + 1];
    unsigned n = 0;
    bool ended = false;
    for (unsigned i = 0; i < L; i++) {
        s[i] = (char)vf_u8();
        if (s[i] == 0)
            ended = true;
        if (!ended)
            n++;
    }
    s[L] = 0;
    bpak_id_t id = bpak_id(s);
    for (unsigned k = 0; k <= L; k++)
        if (n == k)
            VF_ASSERT(id == bpak_crc32(0, (const uint8_t *)s, k), "the id of a name is the checksum of its characters");
    VF_ASSERT(n != 0 || id == 0, "the empty name has id 0");
    VF_REACH("id");
#else
    /* a stream cut at any point gives the same value */
    uint8_t d[L];
    uint32_t c = vf_u32();
    for (unsigned i = 0; i < L; i++)
        d[i] = vf_u8();
    uint32_t want = bpak_crc32(c, d, L);
    uint32_t one = c;
    for (unsigned i = 0; i < L; i++)
        one = bpak_crc32(one, &d[i], 1);
    VF_ASSERT(want == one, "the checksum of a buffer is that of its bytes one by one");
    for (unsigned k = 0; k <= L; k++)
        VF_ASSERT(bpak_crc32(bpak_crc32(c, d, k), d + k, L - k) == want, "checksum continued over a split buffer");
    VF_REACH("split");
#endif
}
