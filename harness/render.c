/* Binary data and metadata as text. */
#include "vf.h"
#include "vf_fmt.h"
#include <bpak/id.h>
#include <bpak/utils.h>
#define ROOM 96
static char hexd(unsigned v)
{
    return v < 10 ? '0' + v : 'a' + (v - 10);
}
static char buf[ROOM];
static char old[ROOM];

/* nothing behind the given size is written */
static bool kept(size_t size)
{
    bool ok = true;
    for (unsigned i = 0; i < ROOM; i++)
        ok = ok && (i < size || buf[i] == old[i]);
    return ok;
}
static bool ended(size_t size)
{
    bool e = false;
    for (unsigned i = 0; i < ROOM; i++)
        e = e || (i < size && buf[i] == 0);
    return e;
}

void harness(void)
{
    struct vf_b64 c;
    vf_fill_b64(&c);
    for (unsigned i = 0; i < ROOM; i++)
        buf[i] = old[i] = 0x55;
    size_t size = vf_u8();
    VF_ASSUME(size <= 90);
#if defined(BIN2HEX)
    size_t n = vf_u8();
    VF_ASSUME(n <= BIN2HEX);
    int rc = bpak_bin2hex(c.b, n, buf, size);
    if (size >= 2 * n + 1) {
        bool same = rc == BPAK_OK;
        for (unsigned i = 0; i < BIN2HEX; i++)
            same = same && (i >= n || (buf[2 * i] == hexd(c.b[i] >> 4) && buf[2 * i + 1] == hexd(c.b[i] & 15)));
        VF_ASSERT(same && buf[2 * n] == 0, "every byte becomes its two hex digits, with a terminator");
        VF_REACH("converted");
    } else {
        VF_ASSERT(rc < 0, "a buffer that is too small is refused");
        VF_REACH("refused");
    }
    VF_ASSERT(kept(size), "nothing is written behind the buffer");
#elif defined(UUID)
    int rc = bpak_uuid_to_string(c.b, buf, size);
    if (size >= 37) {
        bool same = rc == BPAK_OK;
        unsigned at = 0;
        for (unsigned i = 0; i < 16; i++) {
            if (i == 4 || i == 6 || i == 8 || i == 10)
                same = same && buf[at++] == '-';
            same = same && buf[at] == hexd(c.b[i] >> 4) && buf[at + 1] == hexd(c.b[i] & 15);
            at += 2;
        }
        VF_ASSERT(same && buf[36] == 0, "the id's canonical text, with a terminator");
        VF_REACH("converted");
    } else {
        VF_ASSERT(rc < 0, "a buffer that is too small is refused");
        VF_REACH("refused");
    }
    VF_ASSERT(kept(size), "nothing is written behind the buffer");
#else
    static struct bpak_header h;
    struct bpak_meta_header *m = &h.meta[1];
    m->id = ID;
    m->size = MSIZE;
    m->offset = 16;
    for (unsigned i = 0; i < 64; i++)
        h.metadata[16 + i] = c.b[i];
    int rc = bpak_meta_to_string(&h, m, buf, size);
    VF_ASSERT(rc <= 0, "errors are negative codes");
    VF_ASSERT(kept(size), "nothing is written behind the buffer");
    VF_ASSERT(size == 0 || ended(size), "the text is terminated");
    if (MSIZE < NEED)
        VF_ASSERT(rc < 0 && (size == 0 || buf[0] == 0), "metadata that is too short is refused");
    uint32_t v32 = c.b[0] | c.b[1] << 8 | c.b[2] << 16 | (uint32_t)c.b[3] << 24;
    (void)v32;
    if (rc == BPAK_OK && size == 90) {
        bool same = true;
#if KIND == 1 /* plain bytes as hex */
        for (unsigned i = 0; i < 32; i++)
            same = same && buf[2 * i] == hexd(c.b[i] >> 4) && buf[2 * i + 1] == hexd(c.b[i] & 15);
        same = same && buf[64] == 0;
#elif KIND == 2 /* text */
        for (unsigned i = 0; i < MSIZE; i++)
            same = same && (uint8_t)buf[i] == c.b[i];
        same = same && buf[MSIZE] == 0;
#elif KIND == 3 /* an id in hex, after PRE characters */
        unsigned at = PRE, d = 1;
        for (unsigned i = 0; i < 8; i++)
            if (v32 >> (4 * i) & 15)
                d = i + 1;
        for (unsigned i = 0; i < 8; i++)
            if (i < d)
                same = same && buf[at + i] == hexd(v32 >> (4 * (d - 1 - i)) & 15);
        same = same && buf[at + d] == 0;
#elif KIND == 4 /* a package id */
        same = buf[8] == '-' && buf[0] == hexd(c.b[0] >> 4) && buf[35] == hexd(c.b[15] & 15) && buf[36] == 0;
#endif
        VF_ASSERT(same, "the text is that of the metadata's value");
        if (MSIZE >= NEED)
            VF_REACH("rendered");
    }
    VF_ASSERT(MSIZE < NEED || size < 90 || rc == BPAK_OK, "metadata of the right size is rendered");
#endif
}
