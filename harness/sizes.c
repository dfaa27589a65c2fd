/* Sizes and offsets of parts in any accepted header */
#include "hdr_model.h"
#include <bpak/pkg.h>
#ifndef FIRST
#define FIRST 0
#define LAST 32
#endif
void harness(void)
{
    static struct bpak_package pkg;
    struct bpak_header *h = &pkg.header;
    unsigned n = vf_u8();
    VF_ASSUME(n >= FIRST && n <= LAST);
    vf_fill_header(h);
    for (unsigned i = 0; i < FIRST; i++) {
        h->parts[i].id = 0x1000 + i;
        h->parts[i].size = 600 + 77 * i;
        h->parts[i].pad_bytes = 100 + i;
        h->parts[i].transport_size = 13 * i;
        h->parts[i].flags = i % 4;
    }
    for (unsigned i = LAST; i < BPAK_MAX_PARTS; i++)
        h->parts[i].id = 0;
    uint64_t at[BPAK_MAX_PARTS], enc[BPAK_MAX_PARTS], cur = 4096, inst = 0;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++) {
        struct bpak_part_header *p = &h->parts[i];
        VF_ASSUME((p->id != 0) == (i < n));
        if (i >= n)
            memset(p, 0, sizeof(*p));
        VF_ASSUME(p->size < (1ull << 56) && p->transport_size < (1ull << 56));
        for (unsigned j = 0; i >= FIRST && j < i; j++)
            VF_ASSUME(i >= n || h->parts[j].id != p->id);
        enc[i] = (p->flags & 2) ? p->transport_size : p->size + p->pad_bytes;
        at[i] = cur;
        if (i < n) {
            cur += enc[i];
            inst += p->size + p->pad_bytes;
        }
    }
    bool off = true, sz = true, wo = true;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++) {
        struct bpak_part_header *p = &h->parts[i];
        if (i < n) {
            off = off && (uint64_t)bpak_part_offset(h, p) == at[i];
            struct bpak_part_header c;
            memset(&c, 0, sizeof(c));
            c.id = p->id;
            off = off && (i % 8 != 3 || (uint64_t)bpak_part_offset(h, &c) == at[i]);
        }
        sz = sz && bpak_part_size(p) == enc[i];
        wo = wo && bpak_part_size_wo_pad(p) == ((p->flags & 2) ? p->transport_size : p->size);
    }
    VF_ASSERT(off, "a part starts where the stored sizes of the parts before it end");
    VF_ASSERT(sz, "stored size of a part");
    VF_ASSERT(wo, "stored size of a part without padding");
    VF_ASSERT(bpak_pkg_size(&pkg) == cur, "transport size of a package");
    VF_ASSERT(bpak_pkg_installed_size(&pkg) == inst, "installed size of a package");
    VF_REACH("sizes");
    if (n == LAST)
        VF_REACH("full");
}
