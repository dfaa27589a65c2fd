/* Add and look up metadata on any packed table of 0..32 entries */
#include "hdr_model.h"
#ifndef FIRST
#define FIRST 0
#define LAST 32
#endif

void harness(void)
{
    static struct bpak_header h, o;
    unsigned n = vf_u8(), off = 0, used = 0;
    /* entries before FIRST have fixed sizes, the FIRST..LAST ones any */
    VF_ASSUME(n >= FIRST && n <= LAST);
    vf_fill_header(&h);
    for (unsigned i = 0; i < FIRST; i++) {
        h.meta[i].size = 3 * i % 40;
        h.meta[i].offset = off;
        off = AL8(off + h.meta[i].size);
    }
    for (unsigned i = LAST; i < BPAK_MAX_META; i++)
        h.meta[i].id = 0;
    off = 0;
    for (unsigned i = 0; i < BPAK_MAX_META; i++) {
        if (i < n) {
            VF_ASSUME(h.meta[i].id != 0);
#ifndef HOSTILE
            VF_ASSUME(h.meta[i].offset == off);
#endif
            VF_ASSUME(h.meta[i].size <= BPAK_METADATA_BYTES && h.meta[i].offset + h.meta[i].size <= BPAK_METADATA_BYTES);
            used = h.meta[i].offset + h.meta[i].size;
            off = AL8(off + h.meta[i].size);
        } else {
            VF_ASSUME(h.meta[i].id == 0);
        }
    }
    o = h;
    uint32_t id = vf_u32(), ref = vf_u32();
    uint16_t size = vf_u16();
    struct bpak_meta_header *m = (struct bpak_meta_header *)&o;
    VF_ASSUME(id != 0);
    (void)used;
    bool exists = false;
    for (unsigned i = 0; i < BPAK_MAX_META; i++)
        exists = exists || (i < n && o.meta[i].id == id && o.meta[i].part_id_ref == ref);

    int rc = bpak_add_meta(&h, id, ref, size, &m);

    if (exists) {
        VF_ASSERT(rc == -BPAK_EXISTS, "an existing (id, reference) is refused");
        VF_REACH("exists");
    } else if (n == BPAK_MAX_META || off + size > BPAK_METADATA_BYTES) {
        VF_ASSERT(rc == -BPAK_NO_SPACE_LEFT, "metadata that does not fit is refused");
        VF_REACH("no space");
    } else {
        VF_ASSERT(rc == BPAK_OK, "metadata that fits is accepted");
        VF_REACH("added");
    }
    bool slots = true;
    for (unsigned i = 0; i < BPAK_MAX_META; i++) {
        if (rc == BPAK_OK && i == n) {
            VF_ASSERT(m == &h.meta[i], "the new entry is returned");
            VF_ASSERT(h.meta[i].id == id && h.meta[i].part_id_ref == ref && h.meta[i].size == size,
                      "the new entry is as asked for");
            VF_ASSERT(h.meta[i].offset == off && off % 8 == 0, "the new entry is 8-byte aligned behind the others");
            VF_ASSERT(h.meta[i].offset + h.meta[i].size <= BPAK_METADATA_BYTES, "the new entry is inside the area");
        } else {
            slots = slots && slot_eq(&h.meta[i], &o.meta[i]);
        }
    }
    VF_ASSERT(slots, "other entries unchanged");
    VF_ASSERT(parts_eq(&h, &o), "parts unchanged");
    VF_ASSERT(h.magic == o.magic && h.hash_kind == o.hash_kind && h.alignment == o.alignment && h.key_id == o.key_id &&
                  h.signature_sz == o.signature_sz, "rest of the header unchanged");
    unsigned b = vf_u16();
    VF_ASSUME(b < BPAK_METADATA_BYTES);
#ifndef HOSTILE
    /* content bytes of the entries that were there (any watched byte) */
    if (b < used)
        VF_ASSERT(h.metadata[b] == o.metadata[b], "content of other entries unchanged");
#endif
    /* lookup agrees */
    struct bpak_meta_header *g = NULL;
    int rc2 = bpak_get_meta(&h, id, ref, &g);
    if (rc == BPAK_OK)
        VF_ASSERT(rc2 == BPAK_OK && g == m, "the new entry is found");
    else
        VF_ASSERT((rc2 == BPAK_OK) == exists, "refused metadata is not found unless it was there");
}
