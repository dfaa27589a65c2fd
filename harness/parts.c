/* Part table: add, get, delete on any compact table of 0..32 parts */
#include "hdr_model.h"
#ifndef FIRST
#define FIRST 0
#define LAST 32
#endif
static struct bpak_header h, o;
static unsigned n;

static void setup(void)
{
    n = vf_u8();
    /* the parts before FIRST have fixed ids */
    VF_ASSUME(n >= FIRST && n <= LAST);
    vf_fill_header(&h);
    for (unsigned i = 0; i < FIRST; i++)
        h.parts[i].id = 0x1000 + i;
    for (unsigned i = LAST; i < BPAK_MAX_PARTS; i++)
        h.parts[i].id = 0;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++) {
        VF_ASSUME((h.parts[i].id != 0) == (i < n));
        for (unsigned j = 0; i >= FIRST && j < i; j++)
            VF_ASSUME(i >= n || h.parts[j].id != h.parts[i].id);
        if (i >= n) {
            memset(&h.parts[i], 0, sizeof(h.parts[i]));
        }
    }
    o = h;
}

#ifdef DEL
static void del(unsigned k)
{
    bpak_del_part(&h, &h.parts[k]);
    bool same = true, zero = true;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++) {
        if (i < k)
            same = same && part_eq(&h.parts[i], &o.parts[i]);
        else if (i + 1 < n)
            same = same && part_eq(&h.parts[i], &o.parts[i + 1]);
        else
            zero = zero && h.parts[i].id == 0 && h.parts[i].size == 0 && h.parts[i].offset == 0 &&
                   h.parts[i].transport_size == 0 && h.parts[i].flags == 0 && h.parts[i].pad_bytes == 0;
    }
    VF_ASSERT(same, "remaining parts keep order and attributes");
    VF_ASSERT(zero, "freed slots are cleared");
    VF_ASSERT(slots_eq(&h, &o), "metadata table unchanged");
    VF_ASSERT(h.magic == o.magic && h.metadata[0] == o.metadata[0] && h.metadata[1919] == o.metadata[1919] &&
              h.hash_kind == o.hash_kind, "neighbouring fields unchanged");
    struct bpak_part_header *p = NULL;
    VF_ASSERT(bpak_get_part(&h, o.parts[k].id, &p) == -BPAK_NOT_FOUND, "a deleted part is not found");
    VF_REACH("deleted");
}
#endif

void harness(void)
{
    setup();
#ifdef DEL
    unsigned k = vf_u8();
    VF_ASSUME(k < n);
#ifdef KSET
    static const unsigned ks[] = KSET;
    for (unsigned i = 0; i < sizeof(ks) / sizeof(ks[0]); i++)
        if (k == ks[i])
            del(ks[i]);
#else
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++)
        if (k == i)
            del(i);
#endif
#else
    uint32_t id = vf_u32();
    struct bpak_part_header *p = NULL, *g = NULL;
    VF_ASSUME(id != 0);
    bool exists = false;
    struct bpak_part_header *at = NULL;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++)
        if (h.parts[i].id == id) {
            exists = true;
            at = &h.parts[i];
        }
    int rc = bpak_get_part(&h, id, &g);
    VF_ASSERT((rc == BPAK_OK) == exists, "a part is found exactly if it is there");
    VF_ASSERT(rc == BPAK_OK || rc == -BPAK_NOT_FOUND, "a missing part is reported as such");
    VF_ASSERT(!exists || g == at, "the part with the id is returned");
    VF_ASSERT(bpak_get_part(&h, 0, &g) == -BPAK_NOT_FOUND, "unused slots are not parts");
    rc = bpak_add_part(&h, id, &p);
    if (exists) {
        VF_ASSERT(rc == -BPAK_EXISTS, "a second part with the id is refused");
        VF_REACH("exists");
    } else if (n == BPAK_MAX_PARTS) {
        VF_ASSERT(rc == -BPAK_NO_SPACE_LEFT, "a 33rd part is refused");
#if LAST == 32
        VF_REACH("full");
#endif
    } else {
        VF_ASSERT(rc == BPAK_OK, "a new part is accepted");
        VF_ASSERT(bpak_get_part(&h, id, &g) == BPAK_OK && g == p && p->id == id, "a new part is found");
        VF_REACH("added");
    }
    bool same = true;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++) {
        if (rc == BPAK_OK && i == n) {
            VF_ASSERT(p == &h.parts[i], "parts are appended");
            VF_ASSERT(h.parts[i].size == 0 && h.parts[i].offset == 0 && h.parts[i].transport_size == 0 &&
                      h.parts[i].flags == 0 && h.parts[i].pad_bytes == 0, "a new part starts empty");
        } else {
            same = same && part_eq(&h.parts[i], &o.parts[i]);
        }
    }
    VF_ASSERT(same, "other parts unchanged");
    VF_ASSERT(slots_eq(&h, &o), "metadata table unchanged");
#endif
}
