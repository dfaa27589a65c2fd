/* Delete entry k of an N-entry packed header.  Sizes of the deleted entry and
 * of the entries after it are symbolic over SIZES; each combination is a path
 * with its own layout, on which ids, references and all content bytes stay
 * symbolic. */
#include "hdr_model.h"
#ifndef SIZES
#define SIZES { 0, 1, 8, 9, 16, 21 }
#endif
static const uint16_t sizes[] = SIZES;
#define NS (sizeof(sizes) / sizeof(sizes[0]))
#define MAXB 64

static void run(unsigned k, const uint16_t *s)
{
    static struct bpak_header h;
    static uint8_t content[N][MAXB];
    static uint32_t id[N], ref[N];
    struct bpak_part_header p0;
    unsigned off = 0, total;

    memset(&h, 0, sizeof(h));
    for (unsigned i = 0; i < N; i++) {
        struct vf_b64 c;
        vf_fill_b64(&c);
        id[i] = vf_u32();
        ref[i] = vf_u32();
        VF_ASSUME(id[i] != 0);
        h.meta[i].id = id[i];
        h.meta[i].part_id_ref = ref[i];
        h.meta[i].size = s[i];
        h.meta[i].offset = off;
        for (unsigned b = 0; b < s[i]; b++) {
            content[i][b] = c.b[b];
            h.metadata[off + b] = c.b[b];
        }
        off += AL8(s[i]);
    }
    total = off;
    h.parts[0].id = vf_u32();
    h.parts[0].size = vf_u64();
    h.parts[0].offset = vf_u64();
    h.parts[0].flags = vf_u8();
    p0 = h.parts[0];

    bpak_del_meta(&h, &h.meta[k]);

    off = 0;
    unsigned j = 0;
    for (unsigned i = 0; i < N; i++) {
        if (i == k)
            continue;
        VF_ASSERT(h.meta[j].id == id[i] && h.meta[j].size == s[i] && h.meta[j].part_id_ref == ref[i],
                  "remaining entries keep identity, size and order");
        VF_ASSERT(h.meta[j].offset == off, "remaining entries stay packed without overlap");
        bool same = true;
        for (unsigned b = 0; b < s[i]; b++)
            same = same && h.metadata[off + b] == content[i][b];
        VF_ASSERT(same, "remaining entries keep their content");
        off += AL8(s[i]);
        for (unsigned b = s[i]; b < AL8(s[i]); b++)
            VF_ASSERT(h.metadata[off - AL8(s[i]) + b] == 0, "alignment gap stays zero");
        j++;
    }
    for (; j < N; j++)
        VF_ASSERT(h.meta[j].id == 0 && h.meta[j].size == 0 && h.meta[j].offset == 0 && h.meta[j].part_id_ref == 0,
                  "freed slot is cleared");
    for (; off < total; off++)
        VF_ASSERT(h.metadata[off] == 0, "bytes of the deleted entry do not stay behind");
    VF_ASSERT(part_eq(&p0, &h.parts[0]), "part table untouched");
    VF_ASSERT(h.magic == 0, "rest of header untouched");
}

void harness(void)
{
#ifdef FULL
    /* completely filled slot table, one fixed size per slot */
    uint16_t s[N];
    for (unsigned i = 0; i < N; i++)
        s[i] = (i % 3 == 0) ? 8 : (i % 3 == 1) ? 21 : 33;
    run(K, s);
#else
    uint16_t s[3];
    uint16_t b = vf_u16(), c = vf_u16();
    for (unsigned y = 0; y < NS; y++)
        for (unsigned z = 0; z < NS; z++)
            if (b == sizes[y] && c == sizes[z]) {
                s[0] = S0;
                s[1] = sizes[y];
                s[2] = sizes[z];
                run(K, s);
            }
#endif
    VF_REACH("deleted");
}
