/* Lookup over any header whatsoever */
#include "hdr_model.h"
void harness(void)
{
    static struct bpak_header h;
    vf_fill_header(&h);
    uint32_t id = vf_u32(), ref = vf_u32();
    struct bpak_meta_header *m = (void *)&h, *want = NULL, *wantany = NULL, *a = (void *)&h;
    for (int i = BPAK_MAX_META - 1; i >= 0; i--)
        if (id != 0 && h.meta[i].id == id) {
            wantany = &h.meta[i];
            if (h.meta[i].part_id_ref == ref)
                want = &h.meta[i];
        }
    int rc = bpak_get_meta(&h, id, ref, &m);
    VF_ASSERT((rc == BPAK_OK) == (want != NULL), "found exactly if present");
    VF_ASSERT(rc == BPAK_OK || rc == -BPAK_NOT_FOUND, "not found is reported as such");
    VF_ASSERT(m == want, "the first matching entry is returned, or none");
    rc = bpak_get_meta_anyref(&h, id, &a);
    VF_ASSERT((rc == BPAK_OK) == (wantany != NULL), "found with any reference exactly if present");
    VF_ASSERT(rc == BPAK_OK || rc == -BPAK_NOT_FOUND, "not found is reported as such (any reference)");
    VF_ASSERT(a == wantany, "the first entry with any reference is returned, or none");
    if (want)
        VF_REACH("found");
    if (id != 0 && !want && wantany)
        VF_REACH("other reference only");
}
