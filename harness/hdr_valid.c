/* bpak_valid_header accepts exactly the well-formed headers */
#include "hdr_model.h"
void harness(void)
{
    static struct bpak_header h;
    vf_fill_header(&h);
    bool ok = h.magic == 0x42504132u || h.magic == BPAK_HEADER_MAGIC;
    ok = ok && h.hash_kind != 0;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++)
        if (h.parts[i].id) {
            uint64_t s = h.parts[i].size, t = s + h.parts[i].pad_bytes;
            ok = ok && t >= s && (t & 511) == 0;
        }
    for (unsigned i = 0; i < BPAK_MAX_META; i++)
        if (h.meta[i].id)
            ok = ok && (unsigned)h.meta[i].size + h.meta[i].offset <= 1920;
    int rc = bpak_valid_header(&h);
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (rc == BPAK_OK) {
        VF_ASSERT(h.magic == BPAK_HEADER_MAGIC, "accepted headers carry the magic number");
        VF_ASSERT(ok, "accepted headers are well-formed in every slot");
        VF_REACH("accepted");
    } else {
        VF_ASSERT(!(ok && h.magic == BPAK_HEADER_MAGIC), "well-formed headers are accepted");
        VF_REACH("refused");
    }
}
