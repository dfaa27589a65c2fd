/* The SHA-256 of one part's data. */
#define MH_OPS 1
#define VF_NFILES 1
#define VF_PAY 40
#include "model_hash.h"
#include "vf_file.h"
#include "hdr_same.h"
#include <bpak/pkg.h>

void harness(void)
{
    static struct bpak_package pkg;
    static struct bpak_header o;
    struct bpak_header *h = &pkg.header;
    uint8_t out[64];
    mh_setup();
    h->magic = BPAK_HEADER_MAGIC;
    h->hash_kind = 1 + vf_u8() % 3;
    uint32_t want = vf_u32();
    uint64_t off = 0, at = 0, size = 0;
    bool found = false;
    for (unsigned i = 0; i < NP; i++) {
        h->parts[i].id = vf_u32();
        VF_ASSUME(h->parts[i].id);
        h->parts[i].size = vf_u8();
        h->parts[i].pad_bytes = vf_u8();
        h->parts[i].flags = vf_u8();
        h->parts[i].transport_size = vf_u8();
        VF_ASSUME(h->parts[i].size <= 19 && h->parts[i].pad_bytes <= 3 && h->parts[i].transport_size <= 19);
        bool enc = h->parts[i].flags & BPAK_FLAG_TRANSPORT;
        if (!found && h->parts[i].id == want) {
            found = true;
            at = off;
            size = enc ? h->parts[i].transport_size : h->parts[i].size;
        }
        off += enc ? h->parts[i].transport_size : h->parts[i].size + h->parts[i].pad_bytes;
    }
    VF_ASSUME(off <= VF_PAY && want);
    vf_f[0].exists = vf_f[0].open = true;
    pkg.fp = VF_FP(0);
    vf_f[0].pos = vf_u8();
    uint64_t have = vf_u8();
    VF_ASSUME(have <= off);
    vf_f[0].size = 4096 + have;
    struct vf_b64 c;
    vf_fill_b64(&c);
    for (unsigned i = 0; i < VF_PAY; i++)
        vf_f[0].pay[i] = c.b[i];
    for (unsigned i = 0; i < 64; i++)
        out[i] = 0xee;
    MH.wpos = vf_u8();
    unsigned room = vf_u8();
    VF_ASSUME(room <= 64);
#ifdef FAULTS
    MH.fail_at = vf_u8();
#endif
#ifdef IOFAULTS
    VF.fail_at = vf_u8();
#endif
    o = *h;
    int rc = bpak_pkg_part_sha256(&pkg, out, room, want);
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (rc == BPAK_OK) {
        VF_ASSERT(found && room >= 32 && (size == 0 || at + size <= have), "success only for a part that is there completely");
        VF_ASSERT(!MH.failed && !VF.failed, "success only if everything could be read and hashed");
        VF_ASSERT(MH.ops == 1 && MH.kind[0] == BPAK_HASH_SHA256 && MH.finals == 1, "one SHA-256");
        VF_ASSERT(MH.len[0] == size, "over exactly the part's data, without padding");
        if (MH.seen)
            VF_ASSERT(MH.val == c.b[at + MH.wpos], "the part's own bytes, in order");
        bool d = true;
        for (unsigned b = 0; b < 64; b++)
            d = d && out[b] == (b < 32 ? MH.digest[0][b] : 0xee);
        VF_ASSERT(d, "the digest is returned and nothing written after it");
        VF_REACH("digest");
    } else if (!MH.failed && !VF.failed) {
        VF_ASSERT(!found || room < 32 || at + size > have, "an intact part is hashed");
        if (!found)
            VF_ASSERT(rc == -BPAK_NOT_FOUND, "a missing part is told");
        VF_REACH("refused");
    }
    for (unsigned b = 0; b < 64; b++)
        if (b >= room)
            VF_ASSERT(out[b] == 0xee, "never writes behind the caller's buffer");
    VF_ASSERT(hdr_same_fixed(h, &o) && hdr_same_tables(h, &o), "the header does not change");
    VF_ASSERT(vf_f[0].writes == 0 && !VF.bad_handle && !VF.in_header && VF.truncs == 0, "the file does not change");
}
