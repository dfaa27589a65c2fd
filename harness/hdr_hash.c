/* Header digest: what is hashed, for every header */
#define MH_OPS 1
#include "model_hash.h"
#include <bpak/verify.h>
void harness(void)
{
    static struct vf_b4096 hb, ob;
    uint8_t out[64];
    size_t size = vf_u8();
    vf_fill_b4096(&hb);
    ob = hb;
    struct bpak_header *h = (struct bpak_header *)&hb;
    unsigned hash_kind = h->hash_kind;
    mh_setup();
#ifndef FAULTS
    VF_ASSUME(hash_kind >= BPAK_HASH_SHA256 && hash_kind <= BPAK_HASH_SHA512);
#endif
    MH.wop = 0;
    MH.wpos = vf_u16();
    VF_ASSUME(MH.wpos < 4096);
#ifdef FAULTS
    MH.fail_at = vf_u16();
    MH.wop = 9;
#endif
    VF_ASSUME(size <= sizeof(out));
    int rc = bpak_verify_compute_header_hash(h, out, &size);
    bool kind_ok = hash_kind >= BPAK_HASH_SHA256 && hash_kind <= BPAK_HASH_SHA512;
    VF_ASSERT(rc <= 0, "errors are negative codes");
    VF_ASSERT(!MH.failed || rc != BPAK_OK, "a failing hash function is reported");
    VF_ASSERT(kind_ok || rc != BPAK_OK, "an unknown hash kind is reported");
    if (rc == BPAK_OK) {
        VF_ASSERT(MH.ops == 1 && MH.finals == 1 && MH.kind[0] == hash_kind, "one digest of the header's kind");
        VF_ASSERT(MH.len[0] == 4096, "4096 bytes are hashed");
#ifndef FAULTS
        uint8_t want = MH.wpos < 4096 - 514 ? ob.b[MH.wpos] : 0;
        VF_ASSERT(MH.seen && MH.val == want, "every header byte is covered, the signature as zeroes");
#endif
        VF_ASSERT(size == mh_size(hash_kind), "digest size is returned");
        bool same = true;
        for (unsigned i = 0; i < 64; i++)
            same = same && (i >= size || out[i] == MH.digest[0][i]);
        VF_ASSERT(same, "the digest is returned");
        VF_REACH("hashed");
    } else if (kind_ok && !MH.failed) {
        VF_ASSERT(size < mh_size(hash_kind), "only a too small buffer is an error");
    }
#ifdef FAULTS
    if (MH.failed)
        VF_REACH("fault");
#endif
    unsigned w = vf_u16();
    VF_ASSUME(w < 4096);
    VF_ASSERT(hb.b[w] == ob.b[w], "the header itself is not changed");
}
