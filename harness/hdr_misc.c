/* Taking the signature out of a header; transport metadata; key ids. */
#include "vf.h"
#include "hdr_same.h"
#include <bpak/id.h>
#ifdef COPYZ
void harness(void)
{
    static struct bpak_header h, o;
    static struct vf_b512 out, was;
    vf_fill_header(&h);
    vf_fill_b512(&out);
    was = out;
    h.signature_sz = SZ;
    o = h;
    size_t size = vf_u32(), n = SZ;
    size_t asked = size;
    bool ok = n > 0 && n <= 512 && n <= size;
    unsigned w = vf_u16();
    VF_ASSUME(w < 512);
    int rc = bpak_copyz_signature(&h, out.b, &size);
    VF_ASSERT(rc <= 0 && (rc == BPAK_OK) == ok, "a signature is taken out exactly when there is one that fits");
    if (rc == BPAK_OK) {
        VF_ASSERT(size == n && out.b[w] == (w < n ? o.signature[w] : was.b[w]), "exactly the signature's bytes are given out");
        VF_ASSERT(h.signature_sz == 0 && h.signature[w] == 0, "the header no longer has a signature");
        o.signature_sz = 0;
        VF_ASSERT(hdr_same_fixed(&h, &o) && hdr_same_tables(&h, &o) && hdr_same_metadata(&h, &o), "nothing else of the header changes");
        VF_REACH("taken");
    } else {
        VF_ASSERT(out.b[w] == was.b[w] && size == asked && hdr_same(&h, &o), "a refused request changes nothing");
        VF_REACH("refused");
    }
}
#else
void harness(void)
{
    static struct bpak_header h, o;
    vf_fill_header(&h);
    o = h;
    uint32_t k = vf_u32(), s = vf_u32();
    int rc = bpak_set_key_id(&h, k), rs = bpak_set_keystore_id(&h, s);
    VF_ASSERT(rc == BPAK_OK && rs == BPAK_OK && h.key_id == k && h.keystore_id == s, "key and keystore id are set");
    o.key_id = k;
    o.keystore_id = s;
    VF_ASSERT(hdr_same(&h, &o), "nothing else of the header changes");
    VF_REACH("set");
    static struct bpak_header n;
    vf_fill_header(&n);
    rc = bpak_init_header(&n);
    bool blank = rc == BPAK_OK && n.magic == BPAK_HEADER_MAGIC && n.hash_kind == BPAK_HASH_SHA256 && n.signature_kind == BPAK_SIGN_PRIME256v1 && n.alignment == 512;
    static struct bpak_header z;
    z.magic = n.magic;
    z.hash_kind = n.hash_kind;
    z.signature_kind = n.signature_kind;
    z.alignment = n.alignment;
    VF_ASSERT(blank && hdr_same(&n, &z) && bpak_valid_header(&n) == BPAK_OK, "a new header is empty and valid");
}
#endif
