/* Signing a package and writing a signature into it.  Hash operation 0 is the
 * payload's, 1 the header's. */
#define MH_OPS 2
#ifdef NOWATCH
#define MH_NOWATCH 1
#endif
#define VF_NFILES 1
#define VF_PAY 16
#include "model_crypto.h"
#include "vf_file.h"
#include "hdr_same.h"
#include <bpak/pkg.h>
#ifndef LEN
#define LEN 5
#endif

void harness(void)
{
    static struct bpak_package pkg;
    static struct bpak_header o, f0;
    struct bpak_header *h = &pkg.header;
    struct vf_b512 sig;
    struct vf_b64 pd;
    mh_setup();
    mc_setup();
    vf_fill_b512(&sig);
    vf_fill_b64(&pd);
    h->magic = BPAK_HEADER_MAGIC;
    h->hash_kind = KIND;
    h->signature_kind = vf_u8();
    h->key_id = vf_u32();
    h->keystore_id = vf_u32();
    h->alignment = vf_u16();
    for (unsigned i = 0; i < 512; i++)
        h->signature[i] = sig.b[i];
    for (unsigned i = 0; i < 64; i++)
        h->payload_hash[i] = pd.b[i];
    h->signature_sz = vf_u16();
    h->metadata[0] = vf_u8();
    h->metadata[1919] = vf_u8();
    h->parts[0].id = 0x1234;
    h->parts[0].size = LEN;
    h->parts[0].pad_bytes = 3;
    vf_f[0].exists = vf_f[0].open = true;
    pkg.fp = VF_FP(0);
    vf_f[0].size = 4096 + LEN + 3;
    for (unsigned i = 0; i < LEN + 3; i++)
        vf_f[0].pay[i] = vf_u8();
    vf_f[0].hdr.magic = 0x11223344;
    f0 = vf_f[0].hdr;
    struct vf_file before = vf_f[0];
#ifdef IOFAULTS
    VF.fail_at = vf_u8();
#endif
    o = *h;
    int rc;
    unsigned hl = mh_size(KIND);
#ifdef RAW
    uint8_t *in = vf_bool() ? sig.b : h->signature; /* its own buffer is fine, too */
    size_t n = vf_u16();
    in = sig.b;
    VF_ASSUME(n <= 520);
    static uint8_t big[520];
    struct vf_b512 ns;
    vf_fill_b512(&ns);
    for (unsigned i = 0; i < 512; i++)
        big[i] = ns.b[i];
    (void)in;
    rc = bpak_pkg_write_raw_signature(&pkg, big, n);
    const uint8_t *want = ns.b;
    unsigned wn = n;
    bool refuse = n > 512;
#else
    struct vf_b512 ns;
    static struct bpak_key *key;
    static bool freed;
    vf_fill_b512(&ns);
    key = malloc(sizeof(*key));
    MC.loaded = key;
    MC.rc = vf_bool() ? 0 : -(int)(1 + vf_u8() % 40);
    MC.out_len = vf_u16();
    VF_ASSUME(MC.out_len <= 512);
    for (unsigned i = 0; i < 512; i++)
        MC.out[i] = ns.b[i];
    static const char name[] = "k";
    rc = bpak_pkg_sign(&pkg, name);
    const uint8_t *want = ns.b;
    unsigned wn = MC.out_len;
    bool refuse = MC.rc != 0;
    VF_ASSERT(MC.verifies == 0 && MC.pubs == 0 && MC.pris <= 1 && MC.signs <= 1, "a private key is loaded and used once");
    if (MC.pris)
        VF_ASSERT(MC.file == name, "the named key is loaded");
    (void)freed;
#endif
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (rc == BPAK_OK) {
        VF_ASSERT(!refuse && !VF.failed, "success only if every step succeeded");
        unsigned w = vf_u16();
        VF_ASSUME(w < 512);
        VF_ASSERT(h->signature[w] == (w < wn ? want[w] : 0), "the signature is stored, the rest of its area is zero");
        VF_ASSERT(h->signature_sz == wn, "with its length");
        VF_ASSERT(hdr_same_fixed(&vf_f[0].hdr, h) && hdr_same_tables(&vf_f[0].hdr, h) && hdr_same_metadata(&vf_f[0].hdr, h) &&
                      hdr_same_signature(&vf_f[0].hdr, h), "the file's header is the one in memory");
        o.signature_sz = h->signature_sz;
#ifndef RAW
        bool ph = true, hb = MC.hash_len == hl;
        for (unsigned b = 0; b < 64; b++) {
            if (b < hl) {
                ph = ph && h->payload_hash[b] == MH.digest[0][b];
                o.payload_hash[b] = h->payload_hash[b];
                hb = hb && MC.hash[b] == MH.digest[1][b];
            }
        }
        VF_ASSERT(ph, "the header carries the digest of the current payload");
        VF_ASSERT(MC.signs == 1 && hb && MC.kind == KIND && MC.key == key && MC.out_room == 512, "the header digest is signed with the loaded key");
#endif
        VF_ASSERT(hdr_same_fixed(h, &o) && hdr_same_tables(h, &o) && hdr_same_metadata(h, &o), "nothing else in the header changes");
        VF_REACH("signed");
    } else {
        if (!VF.failed) {
            VF_ASSERT(refuse, "a well-formed request succeeds");
            VF_ASSERT(vf_f[0].writes == 0, "a refused request writes nothing");
            VF_REACH("refused");
        }
#ifdef IOFAULTS
        else
            VF_REACH("fault");
#endif
        if (vf_f[0].writes == 0)
            VF_ASSERT(hdr_same_fixed(&vf_f[0].hdr, &f0), "nothing is written");
    }
    bool pay = true;
    for (unsigned i = 0; i < VF_PAY; i++)
        pay = pay && vf_f[0].pay[i] == before.pay[i];
    VF_ASSERT(pay && vf_f[0].size == before.size && !VF.outside && VF.truncs == 0, "the payload stays as it is");
    VF_ASSERT(!VF.bad_handle && !VF.in_header && vf_f[0].writes <= 1, "only the package's own header is written, once");
}
