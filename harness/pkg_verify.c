/* The decision of bpak_pkg_verify: signature over the header digest, payload
 * digest, hash tree.  Hash operation 0 is the header's, 1 the payload's.  The
 * Merkle engine is a stand-in here (C11-C13 decide the real one). */
#define MH_OPS 2
#define MH_NOWATCH 1
#ifdef TREE
#define VF_PAY 48
#define LEN 9
#else
#define VF_PAY 16
#endif
#define VF_NFILES 1
#ifdef TREE
#include "model_merkle.h"
#endif
#include "model_crypto.h"
#include "vf_file.h"
#include "hdr_same.h"
#include <bpak/pkg.h>
#include <bpak/id.h>
#include <bpak/utils.h>

void harness(void)
{
    static struct bpak_package pkg;
    static struct bpak_header o;
    static uint8_t keymem[64];
    struct bpak_header *h = &pkg.header;
    struct vf_b512 sig;
    struct vf_b64 pd;
    uint16_t sig_size = vf_u16();
    mh_setup();
    mc_setup();
    vf_fill_b512(&sig);
    vf_fill_b64(&pd);
    h->magic = BPAK_HEADER_MAGIC;
    #ifdef KIND
    h->hash_kind = KIND;
#else
    h->hash_kind = 1 + vf_u8() % 3;
#endif
    h->signature_kind = vf_u8();
    h->key_id = vf_u32();
    memcpy(h->signature, sig.b, 512);
    memcpy(h->payload_hash, pd.b, 64);
    h->signature_sz = sig_size;
    vf_f[0].exists = vf_f[0].open = true;
    pkg.fp = VF_FP(0);
    bool tree_ok = true;
#ifdef TREE
    static const uint32_t id = 0x1234;
    struct vf_b32 salt, root, stored;
    bool has_root = TREE & 1, has_salt = TREE & 2, has_tree = TREE & 4;
    struct vf_b16 data;
    h->parts[0].id = 0x77;
    h->parts[0].size = 3;
    h->parts[1].id = id;
    h->parts[1].size = LEN;
    h->parts[2].id = has_tree ? bpak_part_id_to_hash_tree_id(id) : 0x99;
    h->parts[2].size = 34;
    vf_fill_b32(&salt);
    vf_fill_b32(&root);
    vf_fill_b32(&stored);
    vf_fill_b16(&data);
    h->meta[0].id = has_salt ? BPAK_ID_MERKLE_SALT : 5;
    h->meta[0].part_id_ref = id;
    h->meta[0].size = 32;
    h->meta[1].id = has_root ? BPAK_ID_MERKLE_ROOT_HASH : 6;
    h->meta[1].part_id_ref = id;
    h->meta[1].size = 32;
    h->meta[1].offset = 32;
    memcpy(h->metadata, salt.b, 32);
    memcpy(h->metadata + 32, root.b, 32);
    for (unsigned b = 0; b < LEN; b++)
        vf_f[0].pay[3 + b] = data.b[b];
    for (unsigned b = 0; b < 32; b++)
        vf_f[0].pay[3 + LEN + 1 + b] = stored.b[b];
    vf_f[0].size = 4096 + 3 + LEN + 34;
    mm_setup();
    MM.node_at = 1;
    MM.rc_init = vf_bool() ? 0 : -BPAK_SIZE_ERROR;
    MM.rc_write = vf_bool() ? 0 : -BPAK_READ_ERROR;
    if (has_root) {
        tree_ok = has_salt && has_tree && !MM.rc_init && !MM.rc_write;
        for (unsigned b = 0; b < 32; b++)
            tree_ok = tree_ok && stored.b[b] == MM.node.b[b] && root.b[b] == MM.root.b[b];
    }
#else
    unsigned len = LEN, have = vf_u8();
    VF_ASSUME(have <= LEN);
    h->parts[0].id = 0x1234;
    h->parts[0].size = len;
    h->parts[0].flags = vf_bool() ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0;
    vf_f[0].size = 4096 + have;
    tree_ok = have >= len || (h->parts[0].flags & 1);
#endif
    MC.rc = vf_bool() ? 0 : -(int)(vf_u8() % 40);
    MC.verified = vf_bool();
#ifdef FAULTS
    MH.fail_at = vf_u16();
#endif
#ifdef IOFAULTS
    VF.fail_at = vf_u8();
#endif
    o = *h;
    int rc = bpak_pkg_verify(&pkg, (struct bpak_key *)keymem);

    unsigned hl = mh_size(h->hash_kind);
    bool payload_ok = true, sig_ok;
    for (unsigned b = 0; b < 64; b++)
        payload_ok = payload_ok && (b >= hl || pd.b[b] == MH.digest[1][b]);
    sig_ok = sig_size <= 512 && MC.rc == BPAK_OK && MC.verified;
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (rc == BPAK_OK) {
        VF_ASSERT(MC.verifies == 1, "accepted only after the signature was checked, once");
        VF_ASSERT(sig_ok, "accepted only with a signature the backend accepted");
        VF_ASSERT(payload_ok, "accepted only with the stored payload digest");
        VF_ASSERT(tree_ok, "accepted only with a complete payload and matching hash trees");
        VF_ASSERT(!MH.failed && !VF.failed, "accepted only if everything could be read and hashed");
#ifdef TREE
        if (has_root) {
            VF_ASSERT(MM.inits == 1 && MM.finishes == 1 && !MM.over && !MM.unfinished && MM.len == LEN && MM.salt_len == 32 &&
                          MM.offset == 4096 + 3 + LEN && !MM.zero, "the whole part goes through the tree it names, once");
            bool fed = true;
            for (unsigned b = 0; b < 32; b++)
                fed = fed && MM.salt[b] == salt.b[b] && (b >= LEN || MM.data[b] == data.b[b]);
            VF_ASSERT(fed, "the tree is computed over the part's stored bytes and its salt");
            VF_ASSERT(has_salt && has_tree, "a root hash without salt or tree is refused");
        }
#endif
#if !defined(TREE) || TREE == 7 || TREE == 6
        VF_REACH("accepted");
#endif
    } else if (!MH.failed && !VF.failed) {
        VF_ASSERT(!(sig_ok && payload_ok && tree_ok), "a correct package is accepted");
        if (sig_size > 512)
            VF_ASSERT(MC.verifies == 0, "an oversized signature is not looked at");
        else if (MC.rc != BPAK_OK)
            VF_ASSERT(rc == MC.rc, "the backend's error is passed on");
        else if (!MC.verified)
            VF_ASSERT(rc == -BPAK_VERIFY_FAIL, "a wrong signature is told");
        else
            VF_REACH("payload refused");
    }
    if (MC.verifies) {
        bool sb = MC.sig_len == sig_size;
        if (VF_SYMBOLIC || MC.sig == h->signature)
            sb = sb && MC.sig == h->signature;
        bool hb = MC.hash_len == hl;
        for (unsigned b = 0; b < 64; b++)
            hb = hb && (b >= hl || MC.hash[b] == MH.digest[0][b]);
        VF_ASSERT(sb, "the backend gets the stored signature and its size");
        VF_ASSERT(hb && MC.kind == o.hash_kind, "the backend gets the header digest and its kind");
        VF_ASSERT(MC.key == (struct bpak_key *)keymem, "the backend gets the caller's key");
    }
    VF_ASSERT(hdr_same(h, &o), "verification does not change the header");
    VF_ASSERT(vf_f[0].writes == 0 && VF.truncs == 0, "verification does not change the file");
    VF_ASSERT(!VF.bad_handle && !VF.in_header, "only the package's own file is used");
#if defined(FAULTS) || defined(IOFAULTS)
    if (MH.failed || VF.failed)
        VF_REACH("fault");
#endif
}
