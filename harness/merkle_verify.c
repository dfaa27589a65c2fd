/* Verification of NB data blocks against a stored tree and root hash, both
 * symbolic; digests symbolic; read faults. */
#ifndef NB
#define NB 2
#endif
#define MH_OPS (NB + 1)
#include "model_hash.h"
#include <bpak/merkle.h>
#include <bpak/verify.h>
#define DATA 8192
#define TREEO 65536
static struct vf_b32 stored[NB], root, salt;
static uint8_t pad_byte;
static unsigned pad_at, reads, rfail, rkind;
static bool rfailed;
static uint8_t token, dval;
static unsigned dpos;

static ssize_t rd(off_t off, uint8_t *buf, size_t n, void *user)
{
    VF_ASSERT(user == &token, "the caller's context is passed on");
    ++reads;
    if (MH_FWIN(reads) && reads == rfail) {
        rfailed = true;
        return rkind == 0 ? -BPAK_READ_ERROR : rkind == 1 ? (ssize_t)n - 1 : 0;
    }
    if (off >= TREEO) {
        unsigned o = off - TREEO;
        VF_ASSERT(o + n <= 4096, "reads of the tree stay inside it");
#ifdef FAULTS
        for (unsigned i = 0; i < 32; i++)
            buf[i] = 0;
#else
        for (unsigned i = 0; i < 32; i++)
            if (i < n)
                buf[i] = (o + i) / 32 < NB ? stored[(o + i) / 32].b[(o + i) % 32] : o + i == pad_at ? pad_byte : 0;
#endif
    } else {
        VF_ASSERT(off >= DATA && off + n <= DATA + NB * 4096, "reads of the data stay inside it");
        unsigned o = off - DATA;
#ifndef FAULTS
        memset(buf, 0, n);
        if (dpos >= o && dpos - o < n)
            buf[dpos - o] = dval;
#endif
    }
    return n;
}

void harness(void)
{
    mh_setup();
#ifdef FAULTS
    memset(MH.digest, 0, sizeof(MH.digest));
#else
    for (unsigned i = 0; i < NB; i++)
        vf_fill_b32(&stored[i]);
    vf_fill_b32(&root);
#endif
    vf_fill_b32(&salt);
    
#ifdef WOP
    unsigned wop = WOP, wpos = vf_u16();
#else
    unsigned wop = vf_u8(), wpos = vf_u16();
#endif
    VF_ASSUME(wop < MH_OPS && wpos < 4096 + 32);
    MH.wop = wop;
    MH.wpos = wpos;
    dpos = vf_u16();
    dval = vf_u8();
    VF_ASSUME(dpos < NB * 4096 && dval != 0);
    pad_byte = vf_u8();
    pad_at = NB * 32 + 33;
#ifdef FAULTS
    MH.fail_at = vf_u16();
    rfail = vf_u16();
    rkind = vf_u8() % 3;
    MH.wop = 99;
#endif
    int rc = bpak_verify_merkle_tree(rd, DATA, NB * 4096, TREEO, root.b, salt.b, &token);
    bool tree_ok = true, root_ok = true;
    for (unsigned i = 0; i < NB; i++)
        for (unsigned b = 0; b < 32; b++)
            tree_ok = tree_ok && stored[i].b[b] == MH.digest[i][b];
    for (unsigned b = 0; b < 32; b++)
        root_ok = root_ok && root.b[b] == MH.digest[NB == 1 ? 0 : NB][b];
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (rc == BPAK_OK) {
        VF_ASSERT(!MH.failed && !rfailed, "accepted only if everything could be read and hashed");
        VF_ASSERT(tree_ok, "accepted only if every stored hash is the hash of its block");
        VF_ASSERT(root_ok, "accepted only if the root hash is the expected one");
        VF_ASSERT(MH.ops == (NB == 1 ? 1 : MH_OPS), "every block is hashed");
#ifndef FAULTS
        if (wop < MH.ops) {
            uint8_t want = wpos < 32 ? salt.b[wpos]
                         : wop < NB  ? (wop * 4096 + wpos - 32 == dpos ? dval : 0)
                         : wpos - 32 < NB * 32 ? stored[(wpos - 32) / 32].b[(wpos - 32) % 32]
                         : wpos - 32 == pad_at ? pad_byte : 0;
            VF_ASSERT(MH.seen && MH.val == want, "every stored byte of data and tree is hashed after the salt");
        }
#endif
        VF_REACH("accepted");
    } else {
        VF_ASSERT(MH.failed || rfailed || !tree_ok || !root_ok, "a matching tree is accepted");
        if (!MH.failed && !rfailed && tree_ok) {
            VF_ASSERT(rc == -BPAK_BAD_ROOT_HASH, "a wrong root hash is told");
#ifndef FAULTS
            VF_REACH("bad root");
#endif
        }
#ifndef FAULTS
        if (!MH.failed && !rfailed && !tree_ok)
            VF_REACH("bad tree");
#else
        if (MH.failed)
            VF_REACH("hash fault");
        if (rfailed)
            VF_REACH("read fault");
#endif
    }
}
