/* Building a hash tree: NB data blocks in chunks cut at symbolic places.
 * Hash operation k (in order: data blocks, then level by level upwards, then
 * the root) returns symbolic digest k. */
#ifndef NB
#define NB 2
#endif
#define L0 ((NB + 127) / 128)
#define L1 (L0 > 1 ? 1 : 0)
#define MH_OPS (NB + (L0 > 1 ? L0 : 0) + 1)
#if NB > 4
#define MH_LOW (NB - 1)
#define MH_LOWLEN (4096 + 32)
#endif
#include "model_hash.h"
#include <bpak/merkle.h>
#define TREE ((L0 + L1) * 4096)
#if NB > 4
static uint8_t data[4096]; /* the last block; the others are equal to it */
#else
static uint8_t data[NB * 4096];
#endif
/* the tree as 32-byte slots; only slots holding hashes are kept, the others
 * are zero and a write to them is noticed */
#define SLOTS (L1 ? 128 + NB : NB)
/* (arrays of at most 64 elements, which the encoder tracks one by one) */
static struct vf_b32 slot_top[L1 ? L0 : 1], slot_lo[3][NB < 64 ? NB : 64];
static uint8_t *slot_at(unsigned k, unsigned b)
{
    return k < 64 ? &slot_lo[0][k].b[b] : k < 128 ? &slot_lo[1][k - 64].b[b] : &slot_lo[2][k - 128].b[b];
}
static bool stray;
static uint8_t *tree_at(unsigned o)
{
    static struct vf_b32 none_slot;
    unsigned k = o / 32;
    if (L1) {
        if (k < L0)
            return &slot_top[k].b[o % 32];
        if (k >= 128 && k < 128 + NB)
            return slot_at(k - 128, o % 32);
    } else if (k < NB) {
        return slot_at(k, o % 32);
    }
    none_slot.b[o % 32] = 0;
    return &none_slot.b[o % 32];
}
static bool slot_is(unsigned k)
{
    return L1 ? k < L0 || (k >= 128 && k < 128 + NB) : k < NB;
}
static uint8_t tree_get(unsigned o) { return *tree_at(o); }
static unsigned dpos;
static uint8_t dval;
static const off_t base = 12345;
static uint8_t token;
#ifdef FAULTS
static unsigned io, io_fail, io_kind;
static bool io_failed;
static bool io_fault(void)
{
    ++io;
    if (MH_FWIN(io) && io == io_fail) {
        io_failed = true;
        return true;
    }
    return false;
}
#define IOF(n) if (io_fault()) return io_kind == 0 ? -BPAK_FAILED : io_kind == 1 ? (ssize_t)(n) - 1 : 0
#else
#define io_failed false
#define IOF(n)
#endif

static ssize_t wr(off_t off, uint8_t *buf, size_t n, void *user)
{
    VF_ASSERT(user == &token, "the caller's context is passed on");
    VF_ASSERT(off >= base && (uint64_t)off + n <= (uint64_t)base + TREE, "writes stay inside the tree");
    IOF(n);
#ifndef FAULTS
    if ((off - base) % 32 == 0 && n == 32) { /* one slot */
        struct vf_b32 t;
        bool zero = true;
        for (unsigned i = 0; i < 32; i++)
            t.b[i] = buf[i];
        if (slot_is((off - base) / 32)) {
            *(struct vf_b32 *)tree_at(off - base) = t;
        } else {
            for (unsigned i = 0; i < 32; i++)
                zero = zero && t.b[i] == 0;
            stray = stray || !zero;
        }
        return n;
    }
    for (unsigned i = 0; i < n; i++) {
        uint8_t *p = tree_at(off - base + i);
        *p = buf[i];
        if (!slot_is((off - base + i) / 32))
            stray = stray || buf[i] != 0;
    }
#endif
    return n;
}

static ssize_t rd(off_t off, uint8_t *buf, size_t n, void *user)
{
    VF_ASSERT(user == &token, "the caller's context is passed on");
    VF_ASSERT(off >= base && (uint64_t)off + n <= (uint64_t)base + TREE, "reads stay inside the tree");
    IOF(n);
#ifndef FAULTS
    if ((off - base) % 32 == 0 && n == 32) {
        struct vf_b32 t = *(struct vf_b32 *)tree_at(off - base);
        for (unsigned i = 0; i < 32; i++)
            buf[i] = t.b[i];
        return n;
    }
    for (unsigned i = 0; i < n; i++)
        buf[i] = tree_get(off - base + i);
#endif
    return n;
}

void harness(void)
{
    static struct bpak_merkle_context ctx;
    struct vf_b32 salt;
    uint8_t root[32];
    int rc;
    mh_setup();
#ifdef FAULTS
    memset(MH.digest, 0, sizeof(MH.digest));
#endif
    vf_fill_b32(&salt);
    
#ifdef WOP
    unsigned wop = WOP, wpos = vf_u16();
#ifdef WPOS
    VF_ASSUME(wpos == (WPOS));
    wpos = WPOS;
#endif
#else
    unsigned wop = vf_u16(), wpos = vf_u16();
#endif
    VF_ASSUME(wop < MH_OPS && wpos < 32 + 4096);
    MH.wop = wop;
    MH.wpos = wpos;
#ifdef FAULTS
    MH.fail_at = vf_u16();
    io_fail = vf_u16();
    io_kind = vf_u8() % 3;
    MH.wop = 9999;
#endif
    dpos = vf_u32();
    dval = vf_u8();
    VF_ASSUME(dpos < sizeof(data) && dval != 0);
#if !defined(FAULTS) && (!defined(WOP) || WOP < NB)
    data[dpos] = dval;
#endif
    rc = bpak_merkle_init(&ctx, NB * 4096, salt.b, 32, wr, rd, base, false, &token);
    VF_ASSERT(rc == BPAK_OK, "tree can be initialised");
#ifdef CUTS
    /* symbolic cut points out of a set around block boundaries */
    static const unsigned cuts[] = CUTS;
    unsigned c1 = vf_u16(), c2 = vf_u16(), pos = 0;
    bool any = false;
    for (unsigned i = 0; i < sizeof(cuts) / sizeof(cuts[0]); i++)
        for (unsigned j = i; j < sizeof(cuts) / sizeof(cuts[0]); j++)
            if (!any && c1 == cuts[i] && c2 == cuts[j]) {
                any = true;
                rc = bpak_merkle_write_chunk(&ctx, data, cuts[i]);
                if (rc == BPAK_OK)
                    rc = bpak_merkle_write_chunk(&ctx, data + cuts[i], cuts[j] - cuts[i]);
                if (rc == BPAK_OK)
                    rc = bpak_merkle_write_chunk(&ctx, data + cuts[j], NB * 4096 - cuts[j]);
                if (rc == BPAK_OK)
                    rc = bpak_merkle_finish(&ctx, root);
            }
    (void)pos;
    VF_ASSUME(any);
#elif defined(CUT1)
    rc = bpak_merkle_write_chunk(&ctx, data, CUT1);
    if (rc == BPAK_OK)
        rc = bpak_merkle_write_chunk(&ctx, data + CUT1, CUT2 - CUT1);
    if (rc == BPAK_OK)
        rc = bpak_merkle_write_chunk(&ctx, data + CUT2, NB * 4096 - CUT2);
    if (rc == BPAK_OK)
        rc = bpak_merkle_finish(&ctx, root);
#else
    for (unsigned i = 0; rc == BPAK_OK && i < NB; i++)
        rc = bpak_merkle_write_chunk(&ctx, NB > 4 ? data : data + i * 4096, 4096);
    if (rc == BPAK_OK)
        rc = bpak_merkle_finish(&ctx, root);
#endif
    VF_ASSERT(rc <= 0, "errors are negative codes");
    VF_ASSERT(!(MH.failed || io_failed) || rc != BPAK_OK, "failures are reported");
    VF_ASSERT(MH.failed || io_failed || rc == BPAK_OK, "without failures the tree is built");
    if (rc != BPAK_OK) {
#ifdef FAULTS
        VF_REACH("failure");
#endif
        return;
    }
    /* Expected tree: hash i of the data at 32*i of the last level */
#ifndef FAULTS
    bool t = true;
    for (unsigned i = 0; i < NB; i++)
        for (unsigned b = 0; b < 32; b++)
            t = t && *slot_at(i, b) == mh_digest(i, b);
    VF_ASSERT(t, "the lowest level holds the hashes of the data blocks in order");
    VF_ASSERT(!stray, "the rest of the tree stays zero");
#if L0 > 1
    t = true;
    for (unsigned i = 0; i < L0; i++)
        for (unsigned b = 0; b < 32; b++)
            t = t && slot_top[i].b[b] == mh_digest(NB + i, b);
    VF_ASSERT(t, "the level above holds the hashes of the blocks below in order");
#endif
#endif
#if NB == 1
    VF_ASSERT(MH.ops == 1, "one block: one hash");
    unsigned rop = 0;
#else
    VF_ASSERT(MH.ops == MH_OPS, "one hash per block of every level and one for the root");
    unsigned rop = MH_OPS - 1;
#endif
    bool r = true;
    for (unsigned b = 0; b < 32; b++)
        r = r && root[b] == mh_digest(rop, b);
    VF_ASSERT(r, "the root hash is the hash of the top block");
#ifndef FAULTS
    if (wop < MH.ops) {
        uint8_t want;
        if (wpos < 32)
            want = salt.b[wpos];
        else if (wop < NB)
            want = (NB > 4 ? 0 : wop * 4096) + wpos - 32 == dpos ? dval : 0;
#if L0 > 1
        else if (wop < NB + L0)
            want = tree_get(4096 + (wop - NB) * 4096 + wpos - 32);
#endif
        else
            want = tree_get(wpos - 32);
        VF_ASSERT(MH.seen && MH.val == want, "every hash covers the salt and then its whole block");
        bool lens = !MH.low_bad;
        for (unsigned i = 0; i < MH_N; i++)
            lens = lens && (i + MH_LOW >= MH.ops || (MH.len[i] == 4096 + 32 && MH.kind[i] == BPAK_HASH_SHA256));
        VF_ASSERT(lens, "every hash is SHA-256 over salt and one block, nothing more");
        VF_REACH("built");
    }
#endif
}
