/* Hash tree geometry for every input length */
#define MH_OPS 2
#include "model_hash.h"
#include <bpak/merkle.h>
static uint64_t base, total, len0, zpos;
static unsigned writes;
static bool zfill, zseen;
static uint64_t woff;

static ssize_t wr(off_t off, uint8_t *buf, size_t n, void *user)
{
    (void)user;
    VF_ASSERT((uint64_t)off >= base && (uint64_t)off + n <= base + total && n > 0, "writes stay inside the tree");
    if (zfill) {
        if (zpos >= (uint64_t)off - base && zpos < (uint64_t)off - base + n) {
            zseen = buf[0] == 0 && buf[n - 1] == 0;
        }
    } else {
        woff = (uint64_t)off - base;
    }
    writes++;
    return n;
}

static ssize_t rd(off_t off, uint8_t *buf, size_t n, void *user)
{
    (void)off; (void)buf; (void)n; (void)user;
    return -BPAK_READ_ERROR;
}

#ifdef ZFILL
void harness(void)
{
    static struct bpak_merkle_context ctx;
    static uint8_t salt[32];
    static const unsigned blocks[] = { 1, 2, 128, 129 };
    mh_setup();
    zfill = true;
    base = 777;
    zpos = vf_u32();
    for (unsigned i = 0; i < sizeof(blocks) / sizeof(blocks[0]); i++) {
        total = blocks[i] > 128 ? 3 * 4096 : 4096;
        writes = 0;
        zseen = false;
        int rc = bpak_merkle_init(&ctx, blocks[i] * 4096ull, salt, 32, wr, rd, base, true, NULL);
        VF_ASSERT(rc == BPAK_OK, "the tree can be initialised");
        VF_ASSERT(zpos >= total || zseen, "every byte of the tree is cleared");
        VF_REACH("cleared");
    }
}
#else
void harness(void)
{
    static struct bpak_merkle_context ctx;
    static uint8_t salt[32], block[4096];
    uint64_t len = vf_u64();
    size_t salt_len = vf_u8();
    base = vf_u64();
    VF_ASSUME(base < (1ull << 62));
    mh_setup();
    MH.wop = 99;
    /* reference: each level holds one 32-byte hash per 4096-byte block below */
    bool ok = len != 0 && len % 4096 == 0 && len <= (1ull << 40);
    uint64_t blocks = len / 4096;
    if (ok) {
        do {
            uint64_t lb = (blocks + 127) / 128;
            if (total == 0)
                len0 = lb * 4096;
            total += lb * 4096;
            blocks = lb;
        } while (blocks > 1);
    }
    ssize_t sz = bpak_merkle_compute_size(len);
    if (ok)
        VF_ASSERT(sz == (ssize_t)total, "size of the tree");
    else
        VF_ASSERT(sz < 0, "lengths without a tree are refused");
    int rc = bpak_merkle_init(&ctx, len, salt, salt_len, wr, rd, base, zfill, NULL);
    VF_ASSERT(rc <= 0, "errors are negative codes");
    VF_ASSERT((rc == BPAK_OK) == (ok && salt_len <= 32), "trees can be built exactly for the lengths that have one");
    if (rc == BPAK_OK) {
        VF_ASSERT(bpak_merkle_get_size(&ctx) == total, "initialised size of the tree");
        VF_ASSERT(writes == 0, "nothing is written unless asked for");
        rc = bpak_merkle_write_chunk(&ctx, block, 4096);
        VF_ASSERT(rc == BPAK_OK && writes == 1, "one block gives one hash");
        VF_ASSERT(woff == total - len0, "hashes of the data come last in the tree, after the levels above");
        VF_REACH("initialised");
        if (total > 3 * 4096 && len > (1ull << 39))
            VF_REACH("four levels");
    }
}
#endif
