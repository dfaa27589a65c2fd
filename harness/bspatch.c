/* Patch application, uncompressed or packed:
 * concrete control blocks, symbolic diff, extra and origin bytes; the input is
 * cut at every place (CUT2: and once more CUT2 bytes later). */
#include "vf_mem.h"
#include "vf.h"
#include <bpak/bspatch.h>
#ifndef PACK          /* 1: heatshrink, 2: lzma */
#define PACK 0
#endif
#include "model_pack.h"
#define NB 2
static const long ctl[NB][3] = { CTL };
#define ON 24
#define MAXP 80
static uint8_t P[MAXP], in[MAXP], work[BUFL], out[MAXP], want[MAXP];
static unsigned wlen, plen, inlen;
static struct vf_b32 origin;
static unsigned fail_rd, fail_wr, rds, wrs;
static int fail_kind;
static bool bad, failed;
static off_t hi, user_ok;
#define OO 1000
#define WO 5000
#define KIND_RET(n) (fail_kind == 0 ? -7 : fail_kind == 1 ? (ssize_t)(n) - 1 : -1)

static ssize_t rd(off_t off, uint8_t *buf, size_t n, void *user)
{
    bad = bad || user != (void *)&hi || buf < work || buf + n > work + BUFL;
    if (n && ++rds == fail_rd) {
        failed = true;
        return KIND_RET(n);
    }
    if (n && (off < OO || off + (off_t)n > OO + ON))
        return -BPAK_READ_ERROR;
    for (size_t i = 0; i < n; i++)
        buf[i] = origin.b[off - OO + i];
    return n;
}

static ssize_t wr(off_t off, uint8_t *buf, size_t n, void *user)
{
    bad = bad || user != (void *)&hi;
    if (n && ++wrs == fail_wr) {
        failed = true;
        return KIND_RET(n);
    }
    if (off < WO || off + (off_t)n > WO + MAXP) {
        bad = true;
        return -1;
    }
    for (size_t i = 0; i < n; i++)
        out[off - WO + i] = buf[i];
    if (off + (off_t)n > hi)
        hi = off + n;
    return n;
}

static void put64(uint8_t *b, long v)
{
    uint64_t u = v < 0 ? -(uint64_t)v : (uint64_t)v;
    for (unsigned i = 0; i < 8; i++)
        b[i] = u >> (8 * i);
    if (v < 0)
        b[7] |= 0x80;
}

/* one pass over the input, cut in up to three pieces */
static int run(unsigned c1, unsigned c2)
{
    static struct bpak_bspatch_context ctx;
    int rc;
    rds = wrs = 0;
    hi = WO;
    failed = false;
    for (unsigned i = 0; i < MAXP; i++)
        out[i] = 0;
    enum bpak_compression comp = PACK == 1 ? BPAK_COMPRESSION_HS : PACK == 2 ? BPAK_COMPRESSION_LZMA : BPAK_COMPRESSION_NONE;
    rc = bpak_bspatch_init(&ctx, work, BUFL, inlen, rd, OO, wr, WO, comp, &hi);
    VF_ASSERT(rc == BPAK_OK, "a context with an even work buffer can be set up");
    if (c1)
        rc = bpak_bspatch_write(&ctx, in, c1);
    if (rc == BPAK_OK && c2 > c1)
        rc = bpak_bspatch_write(&ctx, in + c1, c2 - c1);
    if (rc == BPAK_OK && c2 < inlen)
        rc = bpak_bspatch_write(&ctx, in + c2, inlen - c2);
    if (rc == BPAK_OK) {
        ssize_t n = bpak_bspatch_final(&ctx);
        VF_ASSERT(n < 0 || n == hi - WO, "the length reported is what was written");
        rc = n < 0 ? (int)n : BPAK_OK;
    } else {
        VF_ASSERT(bpak_bspatch_final(&ctx) < 0 || !failed, "a failed patch stays failed");
    }
    bpak_bspatch_free(&ctx);
    VF_ASSERT(!MP.misuse && (PACK != 2 || MP.ends == 1), "the decompressor is set up, used and released in order");
    MP.ends = 0;
    return rc;
}

void harness(void)
{
    struct vf_b64 data;
    vf_fill_b64(&data);
    vf_fill_b32(&origin);
    unsigned used = 0;
    long op = 0;
    bool ok = true;
    for (unsigned k = 0; k < NB; k++) {
        for (unsigned i = 0; i < 3; i++)
            put64(P + plen + 8 * i, ctl[k][i]);
        plen += 24;
        for (long i = 0; i < ctl[k][0]; i++) {
            P[plen + i] = data.b[used++];
            if (op < 0 || op >= ON)
                ok = false;
            else
                want[wlen + i] = P[plen + i] + origin.b[op];
            op++;
        }
        plen += ctl[k][0];
        wlen += ctl[k][0];
        for (long i = 0; i < ctl[k][1]; i++)
            want[wlen + i] = P[plen + i] = data.b[used++];
        plen += ctl[k][1];
        wlen += ctl[k][1];
        op += ctl[k][2];
    }
    inlen = plen;
    for (unsigned i = 0; i < plen; i++)
        in[i] = P[i] ^ (PACK ? 0x5a : 0);
    fail_rd = fail_wr = 0;
#ifdef FAULT
    for (unsigned f = 1; f <= FAULT; f++)
        for (fail_kind = 0; fail_kind < 2; fail_kind++)
            for (unsigned w = 0; w < 2; w++) {
                fail_rd = w ? 0 : f;
                fail_wr = w ? f : 0;
                int rc = run(inlen / 3, inlen / 2);
                VF_ASSERT(!failed || rc < 0, "a failing or short read or write is reported");
                VF_ASSERT(!bad, "callbacks get their own buffer, offsets and user pointer");
                if (failed)
                    VF_REACH("fault");
            }
#elif defined(PFAULT)
    for (unsigned f = 1; f <= PFAULT; f++) {
        MP.fail_at = f;
        int rc = run(inlen / 3, inlen / 2);
        VF_ASSERT(!MP.failed || rc < 0, "a failing decompressor is reported");
        if (MP.failed)
            VF_REACH("fault");
    }
#else
    for (unsigned c = CLO; c <= CHI && c <= inlen; c++) {
        int rc = run(c, c + CUT2 > inlen ? inlen : c + CUT2);
        VF_ASSERT(!bad, "callbacks get their own buffer, offsets and user pointer");
        VF_ASSERT((rc == BPAK_OK) == ok && rc <= 0, "accepted exactly when the origin covers what is copied");
        if (ok) {
            bool e = hi == WO + (off_t)wlen;
            for (unsigned i = 0; i < wlen; i++)
                e = e && out[i] == want[i];
            VF_ASSERT(e, "the output is origin plus difference followed by the extra bytes");
            VF_REACH("patched");
        }
    }
#endif
}
