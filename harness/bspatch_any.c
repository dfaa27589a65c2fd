/* Arbitrary patch streams of N bytes, cut anywhere: control blocks, callbacks'
 * results, everything symbolic.  With the standard checks: no overflow, no
 * access outside a buffer. */
#include "vf.h"
#include <bpak/bspatch.h>
static uint8_t work[BUFL];
static uint64_t sum;
static off_t ooff, woff;
static bool bad, failed;
static unsigned calls;

static ssize_t rd(off_t off, uint8_t *buf, size_t n, void *user)
{
    bad = bad || user != (void *)&sum || n > BUFL / 2 || buf != work;
    (void)off;
    ssize_t r = n;
    if (n && vf_bool()) {
        r = vf_bool() ? (ssize_t)n - 1 : -BPAK_READ_ERROR;
        failed = true;
    }
    for (size_t i = 0; i < BUFL / 2; i++)
        if (r > 0 && i < (size_t)r)
            buf[i] = vf_u8();
    calls++;
    return r;
}

static ssize_t wr(off_t off, uint8_t *buf, size_t n, void *user)
{
    bad = bad || user != (void *)&sum || off != (off_t)(woff + sum) || n > N;
    (void)buf;
    ssize_t r = n;
    if (n && vf_bool()) {
        r = vf_bool() ? (ssize_t)n - 1 : -BPAK_WRITE_ERROR;
        failed = true;
    } else
        sum += n;
    calls++;
    return r;
}

void harness(void)
{
    static struct bpak_bspatch_context ctx;
    uint8_t buf[N];
    for (unsigned i = 0; i < N; i++)
        buf[i] = vf_u8();
    ooff = vf_u64() >> 2;
    woff = vf_u64() >> 2;
    unsigned c = vf_u8();
    VF_ASSUME(c <= N);
#ifdef CUT
    c = CUT;
#endif
    int rc = bpak_bspatch_init(&ctx, work, BUFL, N, rd, ooff, wr, woff, BPAK_COMPRESSION_NONE, &sum);
    VF_ASSERT(rc == BPAK_OK, "a context can be set up");
    rc = bpak_bspatch_write(&ctx, buf, c);
    if (rc == BPAK_OK)
        rc = bpak_bspatch_write(&ctx, buf + c, N - c);
    VF_ASSERT(rc <= 0, "errors are negative codes");
    VF_ASSERT(!failed || rc < 0, "a failing or short read or write is reported");
    VF_ASSERT(!bad, "reads go to the work buffer, writes append to the output");
    VF_ASSERT(sum <= N, "an uncompressed patch yields no more bytes than it has");
    ssize_t n = bpak_bspatch_final(&ctx);
    VF_ASSERT(rc != BPAK_OK ? n < 0 : n == (ssize_t)sum, "the reported length is what was written, errors stick");
    if (rc == BPAK_OK && sum)
        VF_REACH("patched");
    if (failed)
        VF_REACH("failed");
    bpak_bspatch_free(&ctx);
}
