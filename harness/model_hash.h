/* Hash backend plugged in through the public bpak_hash_setup().
 *
 * Digests are symbolic: nothing is assumed about the hash function.  What was
 * hashed is observed through one watched stream position (MH.wop, MH.wpos),
 * symbolic as well, so a claim about it is a claim about every position of
 * every hashed stream. */
#ifndef MODEL_HASH_H
#define MODEL_HASH_H
#include "vf.h"
#include <bpak/crypto.h>
#ifndef MH_OPS
#define MH_OPS 4
#endif
/* the digests of the first MH_LOW operations are a concrete pattern */
#ifndef MH_LOW
#define MH_LOW 0
#endif
#define MH_N (MH_OPS - MH_LOW)
static struct {
    unsigned ops;              /* hash operations started */
    unsigned finals;
    uint32_t len[MH_N];      /* stream length per operation */
    unsigned kind[MH_N];
    bool closed[MH_N];
    uint8_t digest[MH_N][64];/* what final() returns */
    unsigned wop;
    uint32_t wpos;
    bool seen;
    uint8_t val;
    unsigned calls, fail_at;   /* fail_at == 0: never */
    bool failed;
    uint32_t low_len;          /* running length of an operation below MH_LOW */
    unsigned low_kind;
    bool low_bad;              /* one of them was not SHA-256 over MH_LOWLEN bytes */
    bool overflow;             /* more operations than modelled */
} MH;

/* with MH_FWIN(c) faults are only tried at calls for which it holds */
#ifndef MH_FWIN
#define MH_FWIN(c) true
#endif

static unsigned mh_size(unsigned kind)
{
    return kind == BPAK_HASH_SHA512 ? 64 : kind == BPAK_HASH_SHA384 ? 48 : 32;
}

#if MH_OPS == 1
#define MH_CUR 0
#else
#define MH_CUR (MH.ops - 1) /* one operation at a time */
#endif

static bool mh_fault(void)
{
#ifndef FAULTS
    return false;
#endif
    ++MH.calls;
    if (MH_FWIN(MH.calls) && MH.calls == MH.fail_at) {
        MH.failed = true;
        return true;
    }
    return false;
}

static int mh_init(struct bpak_hash_context *c)
{
    if (mh_fault())
        return -BPAK_FAILED;
    if (c->kind != BPAK_HASH_SHA256 && c->kind != BPAK_HASH_SHA384 && c->kind != BPAK_HASH_SHA512)
        return -BPAK_UNSUPPORTED_HASH_ALG;
    if (MH.ops >= MH_OPS) {
        MH.overflow = true;
        return -BPAK_FAILED;
    }
#if MH_LOW
    if (MH.ops < MH_LOW) {
        MH.low_kind = c->kind;
        MH.low_len = 0;
        MH.ops++;
        return BPAK_OK;
    }
#endif
    MH.kind[MH_OPS == 1 ? 0 : MH.ops - MH_LOW] = c->kind;
    MH.len[MH_OPS == 1 ? 0 : MH.ops - MH_LOW] = 0;
    MH.ops++;
    return BPAK_OK;
}

static int mh_update(struct bpak_hash_context *c, const uint8_t *b, size_t n)
{
    unsigned op = MH_CUR;
    (void)c;
    if (mh_fault())
        return -BPAK_FAILED;
    if (op >= MH_OPS)
        return -BPAK_FAILED;
#if MH_LOW
    if (op < MH_LOW) {
        MH.low_len += n;
        return BPAK_OK;
    }
    op -= MH_LOW;
#endif
#ifndef MH_NOWATCH
    if (op + MH_LOW == MH.wop && MH.wpos >= MH.len[op] && MH.wpos - MH.len[op] < n) {
        if (n == 1)
            MH.val = b[0];
        else
            MH.val = b[MH.wpos - MH.len[op]];
        MH.seen = true;
    }
#endif
    MH.len[op] += n;
    return BPAK_OK;
}

static int mh_final(struct bpak_hash_context *c, uint8_t *out, size_t size, size_t *rsize)
{
    unsigned op = MH_CUR;
    (void)c;
    if (mh_fault())
        return -BPAK_FAILED;
    if (op >= MH_OPS)
        return -BPAK_FAILED;
#if MH_LOW
    if (op < MH_LOW) {
        if (MH.low_kind != BPAK_HASH_SHA256 || MH.low_len != MH_LOWLEN)
            MH.low_bad = true;
        for (unsigned i = 0; i < 32; i++)
            out[i] = (uint8_t)(op * 37 + i * 11 + 1);
        MH.finals++;
        if (rsize)
            *rsize = 32;
        return BPAK_OK;
    }
    op -= MH_LOW;
#endif
    unsigned n = mh_size(MH.kind[op]);
    if (size < n)
        return -BPAK_SIZE_ERROR;
    for (unsigned i = 0; i < 64; i++)
        if (i < n)
            out[i] = MH.digest[op][i];
    MH.closed[op] = true;
    MH.finals++;
    if (rsize)
        *rsize = n;
    return BPAK_OK;
}

static void mh_free(struct bpak_hash_context *c)
{
    (void)c;
}

static uint8_t mh_digest(unsigned op, unsigned b)
{
#if MH_LOW
    if (op < MH_LOW)
        return (uint8_t)(op * 37 + b * 11 + 1);
#endif
    return MH.digest[op - MH_LOW][b];
}

static void mh_setup(void)
{
    for (unsigned i = 0; i < MH_N; i++) {
        struct vf_b64 d;
        vf_fill_b64(&d);
        for (unsigned b = 0; b < 64; b++)
            MH.digest[i][b] = d.b[b];
    }
    bpak_hash_setup(mh_init, mh_update, mh_final, mh_free);
}
#endif
