/* Payload digest and the decision of bpak_verify_payload without hash trees.
 * Up to NP parts, stored size of each 0..MAXP bytes, everything symbolic. */
#define MH_OPS 1
#include "model_hash.h"
#include <bpak/verify.h>
#ifndef BASE
#define BASE 4096
#endif
#ifndef NP
#define NP 3
#endif
#ifndef MAXP
#define MAXP (2 * BPAK_CHUNK_BUFFER_LENGTH + 3)
#endif
static uint32_t wpkg;   /* watched package offset */
static uint8_t wval;    /* its content */
static bool covered_read;
static unsigned reads, read_fail_at, fail_kind;
static bool read_failed;
static uint64_t end;
static void *user_tok;

static ssize_t rd(off_t off, uint8_t *buf, size_t n, void *user)
{
    VF_ASSERT(user == user_tok, "the caller's context is passed on");
    VF_ASSERT(off >= 0 && (uint64_t)off + n <= end, "reads stay inside the package");
    if (++reads == read_fail_at) {
        read_failed = true;
        return fail_kind == 0 ? -BPAK_READ_ERROR : fail_kind == 1 ? (ssize_t)n - 1 : (ssize_t)n + 1;
    }
#ifndef FAULTS
    for (unsigned i = 0; i < BPAK_CHUNK_BUFFER_LENGTH; i++)
        if (i < n)
            buf[i] = 0;
    if (wpkg >= (uint64_t)off && wpkg - (uint64_t)off < n)
        buf[wpkg - (uint64_t)off] = wval;
#endif
    return n;
}

void harness(void)
{
    static struct bpak_header h;
    uint64_t base = BASE;
    uint8_t out[64];
    size_t size = sizeof(out);
    uint32_t at = base, stream = 0, wstream = 0;
    bool in = false;
    unsigned n = vf_u8();

    VF_ASSUME(n <= NP);
    mh_setup();
    h.hash_kind = 1 + vf_u8() % 3;
    user_tok = &out;
    wpkg = vf_u32();
    wval = vf_u8();
    VF_ASSUME(wval != 0);
    for (unsigned i = 0; i < NP; i++) {
        struct bpak_part_header *p = &h.parts[i];
        if (i >= n)
            continue;
        p->id = vf_u32();
        p->size = vf_u64();
        p->pad_bytes = vf_u16();
        p->transport_size = vf_u64();
        p->flags = vf_u8();
        p->offset = vf_u64();
        VF_ASSUME(p->id != 0);
        for (unsigned j = 0; j < i; j++)
            VF_ASSUME(h.parts[j].id != p->id);
        VF_ASSUME(p->size <= MAXP && p->pad_bytes <= MAXP);
        uint32_t s = (p->flags & 2) ? p->transport_size : p->size + p->pad_bytes;
        VF_ASSUME((!(p->flags & 2) || p->transport_size <= MAXP) && s <= MAXP);
        if (!(p->flags & 1)) {
            if (wpkg >= at && wpkg < at + s) {
                in = true;
                wstream = stream + (wpkg - at);
            }
            stream += s;
        }
        at += s;
    }
    end = at;
    VF_ASSUME(wpkg >= base && wpkg < (at > base ? at : base + 1));
    MH.wop = 0;
    MH.wpos = vf_u32();
    VF_ASSUME(MH.wpos < (stream ? stream : 1));
#ifdef FAULTS
    MH.fail_at = vf_u8();
    MH.wop = 9;
    read_fail_at = vf_u8();
    fail_kind = vf_u8() % 3;
    if (vf_bool())
        size = vf_u8() % 64;
#endif
#ifdef DECIDE
    struct vf_b64 stored;
    vf_fill_b64(&stored);
    memcpy(h.payload_hash, stored.b, 64);
    int rc = bpak_verify_payload(&h, rd, base, user_tok);
    size = mh_size(h.hash_kind);
    bool eq = true;
    for (unsigned i = 0; i < 64; i++)
        eq = eq && (i >= size || stored.b[i] == MH.digest[0][i]);
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (rc == BPAK_OK) {
        VF_ASSERT(eq, "accepted only if the stored payload digest matches");
        VF_ASSERT(!MH.failed && !read_failed, "accepted only if everything could be read and hashed");
        VF_REACH("accepted");
    } else if (!MH.failed && !read_failed) {
        VF_ASSERT(!eq && rc == -BPAK_BAD_PAYLOAD_HASH, "a matching payload is accepted, a wrong one is told");
        VF_REACH("refused");
    }
#else
    size_t size_in = size;
    int rc = bpak_verify_compute_payload_hash(&h, rd, base, user_tok, out, &size);
    VF_ASSERT(rc <= 0, "errors are negative codes");
    VF_ASSERT(!(MH.failed || read_failed) || rc != BPAK_OK, "failures of reading or hashing are reported");
    if (rc == BPAK_OK) {
        bool same = true;
        for (unsigned i = 0; i < 64; i++)
            same = same && (i >= size || out[i] == MH.digest[0][i]);
        VF_ASSERT(same && size == mh_size(h.hash_kind), "the digest is returned");
    } else if (!MH.failed && !read_failed) {
        VF_ASSERT(size_in < mh_size(h.hash_kind), "nothing else is an error");
    }
#endif
    if (rc == BPAK_OK || rc == -BPAK_BAD_PAYLOAD_HASH) {
        VF_ASSERT(MH.ops == 1 && MH.finals == 1 && MH.kind[0] == h.hash_kind, "one digest of the package's kind");
        VF_ASSERT(MH.len[0] == stream, "the digest covers the stored size of every hashed part");
#ifndef FAULTS
        if (stream) {
            VF_ASSERT(MH.seen, "every position is hashed");
            VF_ASSERT(MH.val == (in && MH.wpos == wstream ? wval : 0),
                      "every hashed part's bytes are hashed in order, excluded parts are not");
            if (in && MH.wpos == wstream)
                VF_REACH("watched byte hashed");
        }
#endif
    }
#ifdef FAULTS
    if (MH.failed)
        VF_REACH("hash fault");
    if (read_failed)
        VF_REACH("read fault");
#endif
}
