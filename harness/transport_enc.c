/* Encoding a package for transport: copied, already encoded, diffed and
 * emptied parts.  File 0: input, 1: output, 2: origin. */
#define MH_OPS 1
#define VF_NFILES 3
#define VF_PAY 64
#include "vf.h"
#include "vf_mem.h"
#include "vf_file.h"
#include "hdr_same.h"
#include "model_bsdiff.h"
#include <bpak/pkg.h>
#include <bpak/id.h>
#ifndef ALG
#define ALG BPAK_ID_BSDIFF_NO_COMP
#endif
#ifndef SHORT
#define SHORT 0
#endif
#ifndef ORIGIN
#define ORIGIN 1      /* 0: none, 1: with package id, 2: no package id, 3: lacks a part, 4: not open */
#endif
enum { C, T, D, R };  /* copied, encoded before, diffed, emptied */
static const unsigned kinds[] = { K0, K1,
#ifdef K2
    K2
#endif
};
#define NP (sizeof(kinds) / sizeof(kinds[0]))
static const unsigned dsize[] = { 9, 10, 10, 7 }, dpad[] = { 3, 6, 6, 5 }, tsize[] = { 12, 5, MD_OUT, 0 };
static const unsigned osize[] = { 7, 3, 8, 1 };

static void put_meta(struct bpak_header *h, unsigned slot, uint32_t id, uint32_t ref, unsigned off, unsigned size)
{
    h->meta[slot].id = id;
    h->meta[slot].size = size;
    h->meta[slot].offset = off;
    h->meta[slot].part_id_ref = ref;
}
#define B4(o, v) [o] = (v) & 255, [(o) + 1] = (v) >> 8 & 255, [(o) + 2] = (v) >> 16 & 255, [(o) + 3] = (v) >> 24 & 255
#define S4(o, v) [o] = (v), [(o) + 1] = (v) + 1, [(o) + 2] = (v) + 2, [(o) + 3] = (v) + 3
#define S16(o, v) S4(o, v), S4((o) + 4, (v) + 4), S4((o) + 8, (v) + 8), S4((o) + 12, (v) + 12)
#define ALGOF(k) ((k) == R ? BPAK_ID_REMOVE_DATA : ALG)
#define ENC(i) (64 * (i) + offsetof(struct bpak_transport_meta, alg_id_encode))
#define OTHER 0x40    /* a flag without meaning here */
#ifndef K2
#define K2 C
#endif
#ifndef UDIFF
#define UDIFF 0       /* the origin's id differs in its last byte */
#endif
static struct bpak_package in = { .header = { .metadata = { B4(ENC(0), ALGOF(K0)), B4(ENC(1), ALGOF(K1)), B4(ENC(2), ALGOF(K2)), S16(224, 0xc1) } } };
static struct bpak_package orig = { .header = { .metadata = { S16(24, 0xc1), [39] = 0xc1 + 15 + UDIFF } } };

void harness(void)
{
    static struct bpak_package out;
    static struct bpak_header o, oo;
    struct bpak_header *h = &in.header, *oh = &orig.header;
    struct vf_b64 c, u;
    vf_fill_b64(&c);
    vf_fill_b64(&u);
    (void)u;
    h->magic = BPAK_HEADER_MAGIC;
    h->key_id = vf_u32();
    h->signature[7] = vf_u8();
    unsigned at[NP + 1], din[NP + 1], dout[NP + 1], slot = 0;
    at[0] = din[0] = dout[0] = 0;
    bool has_d = false;
    for (unsigned i = 0; i < NP; i++) {
        unsigned k = kinds[i];
        h->parts[i].id = oh->parts[i].id = 0x100 + i;
        h->parts[i].size = dsize[k];
        h->parts[i].pad_bytes = dpad[k];
        h->parts[i].transport_size = k == T ? tsize[k] : 0;
        h->parts[i].flags = k == T ? BPAK_FLAG_TRANSPORT : k == R ? 0 : BPAK_FLAG_EXCLUDE_FROM_HASH | OTHER;
        h->parts[i].offset = 77;
        at[i + 1] = at[i] + (k == T ? tsize[k] : dsize[k] + dpad[k]);
        dout[i + 1] = dout[i] + tsize[k];
        oh->parts[i].size = osize[k];
        oh->parts[i].pad_bytes = 2;
        din[i + 1] = din[i] + osize[k] + 2;
        if (k != C)
            put_meta(h, slot++, BPAK_ID_BPAK_TRANSPORT, 0x100 + i, 64 * i, sizeof(struct bpak_transport_meta));
        has_d = has_d || k == D;
    }
    bool uuid_ok = true;
#ifndef NOUUID
    put_meta(h, slot++, BPAK_ID_BPAK_PACKAGE, 0, 224, 16);
#else
    uuid_ok = false;
#endif
#if ORIGIN != 2
    put_meta(oh, 0, BPAK_ID_BPAK_PACKAGE, 0, 24, 16);
#else
    uuid_ok = false;
#endif
#ifdef UUIDS
    for (unsigned b = 0; b < 16; b++) {
        h->metadata[224 + b] = u.b[32 + b];
        oh->metadata[24 + b] = u.b[48 + b];
        uuid_ok = uuid_ok && u.b[48 + b] == u.b[32 + b];
    }
#else
    uuid_ok = uuid_ok && !UDIFF;
#endif
#if ORIGIN == 3
    oh->parts[NP - 1].id = 0x999;
#endif
    vf_f[0].exists = vf_f[0].open = vf_f[0].rdonly = true;
    vf_f[0].size = 4096 + at[NP] - SHORT;
    for (unsigned i = 0; i < 64; i++)
        vf_f[0].pay[i] = c.b[i];
    vf_f[0].pos = 3;
    vf_f[1].exists = vf_f[1].open = true;
    vf_f[1].size = 4096;
    vf_f[1].hdr.magic = 0x55;
    vf_f[2].exists = vf_f[2].open = vf_f[2].rdonly = true;
    vf_f[2].size = 4096 + 60;
    for (unsigned i = 0; i < 64; i++)
        vf_f[2].pay[i] = c.b[63 - i];
    in.fp = VF_FP(0);
    out.fp = VF_FP(1);
    orig.fp = ORIGIN == 4 ? NULL : VF_FP(2);
    for (unsigned i = 0; i < MD_OUT; i++)
        MD.out[i] = vf_u8();
    MD.rc_init = -(int)(vf_u8() % 3);
    MD.rc = -(int)(vf_u8() % 3);
#ifdef IOFAULTS
    VF.fail_at = FAIL_AT;
#endif
    o = *h;
    oo = *oh;
    int rc = bpak_pkg_transport_encode(&in, &out, ORIGIN ? &orig : NULL);

    bool origin = ORIGIN && ORIGIN != 4;
    bool known = ALG == BPAK_ID_BSDIFF_NO_COMP || ALG == BPAK_ID_BSDIFF || ALG == BPAK_ID_BSDIFF_LZMA;
    bool ok = !VF.failed && SHORT == 0 && (!origin || uuid_ok);
    if (has_d)
        ok = ok && origin && known && ORIGIN != 3 && MD.rc_init == 0 && MD.rc == 0;
    VF_ASSERT((rc == BPAK_OK) == ok, "encoding succeeds exactly when every step does");
    if (origin && !uuid_ok)
        VF_ASSERT(vf_f[1].writes == 0 && MD.inits == 0, "nothing is encoded against another package");
    if (MD.inits)
        for (unsigned i = 0; i < NP; i++)
            if (kinds[i] == D) {
                unsigned ol = osize[D] + 2;
                bool same = MD.origin_length == ol && MD.target_length == dsize[D] + dpad[D];
                for (unsigned b = 0; b < MD_MAX; b++)
                    same = same && (b >= ol || MD.origin[b] == c.b[63 - (din[i] + b)]) && MD.target[b] == c.b[at[i] + b];
                VF_ASSERT(same, "the diff engine compares the part with the origin's part");
                VF_ASSERT(MD.output_offset == (off_t)(4096 + dout[i]), "the diff is stored at the part's place in the output");
                VF_ASSERT(MD.compression == (ALG == BPAK_ID_BSDIFF ? BPAK_COMPRESSION_HS : ALG == BPAK_ID_BSDIFF_LZMA ? BPAK_COMPRESSION_LZMA : BPAK_COMPRESSION_NONE), "the diff engine uses the part's compression");
            }
    VF_ASSERT(MD.frees <= MD.inits && MD.inits <= 1 && MD.runs <= 1, "the diff engine is set up once and not released twice");
    if (rc == BPAK_OK) {
        VF_ASSERT(vf_f[1].size == 4096 + dout[NP], "the output is as long as the encoded package");
        bool same = true;
        for (unsigned i = 0; i < NP; i++) {
            for (unsigned b = 0; b < tsize[kinds[i]]; b++) {
                uint8_t got = vf_f[1].pay[dout[i] + b];
                same = same && got == (kinds[i] == D ? MD.out[b] : c.b[at[i] + b]);
            }
        }
        VF_ASSERT(same, "the output's payload is the encoded one");
        VF_ASSERT(!has_d || MD.frees == 1, "the diff engine is released");
        struct bpak_header *want = &o;
        VF_ASSERT(hdr_same_fixed(h, &o) && hdr_same_tables(h, &o), "the input's header does not change");
        for (unsigned i = 0; i < NP; i++)
            if (kinds[i] == D || kinds[i] == R) {
                want->parts[i].flags |= BPAK_FLAG_TRANSPORT;
                want->parts[i].transport_size = tsize[kinds[i]];
            }
        VF_ASSERT(hdr_same_fixed(&vf_f[1].hdr, want) && hdr_same_tables(&vf_f[1].hdr, want), "the output's header is the input's with the encoded parts marked");
#ifndef REFUSED
        VF_REACH("encoded");
#endif
    } else {
        VF_ASSERT(vf_f[1].hdr.magic == 0x55, "a failed encoding leaves the output without header");
#ifndef ACCEPTED
        VF_REACH("refused");
#endif
    }
    VF_ASSERT(!VF.bad_map && vf_f[0].maps == 0 && vf_f[1].maps == 0 && vf_f[2].maps == 0, "everything mapped is unmapped");
    VF_ASSERT(vf_f[0].writes == 0 && vf_f[2].writes == 0 && VF.truncs == 0 && vf_f[0].open && vf_f[1].open && vf_f[2].open && !VF.bad_handle && !VF.in_header, "input and origin are only read");
    VF_ASSERT(hdr_same_fixed(oh, &oo) && hdr_same_tables(oh, &oo), "the origin's header does not change");
}
