/* Decoding a package: copied, patched and generated parts.
 * File 0: input, 1: output, 2: origin. */
#define MH_OPS 1
#define VF_NFILES 3
#define VF_PAY 128
#define MM_MAX 20
#include "vf.h"
#include "vf_file.h"
#include "hdr_same.h"
#include "model_merkle.h"
#include "model_bspatch.h"
#include <bpak/pkg.h>
#include <bpak/id.h>
#include <bpak/utils.h>
#ifndef ALG
#define ALG BPAK_ID_BSPATCH_NO_COMP
#endif
#ifndef SHORT
#define SHORT 0
#endif
#ifndef ORIGIN
#define ORIGIN 1      /* 0: none, 1: with package id, 2: no package id, 3: lacks a part */
#endif
enum { C, P, M, X };  /* copied, patched, generated, encoded without decoder in the header */
static const unsigned kinds[] = { K0, K1,
#ifdef K2
    K2
#endif
};
#define NP (sizeof(kinds) / sizeof(kinds[0]))
/* sizes when done, and in the input */
static const unsigned dsize[] = { 14, 10, 64, 10 }, dpad[] = { 6, 6, 0, 6 }, tsize[] = { 5, 11, 0, 11 };
static const unsigned osize[] = { 7, 3, 1, 3 };

static void put_meta(struct bpak_header *h, unsigned slot, uint32_t id, uint32_t ref, unsigned off, unsigned size)
{
    h->meta[slot].id = id;
    h->meta[slot].size = size;
    h->meta[slot].offset = off;
    h->meta[slot].part_id_ref = ref;
}
/* Metadata contents are constants (initialisers), so that the decoder chosen
 * is one: part i's transport metadata at 64 i, the salt at 192, the id at 224. */
#define B4(o, v) [o] = (v) & 255, [(o) + 1] = (v) >> 8 & 255, [(o) + 2] = (v) >> 16 & 255, [(o) + 3] = (v) >> 24 & 255
#define S4(o, v) [o] = (v), [(o) + 1] = (v) + 1, [(o) + 2] = (v) + 2, [(o) + 3] = (v) + 3
#define S16(o, v) S4(o, v), S4((o) + 4, (v) + 4), S4((o) + 8, (v) + 8), S4((o) + 12, (v) + 12)
#define ALGOF(k) ((k) == M ? BPAK_ID_MERKLE_GENERATE : ALG)
#define DEC(i) (64 * (i) + offsetof(struct bpak_transport_meta, alg_id_decode))
#define OTHER 0x40    /* a flag without meaning here */
#ifndef K2
#define K2 C
#endif
#ifndef UDIFF
#define UDIFF 0       /* the origin's id differs in its last byte */
#endif
static struct bpak_package in = { .header = { .metadata = { B4(DEC(0), ALGOF(K0)), B4(DEC(1), ALGOF(K1)), B4(DEC(2), ALGOF(K2)), S16(192, 0x41), S16(208, 0x81), S16(224, 0xc1) } } };
static struct bpak_package orig = { .header = { .metadata = { S16(24, 0xc1), [39] = 0xc1 + 15 + UDIFF } } };

void harness(void)
{
    static struct bpak_package out;
    static struct bpak_header o, oo;
    struct bpak_header *h = &in.header, *oh = &orig.header;
    struct vf_b64 c, u;
    uint32_t ids[NP + 1];
    vf_fill_b64(&c);
    vf_fill_b64(&u);
    mm_setup();
    MM.tree_size = dsize[M];
    MM.node_at = 32;
    h->magic = BPAK_HEADER_MAGIC;
    h->key_id = vf_u32();
    h->signature[7] = vf_u8();
    unsigned at[NP + 1], din[NP + 1], dout[NP + 1], slot = 0;
    at[0] = din[0] = dout[0] = 0;
    (void)u;
    bool need_origin = false, known = true, have_salt = true;
    for (unsigned i = 0; i < NP; i++) {
        unsigned k = kinds[i];
        ids[i] = k == M ? bpak_part_id_to_hash_tree_id(i ? ids[i - 1] : 5) : 0x100 + i;
        h->parts[i].id = ids[i];
        h->parts[i].size = dsize[k];
        h->parts[i].pad_bytes = dpad[k];
        h->parts[i].transport_size = k == C ? vf_u8() : tsize[k];
        h->parts[i].flags = (k == C ? 0 : BPAK_FLAG_TRANSPORT) | (k == M ? 0 : BPAK_FLAG_EXCLUDE_FROM_HASH | OTHER);
        h->parts[i].offset = 77;
        unsigned st = k == C ? dsize[k] + dpad[k] : tsize[k];
        at[i + 1] = at[i] + st;
        dout[i + 1] = dout[i] + (k == X ? st : dsize[k] + dpad[k]);
        oh->parts[i].id = ids[i];
        oh->parts[i].size = osize[k];
        oh->parts[i].pad_bytes = 2;
        din[i + 1] = din[i] + osize[k] + 2;
        if (k == P || k == M) {
            put_meta(h, slot++, BPAK_ID_BPAK_TRANSPORT, ids[i], 64 * i, sizeof(struct bpak_transport_meta));
        }
        if (k == P)
            need_origin = true;
    }
#ifndef NOSALT
    for (unsigned i = 1; i < NP; i++)
        if (kinds[i] == M)
            put_meta(h, slot++, BPAK_ID_MERKLE_SALT, ids[i - 1], 192, 32);
#else
    have_salt = false;
#endif
#ifndef NOUUID
    put_meta(h, slot++, BPAK_ID_BPAK_PACKAGE, 0, 224, 16);
#ifdef UUIDS
    for (unsigned b = 0; b < 16; b++)
        h->metadata[224 + b] = u.b[32 + b];
#endif
#endif
    bool uuid_ok = true;
#if ORIGIN != 2
    put_meta(oh, 0, BPAK_ID_BPAK_PACKAGE, 0, 24, 16);
#ifdef UUIDS
    for (unsigned b = 0; b < 16; b++) {
        oh->metadata[24 + b] = u.b[48 + b];
        uuid_ok = uuid_ok && u.b[48 + b] == u.b[32 + b];
    }
#else
    uuid_ok = !UDIFF;
#endif
#else
    uuid_ok = false;
#endif
#ifdef NOUUID
    uuid_ok = false;
#endif
#if ORIGIN == 3
    oh->parts[NP - 1].id = 0x999;
#endif
    vf_f[0].exists = vf_f[0].open = vf_f[0].rdonly = true;
    vf_f[0].size = 4096 + at[NP] - SHORT;
    for (unsigned i = 0; i < 64; i++)
        vf_f[0].pay[i] = c.b[i];
    vf_f[0].pos = 3;
    vf_f[1].exists = vf_f[1].open = true;
    vf_f[1].size = 4096;
    vf_f[2].exists = vf_f[2].open = vf_f[2].rdonly = true;
    vf_f[2].size = 4096 + 60;
    for (unsigned i = 0; i < 64; i++)
        vf_f[2].pay[i] = c.b[63 - i];
    in.fp = VF_FP(0);
    out.fp = VF_FP(1);
    orig.fp = VF_FP(2);
    for (unsigned i = 0; i < MB_OUT; i++)
        MB.out[i] = vf_u8();
    MB.rc_init = -(int)(vf_u8() % 3);
    MB.rc_write = -(int)(vf_u8() % 3);
    MB.rc_final = (int)(vf_u8() % 20) - 2;
    MM.rc_init = -(int)(vf_u8() % 3);
    MM.rc_write = -(int)(vf_u8() % 3);
#ifdef IOFAULTS
    VF.fail_at = FAIL_AT;
#endif
    o = *h;
    oo = *oh;
    int rc = bpak_pkg_transport_decode(&in, &out, ORIGIN ? &orig : NULL);

    bool has_m = false, has_p = false, has_x = false;
    for (unsigned i = 0; i < NP; i++) {
        has_m = has_m || kinds[i] == M;
        has_p = has_p || kinds[i] == P;
        has_x = has_x || kinds[i] == X;
    }
    known = ALG == BPAK_ID_BSPATCH_NO_COMP || ALG == BPAK_ID_BSPATCH || ALG == BPAK_ID_BSPATCH_LZMA;
    bool ok = !VF.failed && SHORT == 0 && (!ORIGIN || uuid_ok) && ORIGIN != 3 && (!need_origin || ORIGIN) && !has_x;
    if (has_p)
        ok = ok && known && MB.rc_init == 0 && MB.rc_write == 0 && MB.rc_final == (ssize_t)(dsize[P] + dpad[P]);
    if (has_m)
        ok = ok && MM.rc_init == 0 && MM.rc_write == 0 && have_salt && kinds[0] != M;
    VF_ASSERT(rc <= 0, "errors are negative codes");
    VF_ASSERT((rc == BPAK_OK) == ok, "decoding succeeds exactly when every step does");
    if (ORIGIN && !uuid_ok)
        VF_ASSERT(vf_f[1].writes == 0 && MB.inits == 0, "nothing is decoded with another package's origin");
    if (MB.inits && ORIGIN)
        for (unsigned i = 0; i < NP; i++)
            if (kinds[i] == P) {
                VF_ASSERT(MB.input_length == tsize[P] && !MB.no_buffer, "the patch engine is told the patch's length");
                VF_ASSERT(MB.origin_offset == (off_t)(4096 + din[i]), "the patch engine starts at the part's place in the origin");
                VF_ASSERT(MB.output_offset == (off_t)(4096 + dout[i]), "the patch engine starts at the part's place in the output");
                VF_ASSERT(MB.compression == (ALG == BPAK_ID_BSPATCH ? BPAK_COMPRESSION_HS : ALG == BPAK_ID_BSPATCH_LZMA ? BPAK_COMPRESSION_LZMA : BPAK_COMPRESSION_NONE), "the patch engine uses the part's compression");
            }
    VF_ASSERT(MB.frees <= MB.inits && MB.inits <= 1, "the patch engine is set up once and not released twice");
    if (rc == BPAK_OK) {
        VF_ASSERT(vf_f[1].size == 4096 + dout[NP], "the output is as long as the decoded package");
        bool same = true;
        for (unsigned i = 0; i < NP; i++) {
            for (unsigned b = 0; b < dsize[kinds[i]] + dpad[kinds[i]]; b++) {
                uint8_t got = vf_f[1].pay[dout[i] + b];
                if (kinds[i] == C)
                    same = same && got == c.b[at[i] + b];
                else if (kinds[i] == P)
                    same = same && got == MB.out[b];
                else if (b >= 32)
                    same = same && got == MM.node.b[b - 32];
            }
            if (kinds[i] == P) {
                bool fed = MB.fed == tsize[P] && !MB.over;
                for (unsigned b = 0; b < tsize[P]; b++)
                    fed = fed && MB.in[b] == c.b[at[i] + b];
                VF_ASSERT(fed, "the patch engine gets exactly the part's bytes");
                VF_ASSERT(MB.frees == 1, "the patch engine is released");
                VF_ASSERT(MB.origin == c.b[63 - (din[i] + 2)], "the patch engine reads the origin");
            }
            if (kinds[i] == M && i) {
                unsigned w = dsize[kinds[i - 1]] + dpad[kinds[i - 1]];
                bool data = MM.len == w && MM.got == w && !MM.over && !MM.unfinished && MM.zero && MM.salt_len == 32;
                for (unsigned b = 0; b < MM_MAX; b++)
                    data = data && (b >= w || MM.data[b] == vf_f[1].pay[dout[i - 1] + b]);
                VF_ASSERT(data, "the tree is computed over the decoded data");
                bool salt = true;
                for (unsigned b = 0; b < 32; b++)
                    salt = salt && MM.salt[b] == (b < 16 ? 0x41 + b : 0x81 + b - 16);
                VF_ASSERT(salt && MM.offset == (off_t)(4096 + dout[i]), "the tree uses the stored salt and the part's place");
            }
        }
        VF_ASSERT(same, "the output's payload is the decoded one");
#define want o
        for (unsigned i = 0; i < NP; i++)
            if (kinds[i] != C) {
                want.parts[i].flags &= ~BPAK_FLAG_TRANSPORT;
                want.parts[i].transport_size = 0;
            } else {
                want.parts[i].transport_size = vf_f[1].hdr.parts[i].transport_size;
            }
        VF_ASSERT(hdr_same_fixed(&vf_f[1].hdr, &want) && hdr_same_tables(&vf_f[1].hdr, &want), "the output's header is the input's with no part marked as encoded");
#ifndef REFUSED
        VF_REACH("decoded");
#endif
    } else {
        VF_REACH("refused");
    }
    VF_ASSERT(vf_f[0].writes == 0 && vf_f[2].writes == 0 && VF.truncs == 0 && vf_f[0].open && vf_f[1].open && vf_f[2].open && !VF.bad_handle && !VF.in_header, "input and origin are only read");
    VF_ASSERT(hdr_same_fixed(oh, &oo) && hdr_same_tables(oh, &oo), "the origin's header does not change");
}
