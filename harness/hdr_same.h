/* Two headers are the same: scalar members one by one, the big byte arrays at
 * one symbolic position each. */
#ifndef HDR_SAME_H
#define HDR_SAME_H
#include "vf.h"
static bool hdr_same_fixed(const struct bpak_header *a, const struct bpak_header *b)
{
    bool eq = a->magic == b->magic && a->hash_kind == b->hash_kind && a->signature_kind == b->signature_kind &&
              a->alignment == b->alignment && a->key_id == b->key_id && a->keystore_id == b->keystore_id &&
              a->signature_sz == b->signature_sz;
    for (unsigned i = 0; i < sizeof(a->pad0); i++)
        eq = eq && a->pad0[i] == b->pad0[i];
    for (unsigned i = 0; i < sizeof(a->pad1); i++)
        eq = eq && a->pad1[i] == b->pad1[i];
    for (unsigned i = 0; i < 64; i++)
        eq = eq && a->payload_hash[i] == b->payload_hash[i];
    return eq;
}
static bool hdr_same_meta(const struct bpak_header *a, const struct bpak_header *b, unsigned i)
{
    const struct bpak_meta_header *x = &a->meta[i], *y = &b->meta[i];
    return x->id == y->id && x->size == y->size && x->offset == y->offset && x->part_id_ref == y->part_id_ref &&
           x->pad[0] == y->pad[0] && x->pad[1] == y->pad[1] && x->pad[2] == y->pad[2] && x->pad[3] == y->pad[3];
}
static bool hdr_same_part(const struct bpak_header *a, const struct bpak_header *b, unsigned i)
{
    const struct bpak_part_header *x = &a->parts[i], *y = &b->parts[i];
    bool eq = x->id == y->id && x->size == y->size && x->offset == y->offset &&
              x->transport_size == y->transport_size && x->pad_bytes == y->pad_bytes && x->flags == y->flags;
    eq = eq && x->pad == y->pad;
    return eq;
}
static bool hdr_same_tables(const struct bpak_header *a, const struct bpak_header *b)
{
    bool eq = true;
    for (unsigned i = 0; i < BPAK_MAX_META; i++)
        eq = eq && hdr_same_meta(a, b, i);
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++)
        eq = eq && hdr_same_part(a, b, i);
    return eq;
}
static bool hdr_same_metadata(const struct bpak_header *a, const struct bpak_header *b)
{
    unsigned w = vf_u16();
    VF_ASSUME(w < sizeof(a->metadata));
    return a->metadata[w] == b->metadata[w];
}
static bool hdr_same_signature(const struct bpak_header *a, const struct bpak_header *b)
{
    unsigned w = vf_u16();
    VF_ASSUME(w < sizeof(a->signature));
    return a->signature[w] == b->signature[w];
}
static __attribute__((unused)) bool hdr_same(const struct bpak_header *a, const struct bpak_header *b)
{
    return hdr_same_fixed(a, b) && hdr_same_tables(a, b) && hdr_same_metadata(a, b) && hdr_same_signature(a, b);
}
#endif
