/* Reference view of header metadata, written independently of lib/bpak.c */
#ifndef HDR_MODEL_H
#define HDR_MODEL_H
#include "vf.h"
#define AL8(x) (((unsigned)(x) + 7u) & ~7u)

static inline bool slot_eq(const struct bpak_meta_header *a, const struct bpak_meta_header *b)
{
    return a->id == b->id && a->size == b->size && a->offset == b->offset && a->part_id_ref == b->part_id_ref &&
           a->pad[0] == b->pad[0] && a->pad[1] == b->pad[1] && a->pad[2] == b->pad[2] && a->pad[3] == b->pad[3];
}

static inline bool part_eq(const struct bpak_part_header *a, const struct bpak_part_header *b)
{
    return a->id == b->id && a->size == b->size && a->offset == b->offset && a->transport_size == b->transport_size &&
           a->pad_bytes == b->pad_bytes && a->flags == b->flags && a->pad == b->pad;
}

static inline bool slots_eq(const struct bpak_header *a, const struct bpak_header *b)
{
    bool r = true;
    for (unsigned i = 0; i < BPAK_MAX_META; i++)
        r = r && slot_eq(&a->meta[i], &b->meta[i]);
    return r;
}

static inline bool parts_eq(const struct bpak_header *a, const struct bpak_header *b)
{
    bool r = true;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++)
        r = r && part_eq(&a->parts[i], &b->parts[i]);
    return r;
}
#endif
