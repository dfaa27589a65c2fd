/* Published numeric ids, hash tree ids and their reverse mapping */
#include "vf.h"
#include <bpak/crc.h>
#include <bpak/id.h>
#include <bpak/utils.h>

static uint32_t ref_crc(uint32_t c, const char *d)
{
    for (; *d; d++) {
        c ^= (uint8_t)*d;
        for (int b = 0; b < 8; b++)
            c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1;
    }
    return c;
}

void harness(void)
{
#ifdef TABLE
    static const struct { uint32_t id; const char *name; } t[] = {
        { BPAK_ID_BPAK_TRANSPORT, "bpak-transport" },
        { BPAK_ID_MERKLE_SALT, "merkle-salt" },
        { BPAK_ID_MERKLE_ROOT_HASH, "merkle-root-hash" },
        { BPAK_ID_KEYSTORE_PROVIDER_ID, "keystore-provider-id" },
        { BPAK_ID_BPAK_VERSION, "bpak-version" },
        { BPAK_ID_PB_LOAD_ADDR, "pb-load-addr" },
        { BPAK_ID_BPAK_PACKAGE, "bpak-package" },
        { BPAK_ID_BPAK_KEY_ID, "bpak-key-id" },
        { BPAK_ID_BPAK_KEY_STORE, "bpak-key-store" },
        { BPAK_ID_BSDIFF, "bsdiff" },
        { BPAK_ID_BSDIFF_LZMA, "bsdiff-lzma" },
        { BPAK_ID_BSDIFF_NO_COMP, "bsdiff-no-comp" },
        { BPAK_ID_BSPATCH, "bspatch" },
        { BPAK_ID_BSPATCH_LZMA, "bspatch-lzma" },
        { BPAK_ID_BSPATCH_NO_COMP, "bspatch-no-comp" },
        { BPAK_ID_MERKLE_GENERATE, "merkle-generate" },
        { BPAK_ID_REMOVE_DATA, "remove-data" },
    };
    for (unsigned i = 0; i < sizeof(t) / sizeof(t[0]); i++) {
#ifndef __CPROVER__
        VF_ASSERT(t[i].id == ref_crc(0, t[i].name), "published id is the CRC-32 of its name");
#endif
        VF_ASSERT(t[i].id == bpak_id(t[i].name), "published id is what the library computes for the name");
        const char *s = bpak_id_to_string(t[i].id);
        VF_ASSERT(s != NULL && (s[0] == 0 || ref_crc(0, s) == t[i].id), "a known id is shown by its own name");
    }
    VF_ASSERT(bpak_part_name_to_hash_tree_id("fs") == ref_crc(0, "fs-hash-tree"), "hash tree id of a name");
    uint32_t pid = vf_u32();
    VF_ASSERT(bpak_part_id_to_hash_tree_id(pid) == bpak_crc32(pid, (const uint8_t *)"-hash-tree", 10),
              "hash tree id of any part id is the id of the name with the suffix");
    VF_REACH("table");
#else
    /* reverse mapping over any part table */
    static struct bpak_header h;
    uint32_t ids[BPAK_MAX_PARTS];
    bpak_id_t want = 0;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++) {
        ids[i] = 0x1000 + i * 0x01010101u;
#ifdef SYMSLOTS
        static const unsigned sym[] = SYMSLOTS;
        for (unsigned k = 0; k < sizeof(sym) / sizeof(sym[0]); k++)
            if (sym[k] == i) {
                ids[i] = vf_u32();
                VF_ASSUME(ids[i] != 0);
            }
#endif
#ifdef NPARTS
        if (i >= NPARTS)
            ids[i] = 0;
#endif
        h.parts[i].id = ids[i];
    }
    uint32_t q = vf_u32();
    VF_ASSUME(q != 0);
    for (int i = BPAK_MAX_PARTS - 1; i >= 0; i--)
        if (bpak_part_id_to_hash_tree_id(ids[i]) == q)
            want = ids[i];
    bpak_id_t r = bpak_hash_tree_id_to_part_id(&h, q);
    VF_ASSERT(r == want, "a hash tree id leads to the part it belongs to, or to none");
    if (r)
        VF_REACH("found");
    else
        VF_REACH("none");
#endif
}
