/* Adding a file (ADD_FILE), a public key (ADD_KEY) or a file with hash tree
 * (ADD_TREE) to a package that has NPARTS parts of 512 bytes already.  One
 * symbolic byte of the package file, one of the input is followed. */
#define VF_WATCH 1
#define MH_OPS 3
#define VF_NFILES 2
#ifdef VF_MEM
#include "vf_mem.h"
#endif
#ifdef ADD_TREE
#define MM_MAX 1
#include "model_merkle.h"
#endif
#include "model_crypto.h"
#include "vf_file.h"
#include "hdr_same.h"
#include <bpak/pkg.h>
#include <bpak/id.h>
#include <bpak/utils.h>
#ifndef NPARTS
#define NPARTS 1
#endif
#define DBASE (4096 + NPARTS * 512)
#ifdef TR
#define BASE (DBASE - 512 + TR)
#else
#define BASE DBASE
#endif

long vf_random(void)
{
    return 0x12345678; /* any salt will do */
}

void harness(void)
{
    static struct bpak_package pkg;
    static struct bpak_header o, f0;
    struct bpak_header *h = &pkg.header;
    mh_setup();
    mc_setup();
    h->magic = BPAK_HEADER_MAGIC;
    h->hash_kind = KIND;
    h->key_id = vf_u32();
    h->metadata[100] = vf_u8();
    for (unsigned i = 0; i < NPARTS; i++) {
        h->parts[i].id = 0x1234 + i;
        h->parts[i].offset = 4096 + i * 512;
        h->parts[i].size = 500;
        h->parts[i].pad_bytes = 12;
        h->parts[i].flags = 0;
    }
#ifdef TR /* the first part is stored encoded */
    h->parts[0].flags = BPAK_FLAG_TRANSPORT;
    h->parts[0].transport_size = TR;
#endif
    vf_f[0].exists = vf_f[0].open = true;
    vf_f[0].size = BASE;
    vf_f[0].hdr.magic = 0x55;
    vf_f[0].pos = vf_u16();
    pkg.fp = VF_FP(0);
    vf_f[0].wat = vf_u16();
    VF_ASSUME(vf_f[0].wat >= 4096);
    uint8_t old = vf_u8();
    vf_f[0].wval = old;
    uint8_t flags = vf_u8();
    VF_ASSUME((flags & (BPAK_FLAG_TRANSPORT | BPAK_FLAG_EXCLUDE_FROM_HASH)) == 0);
    unsigned size;
#ifdef SIZE
    size = SIZE;
#else
    size = vf_u16();
    VF_ASSUME(size >= LO && size <= HI);
#endif
    unsigned pad = (512 - size % 512) % 512;
    bool intact = true;
    uint8_t inval = vf_u8();
    static const char name[] = "part";
    uint32_t id = bpak_id(name);
#ifdef DUP
    bool dup = true;
    h->parts[NPARTS - 1].id = id;
#else
    bool dup = false;
#endif
#ifdef IOFAULTS
#ifdef FAIL_AT
    VF.fail_at = FAIL_AT;
#else
    VF.fail_at = vf_u8();
#endif
#endif
#ifdef ADD_KEY
    static struct { struct bpak_key k; uint8_t d[600]; } *key;
    key = malloc(sizeof(*key));
    key->k.size = size;
    unsigned ip = vf_u16();
    VF_ASSUME(ip < size);
    key->k.data[ip] = inval;
    MC.rc = vf_bool() ? 0 : -(int)(1 + vf_u8() % 40);
    MC.loaded = &key->k;
    intact = MC.rc == 0;
    const char *file = "1";
#else
    static const char file[] = "1";
    unsigned ip = vf_u16();
    VF_ASSUME(ip < size || (size == 0 && ip == 0));
    vf_f[1].raw = true;
    vf_f[1].exists = true;
#ifdef NOFILE
    if (NOFILE == 1)
        vf_f[1].exists = false;
    else
        VF.fopen_fails = true;
#endif
    vf_f[1].size = size;
    vf_f[1].wat = ip;
    vf_f[1].wval = inval;
#ifdef LESS
    unsigned less = LESS; /* shorter than stat said */
#else
    unsigned less = 0;
#endif
    intact = vf_f[1].exists && !VF.fopen_fails && less == 0;
    vf_f[1].size -= less;
    vf_f[1].st_less = less;
#endif
#ifdef ADD_TREE
    mm_setup();
    MM.tree_size = 64;
    MM.rc_init = vf_bool() ? 0 : -BPAK_SIZE_ERROR;
    MM.rc_write = vf_bool() ? 0 : -BPAK_READ_ERROR;
    MM.node_at = 32;
    intact = intact && MM.rc_init == 0 && (MM.rc_write == 0 || size == 0);
    uint32_t tid = bpak_part_id_to_hash_tree_id(id);
    bool tdup = false;
    VF_ASSERT(tid != 0x1234 && tid != 0x1235 && id != 0x1234 && id != 0x1235, "harness ids differ");
    unsigned extra = 64;
#else
    bool tdup = false;
    unsigned extra = 0;
#endif
    VF_ASSUME(vf_f[0].wat < BASE + size + pad + extra + 10);
    /* the payload hash: the byte at the same place of the stream */
    MH.wop = FINALOP;
    MH.wpos = vf_f[0].wat - 4096;
    f0 = vf_f[0].hdr;
    o = *h;
    int rc;
#if defined(ADD_KEY)
    rc = bpak_pkg_add_key(&pkg, file, name, flags);
#elif defined(ADD_TREE)
    rc = bpak_pkg_add_file_with_merkle_tree(&pkg, file, name, flags);
#else
    rc = bpak_pkg_add_file(&pkg, file, name, flags);
#endif
    VF_ASSERT(rc <= 0, "errors are negative codes");
    struct vf_file *f = &vf_f[0];
    if (rc == BPAK_OK) {
        VF_ASSERT(intact && !dup && !tdup && !VF.torn, "success only if every step succeeded");
        struct bpak_part_header *p = &h->parts[NPARTS];
        VF_ASSERT(p->id == id && p->flags == flags && p->size == size && p->pad_bytes == pad && p->offset == DBASE &&
                      p->transport_size == 0 && p->pad == 0, "a part of the file's size, padded to 512, behind the others");
        unsigned n = NPARTS + 1;
#ifdef ADD_TREE
        struct bpak_part_header *t = &h->parts[NPARTS + 1];
        n++;
        VF_ASSERT(t->id == tid && t->flags == flags && t->size == 64 && t->pad_bytes == 0 && t->offset == DBASE + size + pad &&
                      t->transport_size == 0, "its hash tree behind it");
        struct bpak_meta_header *m;
        uint8_t *q;
        bool ok = bpak_get_meta(h, BPAK_ID_MERKLE_SALT, id, &m) == BPAK_OK && m->size == 32;
        VF_ASSERT(ok, "a salt is stored for the part");
        q = bpak_get_meta_ptr(h, m, uint8_t);
        ok = true;
        for (unsigned b = 0; b < 32; b++)
            ok = ok && q[b] == MM.salt[b];
        VF_ASSERT(ok, "it is the one the tree was computed with");
        ok = bpak_get_meta(h, BPAK_ID_MERKLE_ROOT_HASH, id, &m) == BPAK_OK && m->size == 32;
        VF_ASSERT(ok, "a root hash is stored for the part");
        q = bpak_get_meta_ptr(h, m, uint8_t);
        ok = true;
        for (unsigned b = 0; b < 32; b++)
            ok = ok && q[b] == MM.root.b[b];
        VF_ASSERT(ok, "it is the tree's");
        VF_ASSERT(MM.inits == 1 && MM.finishes == 1 && MM.len == size && MM.got == size && !MM.unfinished && MM.salt_len == 32,
                  "the tree is computed over the whole file");
#else
        VF_ASSERT(hdr_same_metadata(h, &o), "metadata stays");
        for (unsigned i = 0; i < BPAK_MAX_META; i++)
            VF_ASSERT(hdr_same_meta(h, &o, i), "metadata entries stay");
#endif
        for (unsigned i = 0; i < BPAK_MAX_PARTS; i++)
            if (i < NPARTS || i >= n)
                VF_ASSERT(hdr_same_part(h, &o, i), "other parts stay");
        VF_ASSERT(f->size == BASE + size + pad + extra && (f->whi == 0 || f->wlo >= BASE) && f->whi <= BASE + size + pad + extra,
                  "the payload grows by the part, nothing before it is written");
        if (f->wat < BASE)
            VF_ASSERT(f->wval == old, "the other parts' data stays");
        else if (f->wat < BASE + size) {
            if (f->wat == BASE + ip)
                VF_ASSERT(f->wval == inval, "the part holds the file's bytes");
        } else if (f->wat < BASE + size + pad)
            VF_ASSERT(f->wval == 0, "the padding is zero");
#ifdef ADD_TREE
        else if (f->wat < BASE + size + pad + 64) {
            unsigned k = f->wat - BASE - size - pad;
            VF_ASSERT(f->wval == (k >= 32 && k < 64 ? MM.node.b[k - 32] : 0), "the tree part holds the tree");
        }
#endif
        VF_ASSERT(MH.ops == FINALOP + 1 && MH.len[FINALOP] == f->size - 4096, "the payload digest covers all parts");
        if (MH.seen)
            VF_ASSERT(MH.val == f->wval, "as they are in the file");
        bool d = true;
        for (unsigned b = 0; b < 64; b++) {
            if (b < mh_size(KIND))
                d = d && h->payload_hash[b] == MH.digest[FINALOP][b];
            o.payload_hash[b] = h->payload_hash[b];
        }
        VF_ASSERT(d, "the header carries the new payload digest");
        VF_ASSERT(hdr_same_fixed(h, &o), "other header fields stay");
        VF_ASSERT(hdr_same_fixed(&f->hdr, h) && hdr_same_tables(&f->hdr, h) && hdr_same_metadata(&f->hdr, h), "the file's header is the new one");
#if !defined(NOFILE) && !defined(DUP) && !defined(LESS) && !defined(FAIL_AT)
        VF_REACH("added");
#endif
    } else {
        if (!VF.failed)
            VF_ASSERT(!intact || dup || tdup, "an intact file is added");
#ifdef ADD_TREE
        /* the data part may be there already, but nothing of a tree */
        bool half = true;
        for (unsigned i = NPARTS + 1; i < BPAK_MAX_PARTS; i++)
            half = half && f->hdr.parts[i].id == 0;
        for (unsigned i = 0; i < BPAK_MAX_META; i++)
            half = half && f->hdr.meta[i].id == 0;
        VF_ASSERT(half, "a failed addition leaves no tree, root hash or salt in the file's header");
#else
        VF_ASSERT(hdr_same_fixed(&f->hdr, &f0) && hdr_same_tables(&f->hdr, &f0), "a failed addition leaves the header in the file alone");
#endif
        if (f->wat < BASE)
            VF_ASSERT(f->wval == old, "and the other parts' data");
#if defined(NOFILE) || defined(DUP) || defined(LESS) || (defined(ADD_KEY) && !defined(FAIL_AT)) || (defined(ADD_TREE) && !defined(IOFAULTS))
        VF_REACH("refused");
#endif
#if defined(IOFAULTS) && !defined(FAIL_AT)
        if (VF.failed)
            VF_REACH("fault");
#endif
    }
    VF_ASSERT(!VF.bad_handle && !VF.in_header && !VF.bad_mode && !VF.outside && !MH.overflow, "only the two files are used");
#ifndef ADD_KEY
    VF_ASSERT(!vf_f[1].open && vf_f[1].writes == 0, "the input is only read, and closed");
#endif
}
