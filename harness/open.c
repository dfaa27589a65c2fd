/* Opening a package: missing, empty, short, unsound and sound files. */
#define MH_OPS 1
#define VF_NFILES 1
#define VF_WATCH
#define VF_PAY 64
#include "vf.h"
#include "vf_file.h"
#include "hdr_same.h"
#include "model_hash.h"
#include <bpak/pkg.h>
#if defined(RO)
#define MODE "r"
#elif defined(WO)
#define MODE "w"
#elif defined(WR)
#define MODE "w+"
#else
#define MODE "r+"
#endif
#ifndef NEWFILE       /* a file that is not there, or is truncated by opening */
#define NEWFILE 0
#endif
#ifndef EMPTY
#define EMPTY 0
#endif

static bool sound(const struct bpak_header *h)
{
    bool ok = h->magic == BPAK_HEADER_MAGIC && h->hash_kind != 0;
    for (unsigned i = 0; i < BPAK_MAX_PARTS; i++)
        if (h->parts[i].id) {
            uint64_t s = h->parts[i].size, t = s + h->parts[i].pad_bytes;
            ok = ok && t >= s && (t & 511) == 0;
        }
    for (unsigned i = 0; i < BPAK_MAX_META; i++)
        if (h->meta[i].id)
            ok = ok && (unsigned)h->meta[i].size + h->meta[i].offset <= 1920;
    return ok;
}

void harness(void)
{
    static struct bpak_package pkg;
    static struct bpak_header o;
    struct vf_file *f = &vf_f[0];
    mh_setup();
    pkg.header.key_id = vf_u32();
    pkg.header.parts[3].id = vf_u32();
#if !NEWFILE && !EMPTY
    vf_fill_header(&f->hdr);
#endif
    f->exists = !NEWFILE;
#if EMPTY || NEWFILE
    f->size = 0;
#else
    f->size = vf_u32();
    VF_ASSUME(f->size > 0);
#endif
    f->wat = vf_u32();
    f->wval = vf_u8();
    VF_ASSUME(f->wat >= 4096);
#if NEWFILE == 2
    f->exists = true;
    f->size = 9000;
    f->hdr.magic = vf_u32();
    f->hdr.parts[1].id = vf_u32();
#endif
    uint8_t wv = NEWFILE ? 0 : f->wval;
    uint64_t size = f->size;
    o = f->hdr;
#ifdef IOFAULTS
    VF.fail_at = FAIL_AT;
    VF.fail_all = vf_bool();
#endif
#ifdef FAULTS
    MH.fail_at = vf_u8();
#endif
#ifdef NOMODE
    int rc = bpak_pkg_open(&pkg, "0", NULL);
    VF_ASSERT(rc < 0 && f->opens == 0, "a package is not opened without a mode");
    VF_REACH("no mode");
#else
    int rc = bpak_pkg_open(&pkg, "0", MODE);
    bool rd = MODE[0] == 'r';
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (NEWFILE == 1 && rd) {
        VF_ASSERT(rc == -BPAK_NOT_FOUND && pkg.fp == NULL && !f->exists, "a missing file is reported and not created");
#if NEWFILE == 1
        VF_REACH("missing");
#endif
        return;
    }
    bool fresh = NEWFILE || EMPTY, ro = MODE[0] == 'r' && MODE[1] != '+';
    bool ok = !VF.failed && !MH.failed && (fresh ? !ro : size >= 4096 && sound(&o));
    VF_ASSERT((rc == BPAK_OK) == ok, "a package is opened exactly when it is sound or can be made new");
    VF_ASSERT(f->opens == 1 && !VF.bad_handle && !VF.bad_mode && !VF.outside && VF.truncs == 0, "the file is opened once");
    VF_ASSERT(f->wval == wv, "opening does not change the payload");
    if (!fresh) {
        VF_ASSERT(f->writes == 0 && f->size == size && hdr_same(&f->hdr, &o), "opening does not change a file with contents");
        if (rc == BPAK_OK)
            VF_ASSERT(hdr_same(&pkg.header, &o), "the package has the file's header");
    } else if (rc == BPAK_OK) {
        struct bpak_header *h = &pkg.header;
        VF_ASSERT(f->size == 4096 && hdr_same(&f->hdr, h), "the new header is stored in the file");
        bool blank = h->magic == BPAK_HEADER_MAGIC && h->hash_kind == BPAK_HASH_SHA256 && h->signature_sz == 0 && h->key_id == 0 && h->keystore_id == 0;
        for (unsigned i = 0; i < BPAK_MAX_PARTS; i++)
            blank = blank && h->parts[i].id == 0 && h->meta[i].id == 0;
        unsigned w = vf_u16();
        VF_ASSUME(w < 1920);
        blank = blank && h->metadata[w] == 0 && (w >= 512 || h->signature[w] == 0);
        VF_ASSERT(blank && sound(h), "the new header is sound and empty");
        bool dig = MH.finals == 1 && MH.len[0] == 0 && MH.kind[0] == BPAK_HASH_SHA256;
        for (unsigned i = 0; i < 64; i++)
            dig = dig && h->payload_hash[i] == (i < 32 ? MH.digest[0][i] : 0);
        VF_ASSERT(dig, "the new header has the digest of an empty payload");
    }
    if (rc == BPAK_OK) {
        VF_ASSERT(pkg.fp == VF_FP(0) && f->open, "an opened package has its file");
        VF_REACH("opened");
    } else {
        VF_ASSERT(pkg.fp == NULL && !f->open, "the file of a package that failed to open is closed");
        VF_REACH("refused");
    }
    bpak_pkg_close(&pkg);
    bpak_pkg_close(&pkg);
    VF_ASSERT(pkg.fp == NULL && !f->open && !VF.bad_handle, "a package is closed once");
#endif
}
