/* Deleting one part (DEL = index) or all parts (DEL = ALL, 99) of a package
 * with NP parts; contents, metadata contents and the file's rest symbolic. */
#define MH_OPS 1
#define VF_NFILES 1
#define VF_PAY 64
#include "vf_mem.h"
#include "model_hash.h"
#include "vf_file.h"
#include "hdr_same.h"
#include <bpak/pkg.h>
#define ALL 99
#define NP 4
#define NM 5
#define REF(i) (0x100 + (i))
static const unsigned psize[NP] = { 7, 12, 3, 9 }, ppad[NP] = { 1, 4, 0, 7 }, ptrans[NP] = { 3, 5, 17, 2 };
static const uint8_t pflag[NP] = { FLAGS };
static const unsigned mref[NM] = { MREFS };
static const unsigned msize[NM] = { 8, 3, 16, 9, 1 };

static unsigned stored(unsigned i)
{
    return pflag[i] & BPAK_FLAG_TRANSPORT ? ptrans[i] : psize[i] + ppad[i];
}

void harness(void)
{
    static struct bpak_package pkg;
    static struct bpak_header o, f0, want;
    struct bpak_header *h = &pkg.header;
    struct vf_b64 c, md;
    mh_setup();
    vf_fill_b64(&c);
    vf_fill_b64(&md);
    h->magic = BPAK_HEADER_MAGIC;
    h->hash_kind = KIND;
    h->key_id = vf_u32();
    h->signature_sz = vf_u16();
    h->signature[3] = vf_u8();
    unsigned total = 0, at = 0, len = 0;
    uint64_t doff = 4096;
    for (unsigned i = 0; i < NP; i++) {
        h->parts[i].id = REF(i);
        h->parts[i].size = psize[i];
        h->parts[i].pad_bytes = ppad[i];
        h->parts[i].transport_size = ptrans[i];
        h->parts[i].flags = pflag[i];
        h->parts[i].offset = doff;
        doff += psize[i] + ppad[i];
        if (i == DEL) {
            at = total;
            len = stored(i);
        }
        total += stored(i);
    }
    unsigned mo = 0;
    for (unsigned i = 0; i < NM; i++) {
        h->meta[i].id = 0x50 + i;
        h->meta[i].size = msize[i];
        h->meta[i].offset = mo;
        h->meta[i].part_id_ref = mref[i];
        for (unsigned b = 0; b < msize[i]; b++)
            h->metadata[mo + b] = md.b[mo + b];
        mo += (msize[i] + 7) / 8 * 8;
    }
    bool remove = REMOVE;
    vf_f[0].exists = vf_f[0].open = true;
    vf_f[0].size = 4096 + total;
    vf_f[0].hdr.magic = 0x55;
    vf_f[0].pos = 17;
    for (unsigned i = 0; i < VF_PAY; i++)
        vf_f[0].pay[i] = i < total ? c.b[i] : 0;
    pkg.fp = VF_FP(0);
    MH.wpos = vf_u8();
#ifdef IOFAULTS
    VF.fail_at = FAIL_AT;
#endif
    /* what is to come out */
    want = *h;
    for (unsigned i = 0; i < NP; i++)
        memset(&want.parts[i], 0, sizeof(want.parts[i]));
    unsigned n = 0;
    doff = 4096;
    for (unsigned i = 0; i < NP; i++)
        if (DEL != ALL && i != DEL) {
            want.parts[n] = h->parts[i];
            want.parts[n].offset = doff;
            doff += psize[i] + ppad[i];
            n++;
        }
    if (remove) {
        unsigned k = 0;
        mo = 0;
        for (unsigned i = 0; i < NM; i++)
            memset(&want.meta[i], 0, sizeof(want.meta[i]));
        for (unsigned i = 0; i < 64; i++)
            want.metadata[i] = 0;
        for (unsigned i = 0; i < NM; i++)
            if (DEL == ALL ? mref[i] == 0 : mref[i] != REF(DEL)) {
                want.meta[k] = h->meta[i];
                want.meta[k].offset = mo;
                for (unsigned b = 0; b < msize[i]; b++)
                    want.metadata[mo + b] = h->metadata[h->meta[i].offset + b];
                mo += (msize[i] + 7) / 8 * 8;
                k++;
            }
    }
    unsigned left = DEL == ALL ? 0 : total - len;
    uint8_t exp[VF_PAY];
    unsigned hashed = 0;
    bool seenbyte = false;
    uint8_t hbyte = 0;
    for (unsigned i = 0; i < VF_PAY; i++)
        exp[i] = i >= left ? 0 : i < at ? c.b[i] : c.b[i + len < VF_PAY ? i + len : 0];
    unsigned pos = 0;
    for (unsigned i = 0; i < NP; i++)
        if (DEL != ALL && i != DEL) {
            for (unsigned b = 0; b < stored(i); b++) {
                if (!(pflag[i] & BPAK_FLAG_EXCLUDE_FROM_HASH)) {
                    if (hashed == MH.wpos) {
                        seenbyte = true;
                        hbyte = exp[pos];
                    }
                    hashed++;
                }
                pos++;
            }
        }
    f0 = vf_f[0].hdr;
    o = *h;
    int rc = DEL == ALL ? bpak_pkg_delete_all_parts(&pkg, remove) : bpak_pkg_delete_part(&pkg, DEL >= NP ? 0x999 : REF(DEL), remove);
    struct vf_file *f = &vf_f[0];
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (rc == BPAK_OK) {
        VF_ASSERT(!VF.failed && (DEL == ALL || DEL < NP), "success only if every step succeeded");
        VF_ASSERT(hdr_same_tables(h, &want), "exactly the part and, on request, its metadata are gone; the rest moves up");
        bool mds = true;
        for (unsigned i = 0; i < 64; i++)
            mds = mds && h->metadata[i] == want.metadata[i];
        VF_ASSERT(mds, "the remaining metadata keeps its contents");
        bool d = true;
        for (unsigned b = 0; b < 64; b++) {
            if (b < mh_size(KIND))
                d = d && h->payload_hash[b] == MH.digest[0][b];
            want.payload_hash[b] = h->payload_hash[b];
        }
        VF_ASSERT(d && MH.ops == 1 && MH.len[0] == hashed && MH.seen == seenbyte && (!seenbyte || MH.val == hbyte),
                  "the payload digest is the one of the remaining payload");
        VF_ASSERT(hdr_same_fixed(h, &want), "other header fields stay");
        VF_ASSERT(hdr_same_fixed(&f->hdr, h) && hdr_same_tables(&f->hdr, h) && hdr_same_metadata(&f->hdr, h), "the file's header is the new one");
        bool p = true;
        for (unsigned i = 0; i < VF_PAY; i++)
            p = p && (i >= left || f->pay[i] == exp[i]);
        VF_ASSERT(p, "the remaining parts' data is intact");
        VF_ASSERT(f->size == 4096 + left, "the file ends behind the last part");
#if DEL < NP || DEL == ALL
        VF_REACH("deleted");
#endif
    } else {
        VF_ASSERT(VF.failed || !(DEL == ALL || DEL < NP), "an intact package can be deleted from");
        if (!VF.failed) {
            VF_ASSERT(hdr_same_fixed(h, &o) && hdr_same_tables(h, &o) && f->writes == 0 && f->size == 4096 + total, "a missing part changes nothing");
#if DEL >= NP && DEL != ALL
            VF_REACH("missing");
#endif
        }
    }
    VF_ASSERT(!VF.bad_handle && !VF.in_header && !VF.outside && !MH.overflow, "only the package's file is used");
}
