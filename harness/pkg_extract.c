/* Extracting one part's data to a file (file 1). */
#define VF_NFILES 2
#define VF_PAY 64
#include "vf.h"
#include "vf_mem.h"
#include "vf_file.h"
#include "hdr_same.h"
#include <bpak/pkg.h>
#define NP 3
static const unsigned psize[NP] = { 7, SIZE, 3 }, ppad[NP] = { 1, 4, 0 }, ptrans[NP] = { 3, 5, 17 };
static const uint8_t pflag[NP] = { FLAGS };

void harness(void)
{
    static struct bpak_package pkg;
    static struct bpak_header o;
    struct bpak_header *h = &pkg.header;
    struct vf_b64 c;
    vf_fill_b64(&c);
    h->magic = BPAK_HEADER_MAGIC;
    unsigned total = 0, at = 0, len = 0;
    for (unsigned i = 0; i < NP; i++) {
        unsigned st = pflag[i] & BPAK_FLAG_TRANSPORT ? ptrans[i] : psize[i] + ppad[i];
        h->parts[i].id = 0x100 + i;
        h->parts[i].size = psize[i];
        h->parts[i].pad_bytes = ppad[i];
        h->parts[i].transport_size = ptrans[i];
        h->parts[i].flags = pflag[i];
        h->parts[i].offset = vf_u32();
        if (i == WHICH) {
            at = total;
            len = pflag[i] & BPAK_FLAG_TRANSPORT ? ptrans[i] : psize[i];
        }
        total += st;
    }
    vf_f[0].exists = vf_f[0].open = true;
    vf_f[0].rdonly = true;
    vf_f[0].size = 4096 + total - SHORT;
    vf_f[0].pos = 9;
    for (unsigned i = 0; i < VF_PAY; i++)
        vf_f[0].pay[i] = c.b[i];
    vf_f[1].raw = true;
    vf_f[1].exists = true; /* an old file is replaced */
    vf_f[1].size = 60;
    vf_f[1].pay[59] = vf_u8();
    pkg.fp = VF_FP(0);
#ifdef IOFAULTS
    VF.fail_at = vf_u8();
#endif
#ifdef NOOUT
    VF.fopen_fails = true;
#endif
#if VF_SYMBOLIC
    static uint8_t out_handle;
    stdout = (FILE *)&out_handle;
#endif
    o = *h;
    int rc = bpak_pkg_extract_file(&pkg, 0x100 + WHICH, "1");
    bool there = WHICH < NP && at + len <= total - SHORT;
    VF_ASSERT(rc <= 0, "errors are negative codes");
    if (rc == BPAK_OK) {
        VF_ASSERT(there && !VF.failed && !VF.fopen_fails, "success only if the part was read and written completely");
        VF_ASSERT(vf_f[1].size == len, "the file has the part's size, without padding");
        bool same = true;
        for (unsigned i = 0; i < VF_PAY; i++)
            same = same && (i >= len || vf_f[1].pay[i] == c.b[i + at < VF_PAY ? i + at : 0]);
        VF_ASSERT(same, "the file has the part's bytes");
#if WHICH < NP && SHORT == 0 && !defined(NOOUT)
        VF_REACH("extracted");
#endif
    } else {
        VF_ASSERT(VF.failed || VF.fopen_fails || !there, "an intact part is extracted");
#if WHICH >= NP || SHORT > 0 || defined(NOOUT) || defined(IOFAULTS)
        VF_REACH("refused");
#endif
#if WHICH >= NP
        VF_ASSERT(vf_f[1].opens == 0, "a missing part creates nothing");
#endif
    }
    VF_ASSERT(hdr_same_fixed(h, &o) && hdr_same_tables(h, &o) && vf_f[0].writes == 0 && VF.truncs == 0 && vf_f[0].open, "the package does not change");
    VF_ASSERT(!VF.bad_handle && !VF.in_header && !VF.outside && !VF.bad_mode && !vf_f[1].open, "only the two files are used, the output is closed");
}
