/* Encoding and decoding packages whose parts are all copied, at real sizes:
 * one arbitrary byte of the payload is followed.  File 0: input, 1: output. */
#define MH_OPS 1
#define VF_NFILES 2
#define VF_WATCH
#define VF_PAY 64
#include "vf.h"
#include "vf_file.h"
#include "hdr_same.h"
#include <bpak/pkg.h>
#include <bpak/id.h>

void harness(void)
{
    static struct bpak_package in, out;
    static struct bpak_header o;
    static const unsigned size[] = { SIZES }, tsize[] = { TSIZES };
    enum { N = sizeof(size) / sizeof(size[0]) };
    struct bpak_header *h = &in.header;
    h->magic = BPAK_HEADER_MAGIC;
    h->hash_kind = 1;
    h->key_id = vf_u32();
    unsigned end = 4096;
    for (unsigned i = 0; i < N; i++) {
        h->parts[i].id = 0x100 + i;
        h->parts[i].size = size[i];
        h->parts[i].pad_bytes = (512 - size[i] % 512) % 512;
        h->parts[i].transport_size = tsize[i];
        h->parts[i].flags = tsize[i] ? BPAK_FLAG_TRANSPORT : 0;
        end += tsize[i] ? tsize[i] : size[i] + h->parts[i].pad_bytes;
    }
    for (unsigned i = 0; i < 2; i++) {
        vf_f[i].exists = vf_f[i].open = true;
        vf_f[i].rdonly = i == 0;
        vf_f[i].size = i ? 4096 : end;
        vf_f[i].wval = vf_u8();
    }
    vf_f[0].wat = vf_u16();
    VF_ASSUME(vf_f[0].wat >= 4096 && vf_f[0].wat < end);
    vf_f[1].wat = vf_f[0].wat;
    in.fp = VF_FP(0);
    out.fp = VF_FP(1);
    uint8_t want = vf_f[0].wval;
    o = *h;
    int rc = bpak_pkg_transport_encode(&in, &out, NULL);
    VF_ASSERT(rc == BPAK_OK, "a package of parts to be copied can be encoded");
    VF_ASSERT(vf_f[1].wval == want && vf_f[1].size == end && vf_f[1].wlo == 4096 && vf_f[1].whi == end, "every byte is copied to its place");
    VF_ASSERT(hdr_same_fixed(&vf_f[1].hdr, &o) && hdr_same_tables(&vf_f[1].hdr, &o), "the header is the input's");
    VF_ASSERT(vf_f[0].writes == 0 && !VF.bad_handle && !VF.in_header && !VF.outside, "the input is only read");
    VF_REACH("encoded");
}
