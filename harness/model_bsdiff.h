/* Stand-in for the diff engine (lib/bsdiff.c) where a harness is about its
 * callers: what it is given is recorded, what it produces is symbolic. */
#ifndef MODEL_BSDIFF_H
#define MODEL_BSDIFF_H
#include "vf.h"
#include <bpak/bsdiff.h>
#define MD_MAX 16
#define MD_OUT 7
static struct {
    unsigned inits, runs, frees;
    size_t origin_length, target_length;
    uint8_t origin[MD_MAX], target[MD_MAX], out[MD_OUT];
    off_t output_offset;
    enum bpak_compression compression;
    bpak_io_t write_output;
    void *user;
    bool io_bad;
    int rc_init, rc;
} MD;

int bpak_bsdiff_init(struct bpak_bsdiff_context *ctx, uint8_t *origin_data, size_t origin_length, uint8_t *new_data,
                     size_t new_length, bpak_io_t write_output, off_t output_offset, enum bpak_compression compression,
                     void *user_priv)
{
    (void)ctx;
    MD.inits++;
    MD.origin_length = origin_length;
    MD.target_length = new_length;
    for (unsigned i = 0; i < MD_MAX; i++) {
        MD.origin[i] = i < origin_length ? origin_data[i] : 0;
        MD.target[i] = i < new_length ? new_data[i] : 0;
    }
    MD.write_output = write_output;
    MD.output_offset = output_offset;
    MD.compression = compression;
    MD.user = user_priv;
    return MD.rc_init;
}

ssize_t bpak_bsdiff(struct bpak_bsdiff_context *ctx)
{
    (void)ctx;
    MD.runs++;
    if (MD.rc < 0)
        return MD.rc;
    if (MD.write_output(MD.output_offset, MD.out, 4, MD.user) != 4 ||
        MD.write_output(MD.output_offset + 4, MD.out + 4, MD_OUT - 4, MD.user) != MD_OUT - 4) {
        MD.io_bad = true;
        return -BPAK_WRITE_ERROR;
    }
    return MD_OUT;
}

void bpak_bsdiff_free(struct bpak_bsdiff_context *ctx)
{
    (void)ctx;
    MD.frees++;
}
#endif
