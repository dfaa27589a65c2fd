/* Stand-in for the patch engine (lib/bspatch.c, itself decided by C14 and C15)
 * where a harness is about its callers: what it is given is recorded, what it
 * produces is symbolic. */
#ifndef MODEL_BSPATCH_H
#define MODEL_BSPATCH_H
#include "vf.h"
#include <bpak/bspatch.h>
#define MB_IN 16
#define MB_OUT 16
static struct {
    unsigned inits, finals, frees;
    size_t input_length, fed;
    off_t origin_offset, output_offset;
    enum bpak_compression compression;
    bool over, no_buffer, io_bad;
    uint8_t in[MB_IN], origin, out[MB_OUT];
    int rc_init, rc_write;
    ssize_t rc_final;
    bpak_io_t read_origin, write_output; /* not in the context: callers keep it in a union */
    void *user;
} MB;

int bpak_bspatch_init(struct bpak_bspatch_context *ctx, uint8_t *buffer, size_t buffer_length, size_t input_length,
                      bpak_io_t read_origin, off_t origin_offset, bpak_io_t write_output, off_t output_offset,
                      enum bpak_compression compression, void *user)
{
    MB.inits++;
    MB.no_buffer = buffer == NULL || buffer_length == 0;
    MB.input_length = input_length;
    MB.origin_offset = origin_offset;
    MB.output_offset = output_offset;
    MB.compression = compression;
    MB.fed = 0;
    (void)ctx;
    MB.read_origin = read_origin;
    MB.write_output = write_output;
    MB.user = user;
    return MB.rc_init;
}

int bpak_bspatch_write(struct bpak_bspatch_context *ctx, uint8_t *buffer, size_t length)
{
    (void)ctx;
    for (unsigned i = 0; i < MB_IN; i++)
        if (i < length) {
            if (MB.fed + i < MB_IN)
                MB.in[MB.fed + i] = buffer[i];
            else
                MB.over = true;
        }
    MB.fed += length;
    return MB.rc_write;
}

ssize_t bpak_bspatch_final(struct bpak_bspatch_context *ctx)
{
    (void)ctx;
    MB.finals++;
    if (MB.rc_final < 0)
        return MB.rc_final;
    if (MB.read_origin(MB.origin_offset + 2, &MB.origin, 1, MB.user) != 1) {
        MB.io_bad = true;
        return -BPAK_PATCH_READ_ORIGIN_ERROR;
    }
    if (MB.write_output(MB.output_offset, MB.out, MB_OUT, MB.user) != MB_OUT) {
        MB.io_bad = true;
        return -BPAK_PATCH_WRITE_ERROR;
    }
    return MB.rc_final;
}

void bpak_bspatch_free(struct bpak_bspatch_context *ctx)
{
    (void)ctx;
    MB.frees++;
}
#endif
