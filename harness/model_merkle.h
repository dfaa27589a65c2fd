/* Stand-in for the Merkle engine (lib/merkle.c, itself decided by C11-C13)
 * where a harness is about its callers: what it is given is recorded, the root
 * hash and one tree node it stores are symbolic. */
#ifndef MODEL_MERKLE_H
#define MODEL_MERKLE_H
#include "vf.h"
#include <bpak/merkle.h>
#ifndef MM_MAX
#define MM_MAX 16
#endif
static struct {
    unsigned inits, finishes;
    size_t len, salt_len, got;
    off_t offset;
    uint8_t salt[32], data[MM_MAX];
    bool zero, over, unfinished;
    struct vf_b32 root, node;
    unsigned node_at;     /* position of the node in the tree */
    int rc_init, rc_write;
    ssize_t tree_size;
    bpak_io_t wr;         /* not in the context: callers keep it in a union */
    void *priv;
} MM;

ssize_t bpak_merkle_compute_size(size_t n)
{
    (void)n;
    return MM.tree_size;
}

size_t bpak_merkle_get_size(struct bpak_merkle_context *ctx)
{
    (void)ctx;
    return MM.tree_size;
}

static void mm_setup(void)
{
    vf_fill_b32(&MM.root);
    vf_fill_b32(&MM.node);
}

int bpak_merkle_init(struct bpak_merkle_context *ctx, size_t len, const uint8_t *salt, size_t salt_len, bpak_io_t wr,
                     bpak_io_t rd, off_t offset, bool zero, void *priv)
{
    MM.inits++;
    MM.len = len;
    MM.salt_len = salt_len;
    for (unsigned i = 0; i < 32; i++)
        MM.salt[i] = i < salt_len ? salt[i] : 0;
    MM.offset = offset;
    MM.zero = zero;
    MM.got = 0;
    (void)ctx;
    (void)rd;
    MM.wr = wr;
    MM.priv = priv;
    return MM.rc_init;
}

int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx, uint8_t *buf, size_t n)
{
    (void)ctx;
#if MM_MAX > 1
    for (unsigned i = 0; i < MM_MAX; i++)
        if (i < n) {
            if (MM.got + i < MM_MAX)
                MM.data[MM.got + i] = buf[i];
            else
                MM.over = true;
        }
#else
    (void)buf;
#endif
    MM.got += n;
    if (MM.got > MM.len)
        MM.over = true;
    return MM.rc_write;
}

int bpak_merkle_finish(struct bpak_merkle_context *ctx, bpak_merkle_hash_t root)
{
    uint8_t node[32];
    (void)ctx;
    MM.finishes++;
    if (MM.got != MM.len)
        MM.unfinished = true;
    for (unsigned i = 0; i < 32; i++) {
        node[i] = MM.node.b[i];
        root[i] = MM.root.b[i];
    }
    ssize_t n = MM.wr(MM.offset + MM.node_at, node, 32, MM.priv);
    return n < 0 ? (int)n : n == 32 ? BPAK_OK : -BPAK_WRITE_ERROR;
}
#endif
