/* Signature backend plugged in through bpak_crypto_setup(): what it is asked
 * is recorded, what it answers is symbolic. */
#ifndef MODEL_CRYPTO_H
#define MODEL_CRYPTO_H
#include "model_hash.h"
#include <bpak/key.h>
#include <stdlib.h>
static struct {
    unsigned verifies, signs, pubs, pris, parses;
    int rc;               /* answer of verify/sign/load/parse */
    bool verified;
    const uint8_t *sig;
    size_t sig_len, hash_len;
    uint8_t hash[64];
    unsigned kind;
    struct bpak_key *key;
    const char *file;
    /* signing */
    uint8_t out[512];
    size_t out_len, out_room;
    bool room_bad;
    /* loading */
    struct bpak_key *loaded;
    size_t parse_len;
    uint8_t parse[64];
} MC;

static int mc_verify(const uint8_t *sig, size_t len, const uint8_t *hash, size_t hlen, enum bpak_hash_kind kind,
                     struct bpak_key *key, bool *verified)
{
    MC.verifies++;
    MC.sig = sig;
    MC.sig_len = len;
    MC.hash_len = hlen;
    for (unsigned i = 0; i < 64; i++)
        MC.hash[i] = i < hlen ? hash[i] : 0;
    MC.kind = kind;
    MC.key = key;
    if (MC.rc == BPAK_OK)
        *verified = MC.verified;
    return MC.rc;
}

static int mc_sign(const uint8_t *hash, size_t hlen, enum bpak_hash_kind kind, struct bpak_key *key, uint8_t *sig,
                   size_t *len)
{
    MC.signs++;
    MC.hash_len = hlen;
    for (unsigned i = 0; i < 64; i++)
        MC.hash[i] = i < hlen ? hash[i] : 0;
    MC.kind = kind;
    MC.key = key;
    MC.out_room = *len;
    if (MC.rc != BPAK_OK)
        return MC.rc;
    if (*len < MC.out_len)
        return -BPAK_BUFFER_TOO_SMALL;
    for (unsigned i = 0; i < 512; i++)
        if (i < MC.out_len)
            sig[i] = MC.out[i];
    *len = MC.out_len;
    return BPAK_OK;
}

static int mc_pub(const char *file, struct bpak_key **out)
{
    MC.pubs++;
    MC.file = file;
    if (MC.rc == BPAK_OK)
        *out = MC.loaded;
    return MC.rc;
}
static int mc_pri(const char *file, struct bpak_key **out)
{
    MC.pris++;
    MC.file = file;
    if (MC.rc == BPAK_OK)
        *out = MC.loaded;
    return MC.rc;
}
static int mc_parse(const uint8_t *b, size_t n, struct bpak_key **out)
{
    MC.parses++;
    MC.parse_len = n;
    for (unsigned i = 0; i < 64; i++)
        MC.parse[i] = i < n ? b[i] : 0;
    if (MC.rc == BPAK_OK)
        *out = MC.loaded;
    return MC.rc;
}
static void mc_setup(void)
{
    memset(&MC, 0, sizeof(MC));
    bpak_crypto_setup(mc_verify, mc_sign, mc_pub, mc_pri, mc_parse);
}
#endif
