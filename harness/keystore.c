/* Keys of a keystore: lookup in a compiled-in one, loading from a package. */
#define VF_NFILES 1
#define VF_WATCH
#define VF_PAY 64
#include "vf.h"
#include "model_crypto.h"
#include "vf_file.h"
#include <bpak/pkg.h>
#include <bpak/keystore.h>
#include <bpak/id.h>

#ifdef GET
#define NK 3
void harness(void)
{
    static uint8_t mem[sizeof(struct bpak_keystore) + NK * sizeof(struct bpak_key *)] __attribute__((aligned(16)));
    static struct bpak_key keys[NK];
    struct bpak_keystore *ks = (struct bpak_keystore *)mem;
    struct bpak_key *k = &keys[0];
    uint32_t id = vf_u32();
    uint32_t ids[NK];
    ks->id = vf_u32();
    ks->no_of_keys = vf_u8() % (NK + 1);
    ks->verified = vf_bool();
    for (unsigned i = 0; i < NK; i++) {
        keys[i].id = ids[i] = vf_u32();
        ks->keys[i] = &keys[i];
    }
    unsigned n = ks->no_of_keys, at = NK;
    bool ver = ks->verified;
    for (unsigned i = NK; i-- > 0;)
        if (i < n && ids[i] == id)
            at = i;
    int rc = bpak_keystore_get(ks, id, &k);
    if (!ver) {
        VF_ASSERT(rc < 0 && k == NULL, "an unverified keystore gives no key");
        VF_REACH("unverified");
    } else if (at == NK) {
        VF_ASSERT(rc == -BPAK_KEY_NOT_FOUND && k == NULL, "an unknown key is reported");
        VF_REACH("unknown");
    } else {
        VF_ASSERT(rc == BPAK_OK && k == &keys[at], "the key of that id is found");
        VF_REACH("found");
    }
}
#else
#ifndef WHICH
#define WHICH 1
#endif
#ifndef META
#define META 1
#endif
#define NP 3
static struct {
    unsigned checks, parses;
    int rc, parse_rc;
    bool user_ok, hdr_ok, late;
    uint64_t len, wpos;
    uint8_t w;
} K;
static struct bpak_key loaded;
static int user_token;

static int ks_check(struct bpak_header *h, void *user)
{
    K.checks++;
    K.user_ok = user == &user_token;
    K.hdr_ok = h->magic == BPAK_HEADER_MAGIC && h->keystore_id == vf_f[0].hdr.keystore_id && h->key_id == vf_f[0].hdr.key_id;
    K.late = K.parses != 0;
    return K.rc;
}

static int ks_parse(const uint8_t *b, size_t n, struct bpak_key **out)
{
    K.parses++;
    K.len = n;
    if (K.wpos < n && n <= 1024)
        K.w = b[K.wpos];
    if (K.parse_rc == BPAK_OK)
        *out = &loaded;
    return K.parse_rc;
}

void harness(void)
{
    struct bpak_header *h = &vf_f[0].hdr;
    struct bpak_key *key = NULL;
    bpak_crypto_setup(mc_verify, mc_sign, mc_pub, mc_pri, ks_parse);
    h->magic = BPAK_HEADER_MAGIC;
    h->hash_kind = 1;
    h->keystore_id = vf_u32();
    h->key_id = vf_u32();
    uint64_t at = 4096, len = 0;
    for (unsigned i = 0; i < NP; i++) {
        struct bpak_part_header *p = &h->parts[i];
        bool enc = vf_bool();
        p->id = 0x200 + i;
        p->size = vf_u32() & 0xfffff;
        p->pad_bytes = (512 - p->size % 512) % 512;
        p->transport_size = vf_u32() & 0xfffff;
        p->flags = enc ? BPAK_FLAG_TRANSPORT : 0;
        p->offset = vf_u32();
        uint64_t st = enc ? p->transport_size : p->size + p->pad_bytes;
        if (i < WHICH)
            at += st;
        if (i == WHICH)
            len = enc ? p->transport_size : p->size;
    }
    uint32_t provider = vf_u32(), asked = vf_u32();
    h->meta[0].id = 0x77;
    h->meta[0].size = 8;
#if META
    h->meta[1].id = BPAK_ID_KEYSTORE_PROVIDER_ID;
    h->meta[1].size = 4;
    h->meta[1].offset = 8;
    for (unsigned i = 0; i < 4; i++)
        h->metadata[8 + i] = (provider >> (8 * i)) & 255;
#endif
    loaded.id = vf_u32();
    loaded.size = vf_u16();
    uint16_t lsize = loaded.size;
    struct vf_file *f = &vf_f[0];
    f->exists = true;
    f->size = vf_u32() & 0xffffff;
    f->wat = vf_u32();
    f->wval = vf_u8();
    VF_ASSUME(f->size >= 4096 && f->wat >= at && f->wat - at < 1024);
    K.wpos = f->wat - at;
    K.rc = -(int)(vf_u8() % 4);
    K.parse_rc = -(int)(vf_u8() % 4);
#ifdef NOFILE
    VF.fopen_fails = true;
#endif
#ifdef IOFAULTS
    VF.fail_at = FAIL_AT;
#endif
    int rc = bpak_keystore_load_key_from_file("0", asked, 0x200 + WHICH,
#ifdef NOCHECK
                                              NULL, NULL,
#else
                                              ks_check, &user_token,
#endif
                                              &key);
    bool ok = !VF.failed && !VF.fopen_fails && META && provider == asked && WHICH < NP && len <= 1024 && (len == 0 || at + len <= f->size) &&
              K.parse_rc == BPAK_OK;
#ifndef NOCHECK
    ok = ok && K.rc == BPAK_OK;
    VF_ASSERT(VF.fopen_fails || VF.failed || K.checks == 1, "the caller's check sees the header");
    VF_ASSERT(K.checks == 0 || (K.user_ok && K.hdr_ok), "the caller's check gets the header and its context");
    VF_ASSERT(!K.late, "the caller's check comes before the key is used");
    if (K.checks && K.rc != BPAK_OK)
        VF_ASSERT(rc == K.rc && K.parses == 0, "the caller's refusal is passed on");
#endif
    VF_ASSERT(rc <= 0, "errors are negative codes");
    VF_ASSERT((rc == BPAK_OK) == ok, "a key is loaded exactly when everything about it is right");
    VF_ASSERT(K.parses <= 1, "one key is read");
    if (K.parses) {
        VF_ASSERT(provider == asked && META, "only keys of the right provider are used");
        VF_ASSERT(K.len == len && len <= 1024, "the key part's data is used, without padding");
        if (K.wpos < len)
            VF_ASSERT(K.w == f->wval, "the key part's bytes are used");
    }
    if (rc == BPAK_OK) {
        VF_ASSERT(key == &loaded && key->id == 0x200 + WHICH && key->size == lsize, "the loaded key is returned with its id");
#if META && WHICH < NP && !defined(NOFILE)
        VF_REACH("loaded");
#endif
    } else {
        VF_REACH("refused");
    }
    VF_ASSERT(!f->open && f->writes == 0 && VF.truncs == 0 && !VF.bad_handle, "the package is closed and not written to");
}
#endif
