/* Stand-ins for the decompressors: heatshrink and lzma as streams that give
 * out each byte xor 0x5a, some bytes per call, and hold the last one back
 * until told that the input has ended.  Every other behaviour of theirs is
 * outside; what is decided is that the patch engine feeds and drains them. */
#ifndef MODEL_PACK_H
#define MODEL_PACK_H
#include "vf.h"
#include <bpak/bspatch.h>
#define MP_Q 256
#define MP_TAKE 6
static struct {
    uint8_t q[MP_Q];
    unsigned in, out;
    bool fin, live, misuse, failed;
    unsigned inits, ends, calls, fail_at;
} MP;

static bool mp_fault(void)
{
    if (++MP.calls == MP.fail_at) {
        MP.failed = true;
        return true;
    }
    return false;
}
static void mp_reset(void)
{
    MP.in = MP.out = 0;
    MP.fin = false;
    MP.live = true;
    MP.inits++;
    MP.calls = 0;
    MP.failed = false;
}
static unsigned mp_take(const uint8_t *b, size_t n)
{
    unsigned i = 0;
    while (i < n && i < MP_TAKE && MP.in < MP_Q)
        MP.q[MP.in++] = b[i++];
    return i;
}
static unsigned mp_give(uint8_t *b, size_t n)
{
    unsigned i = 0, top = MP.fin || MP.in == 0 ? MP.in : MP.in - 1;
    while (i < n && MP.out < top)
        b[i++] = MP.q[MP.out++] ^ 0x5a;
    return i;
}
#if defined(PACK) && PACK == 1
void heatshrink_decoder_reset(heatshrink_decoder *hsd)
{
    (void)hsd;
    mp_reset();
}
HSD_sink_res heatshrink_decoder_sink(heatshrink_decoder *hsd, uint8_t *b, size_t n, size_t *taken)
{
    (void)hsd;
    MP.misuse = MP.misuse || !MP.live || MP.fin;
    *taken = 0;
    if (mp_fault())
        return HSDR_SINK_ERROR_NULL;
    if (MP.in - MP.out > 1)
        return HSDR_SINK_FULL;
    *taken = mp_take(b, n);
    return HSDR_SINK_OK;
}
HSD_poll_res heatshrink_decoder_poll(heatshrink_decoder *hsd, uint8_t *b, size_t n, size_t *given)
{
    (void)hsd;
    MP.misuse = MP.misuse || !MP.live;
    *given = 0;
    if (mp_fault())
        return HSDR_POLL_ERROR_UNKNOWN;
    *given = mp_give(b, n);
    return *given == n ? HSDR_POLL_MORE : HSDR_POLL_EMPTY;
}
HSD_finish_res heatshrink_decoder_finish(heatshrink_decoder *hsd)
{
    (void)hsd;
    if (mp_fault())
        return HSDR_FINISH_ERROR_NULL;
    MP.fin = true;
    return MP.out < MP.in ? HSDR_FINISH_MORE : HSDR_FINISH_DONE;
}
#elif defined(PACK) && PACK == 2
lzma_ret lzma_stream_decoder(lzma_stream *s, uint64_t memlimit, uint32_t flags)
{
    (void)memlimit, (void)flags;
    if (s->allocator == NULL)
        return LZMA_MEM_ERROR;
    mp_reset();
    return LZMA_OK;
}
lzma_ret lzma_code(lzma_stream *s, lzma_action a)
{
    MP.misuse = MP.misuse || !MP.live || (MP.fin && a == LZMA_RUN);
    if (MP.failed || mp_fault())
        return LZMA_DATA_ERROR;
    unsigned n = mp_take(s->next_in, s->avail_in);
    s->next_in += n;
    s->avail_in -= n;
    MP.fin = a == LZMA_FINISH && s->avail_in == 0;
    unsigned g = mp_give(s->next_out, s->avail_out);
    s->next_out += g;
    s->avail_out -= g;
    return MP.fin && MP.out == MP.in ? LZMA_STREAM_END : n || g ? LZMA_OK : LZMA_BUF_ERROR;
}
void lzma_end(lzma_stream *s)
{
    (void)s;
    MP.ends++;
    MP.live = false;
}
#endif
#endif
