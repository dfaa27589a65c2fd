/* Common vocabulary of the solver harnesses.
 *
 * Under CBMC (goto-cc defines __CPROVER__) every vf_* source is an
 * unconstrained symbolic value.  In the native replay build the same sources
 * read the values the solver chose, from a generated vf_tape() function.  The
 * runner recognises the variable name `vf_rec` in traces: keep it.
 */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <sys/types.h>
#include <bpak/bpak.h>

struct vf_b8 { uint8_t b[8]; };
struct vf_b16 { uint8_t b[16]; };
struct vf_b32 { uint8_t b[32]; };
struct vf_b64 { uint8_t b[64]; };
struct vf_b128 { uint8_t b[128]; };
struct vf_b512 { uint8_t b[512]; };
struct vf_b1920 { uint8_t b[1920]; };
struct vf_b4096 { uint8_t b[4096]; };
typedef struct bpak_header vf_header;

#ifdef __CPROVER__
#define VF_SRC(name, T)                                                      \
    T nondet_##name(void);                                                   \
    static __attribute__((unused)) T vf_##name(void)                         \
    {                                                                        \
        T vf_rec = nondet_##name();                                          \
        return vf_rec;                                                       \
    }
#define VF_BSRC(name, T)                                                     \
    T nondet_##name(void);                                                   \
    static __attribute__((unused)) void vf_fill_##name(T *p)                 \
    {                                                                        \
        T vf_rec = nondet_##name();                                          \
        *p = vf_rec;                                                         \
    }
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_ASSERT(c, msg) __CPROVER_assert((c), "VF " msg)
#define VF_REACH(msg) __CPROVER_assert(0, "REACH " msg)
#define VF_SYMBOLIC 1
#else
void vf_tape(const char *kind, void *p);
void vf_native_assume(int c, const char *what, int line);
void vf_native_assert(int c, const char *what, int line);
void vf_native_reach(const char *what);
#define VF_SRC(name, T)                                                      \
    static __attribute__((unused)) T vf_##name(void)                         \
    {                                                                        \
        T v;                                                                 \
        memset(&v, 0, sizeof(v));                                            \
        vf_tape(#name, &v);                                                  \
        return v;                                                            \
    }
#define VF_BSRC(name, T)                                                     \
    static __attribute__((unused)) void vf_fill_##name(T *p)                 \
    {                                                                        \
        memset(p, 0, sizeof(*p));                                            \
        vf_tape(#name, p);                                                   \
    }
#define VF_ASSUME(c) vf_native_assume((c) ? 1 : 0, #c, __LINE__)
#define VF_ASSERT(c, msg) vf_native_assert((c) ? 1 : 0, msg, __LINE__)
#define VF_REACH(msg) vf_native_reach(msg)
#define VF_SYMBOLIC 0
#endif

VF_SRC(u8, uint8_t)
VF_SRC(u16, uint16_t)
VF_SRC(u32, uint32_t)
VF_SRC(u64, uint64_t)
VF_BSRC(b8, struct vf_b8)
VF_BSRC(b16, struct vf_b16)
VF_BSRC(b32, struct vf_b32)
VF_BSRC(b64, struct vf_b64)
VF_BSRC(b128, struct vf_b128)
VF_BSRC(b512, struct vf_b512)
VF_BSRC(b1920, struct vf_b1920)
VF_BSRC(b4096, struct vf_b4096)
VF_BSRC(header, vf_header)

static __attribute__((unused)) bool vf_bool(void) { return vf_u8() & 1; }

void harness(void);

#endif
