/* Forced include of every translation unit. */
#ifdef BPAK_VF_BUFSIZ /* a smaller stdio buffer size */
#include <stdio.h>
#undef BUFSIZ
#define BUFSIZ BPAK_VF_BUFSIZ
#endif
#ifdef BPAK_VF_NOUNION
/* The members of bpak's unions side by side: constants survive in them.  No
 * member is read but the one written last. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <lzma.h>
#define union struct
#endif
#ifdef sprintf /* redirected to the model in vf_fmt.h */
#include <stdio.h>
/* goto-cc does not promote variadic arguments: do it here */
#define VP_1(a1) (a1) + 0
#define VP_2(a1, a2) (a1) + 0, (a2) + 0
#define VP_3(a1, a2, a3) (a1) + 0, (a2) + 0, (a3) + 0
#define VP_4(a1, a2, a3, a4) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0
#define VP_5(a1, a2, a3, a4, a5) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0
#define VP_6(a1, a2, a3, a4, a5, a6) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0
#define VP_7(a1, a2, a3, a4, a5, a6, a7) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0
#define VP_8(a1, a2, a3, a4, a5, a6, a7, a8) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0
#define VP_9(a1, a2, a3, a4, a5, a6, a7, a8, a9) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0, (a9) + 0
#define VP_10(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0, (a9) + 0, (a10) + 0
#define VP_11(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0, (a9) + 0, (a10) + 0, (a11) + 0
#define VP_12(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0, (a9) + 0, (a10) + 0, (a11) + 0, (a12) + 0
#define VP_13(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0, (a9) + 0, (a10) + 0, (a11) + 0, (a12) + 0, (a13) + 0
#define VP_14(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0, (a9) + 0, (a10) + 0, (a11) + 0, (a12) + 0, (a13) + 0, (a14) + 0
#define VP_15(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0, (a9) + 0, (a10) + 0, (a11) + 0, (a12) + 0, (a13) + 0, (a14) + 0, (a15) + 0
#define VP_16(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) (a1) + 0, (a2) + 0, (a3) + 0, (a4) + 0, (a5) + 0, (a6) + 0, (a7) + 0, (a8) + 0, (a9) + 0, (a10) + 0, (a11) + 0, (a12) + 0, (a13) + 0, (a14) + 0, (a15) + 0, (a16) + 0
#define VP_PICK(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, n, ...) VP_##n
#define VP_PROM(...) VP_PICK(__VA_ARGS__, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0)(__VA_ARGS__)
int vf_sprintf(char *b, const char *f, ...);
int vf_snprintf(char *b, size_t n, const char *f, ...);
#define vf_sprintf(b, ...) vf_sprintf(b, VP_PROM(__VA_ARGS__))
#define vf_snprintf(b, n, ...) vf_snprintf(b, n, VP_PROM(__VA_ARGS__))
#endif
