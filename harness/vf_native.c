/* Native side of a replay: fatal assumptions/assertions with distinct codes */
#include <stdio.h>
#include <stdlib.h>
void harness(void);
void vf_native_assume(int c, const char *what, int line)
{
    if (!c) {
        fprintf(stderr, "ASSUMPTION-NOT-MET line %d: %s\n", line, what);
        _Exit(77);
    }
}
void vf_native_assert(int c, const char *what, int line)
{
    if (!c) {
        fprintf(stderr, "PROPERTY-VIOLATED line %d: %s\n", line, what);
        _Exit(99);
    }
}
void vf_native_reach(const char *what)
{
    fprintf(stderr, "REACHED %s\n", what);
}
int main(void)
{
    harness();
    fprintf(stderr, "HARNESS-END\n");
    return 0;
}
