/* Files in memory: the stdio and POSIX calls the library makes, over VF_NFILES
 * files named "0", "1", ... in the harness.  A package file is a header and a
 * payload of up to VF_PAY bytes; a raw file is payload only.  Faults: the
 * VF.fail_at'th call that can fail does (short transfer or error). */
#ifndef VF_FILE_H
#define VF_FILE_H
#include "vf.h"
#include <stdio.h>
#include <sys/stat.h>
#include <sys/mman.h>
#ifndef VF_NFILES
#define VF_NFILES 2
#endif
#ifndef VF_PAY
#define VF_PAY 64
#endif
/* With VF_WATCH only the byte at one (symbolic) position `wat` of a file is
 * kept, whatever the file's size; the range written is kept as well. */
struct vf_file {
    struct bpak_header hdr;
#ifdef VF_WATCH
    uint64_t wat, wlo, whi;
    uint8_t wval;
    uint64_t st_less; /* stat() reports this much more than there is */
#else
    uint8_t pay[VF_PAY];
#endif
    uint64_t size, pos;
    bool exists, raw, open, rdonly, wronly, err;
    unsigned opens, writes, reads, maps;
};
static struct vf_file vf_f[VF_NFILES];
static struct {
    unsigned calls, fail_at;
    bool failed;
    bool outside;     /* a write behind the modelled area */
    bool bad_handle;  /* use of a closed or unknown file */
    bool bad_mode;
    bool torn;        /* a header was written or read in part, because of a fault */
    bool in_header;   /* a part of a header was read or written */
    unsigned truncs;
    bool fopen_fails; /* concrete: a symbolic handle would not be followed */
    bool bad_map;
    bool fail_all;    /* a failing read gives no byte at all */
} VF;

#ifndef VF_FWIN
#define VF_FWIN(c) true
#endif
static bool vf_iofault(void)
{
#ifdef IOFAULTS
    ++VF.calls;
    if (VF_FWIN(VF.calls) && VF.calls == VF.fail_at) {
        VF.failed = true;
        return true;
    }
#endif
    return false;
}

#define VF_FP(i) ((FILE *)&vf_f[i])
static struct vf_file *vf_fh(FILE *fp)
{
    for (unsigned i = 0; i < VF_NFILES; i++)
        if (fp == VF_FP(i)) {
            if (!vf_f[i].open)
                VF.bad_handle = true;
            return &vf_f[i];
        }
    VF.bad_handle = true;
    return &vf_f[0];
}

static unsigned vf_name(const char *name)
{
    unsigned i = (unsigned)(name[0] - '0');
    return i < VF_NFILES && name[1] == 0 ? i : VF_NFILES;
}

FILE *vf_fopen(const char *name, const char *mode)
{
    unsigned i = vf_name(name);
    if (i >= VF_NFILES || VF.fopen_fails)
        return NULL;
    if (mode[0] == 'r' && !vf_f[i].exists)
        return NULL;
    if (mode[0] == 'w') {
        memset(&vf_f[i].hdr, 0, sizeof(vf_f[i].hdr));
#ifdef VF_WATCH
        vf_f[i].wval = 0;
#else
        memset(vf_f[i].pay, 0, VF_PAY);
#endif
        vf_f[i].size = 0;
        vf_f[i].exists = true;
    } else if (mode[0] != 'r') {
        VF.bad_mode = true;
    }
    vf_f[i].rdonly = mode[0] == 'r' && !(mode[1] == '+' || (mode[1] == 'b' && mode[2] == '+'));
    vf_f[i].wronly = mode[0] == 'w' && !(mode[1] == '+' || (mode[1] == 'b' && mode[2] == '+'));
    vf_f[i].err = false;
    vf_f[i].open = true;
    vf_f[i].opens++;
    vf_f[i].pos = 0;
    return VF_FP(i);
}

int vf_fclose(FILE *fp)
{
    vf_fh(fp)->open = false;
    return 0;
}

int vf_fseek(FILE *fp, long off, int whence)
{
    struct vf_file *f = vf_fh(fp);
    if (vf_iofault())
        return -1;
    if (whence == SEEK_END)
        off += f->size;
    else if (whence == SEEK_CUR)
        off += f->pos;
    if (off < 0)
        return -1;
    f->pos = off;
    return 0;
}

long vf_ftell(FILE *fp)
{
    return vf_fh(fp)->pos;
}

#ifndef VF_COPYMAX
#define VF_COPYMAX VF_PAY
#endif
static void vf_get(struct vf_file *f, uint64_t at, uint8_t *b, size_t n)
{
    if (!f->raw && at < 4096) {
        if (at != 0 || n != 4096) {
            VF.in_header = true; /* headers are read and written as a whole */
            return;
        }
        *(struct bpak_header *)b = f->hdr;
        return;
    }
    if (n == 0)
        return;
#ifdef VF_WATCH
    if (f->wat >= at && f->wat - at < n)
        b[f->wat - at] = f->wval;
#else
    uint64_t o = f->raw ? at : at - 4096;
#ifdef VF_SPARSE /* all but the first VF_SPARSE bytes of a transfer are zero, here and there */
    for (size_t i = 0; i < VF_SPARSE; i++)
        if (i < n)
            b[i] = f->pay[o + i];
#elif defined(VF_BULK)
    memcpy(b, f->pay + o, n);
#else
    for (size_t i = 0; i < VF_COPYMAX; i++) {
        if (i >= n)
            break;
        b[i] = f->pay[o + i];
    }
#endif
#endif
}

static void vf_put(struct vf_file *f, uint64_t at, const uint8_t *b, size_t n)
{
    if (!f->raw && at < 4096) {
        if (at != 0 || n != 4096) {
            VF.in_header = true; /* headers are read and written as a whole */
            return;
        }
        f->hdr = *(const struct bpak_header *)b;
        return;
    }
    if (n == 0)
        return;
#ifdef VF_WATCH
    if (f->wat >= at && f->wat - at < n)
        f->wval = b[f->wat - at];
    if (f->whi == 0 || at < f->wlo)
        f->wlo = at;
    if (at + n > f->whi)
        f->whi = at + n;
#else
    uint64_t o = f->raw ? at : at - 4096;
#ifdef VF_BULK
    memcpy(f->pay + o, b, n);
#else
    for (size_t i = 0; i < VF_COPYMAX; i++) {
        if (i >= n)
            break;
        f->pay[o + i] = b[i];
    }
#endif
#endif
}

size_t vf_fread(void *buf, size_t sz, size_t nm, FILE *fp)
{
    struct vf_file *f = vf_fh(fp);
    size_t n = sz * nm;
    uint64_t left = f->size > f->pos ? f->size - f->pos : 0;
    f->reads++;
    if (f->wronly) {
        f->err = true;
        return 0;
    }
    if (n > left)
        n = left;
    if (n == 0)
        return 0;
    if (vf_iofault()) {
        n = VF.fail_all ? 0 : n - 1;
        f->err = true;
        if (!f->raw && f->pos < 4096)
            VF.torn = true;
        else if (n)
            vf_get(f, f->pos, buf, n);
    } else
        vf_get(f, f->pos, buf, n);
    f->pos += n;
    return sz == 1 ? n : n / sz;
}

size_t vf_fwrite(const void *buf, size_t sz, size_t nm, FILE *fp)
{
    struct vf_file *f = vf_fh(fp);
    size_t n = sz * nm;
#ifdef VF_WATCH
    uint64_t max = 1ULL << 40;
#else
    uint64_t max = f->raw ? VF_PAY : VF_PAY + 4096;
#endif
    f->writes++;
    if (f->rdonly) {
        f->err = true;
        return 0;
    }
    if (n == 0)
        return 0;
    bool part = vf_iofault();
    if (part)
        n = n - 1, f->err = true;
    if (f->pos > max || n > max - f->pos) {
        VF.outside = true;
        return 0;
    }
    if (part && !f->raw && f->pos < 4096)
        VF.torn = true;
    else if (n)
        vf_put(f, f->pos, buf, n);
    f->pos += n;
    if (f->pos > f->size)
        f->size = f->pos;
    return sz == 1 ? n : n / sz;
}

int vf_fflush(FILE *fp)
{
    vf_fh(fp);
    return 0;
}
int vf_feof(FILE *fp)
{
    struct vf_file *f = vf_fh(fp);
    return f->pos >= f->size;
}
int vf_ferror(FILE *fp)
{
    return vf_fh(fp)->err;
}
void vf_rewind(FILE *fp)
{
    vf_fh(fp)->pos = 0;
    vf_fh(fp)->err = false;
}
int vf_fileno(FILE *fp)
{
    return 3 + (int)(vf_fh(fp) - vf_f);
}

int vf_ftruncate(int fd, off_t len)
{
    struct vf_file *f = &vf_f[fd - 3 < VF_NFILES ? fd - 3 : 0];
    VF.truncs++;
    if (len < 0 || vf_iofault())
        return -1;
    uint64_t from = f->raw ? (uint64_t)len : len > 4096 ? (uint64_t)len - 4096 : 0;
#ifdef VF_WATCH
    if (f->wat >= (uint64_t)len)
        f->wval = 0;
    (void)from;
#else
    for (unsigned i = 0; i < VF_PAY; i++)
        if (i >= from)
            f->pay[i] = 0;
#endif
    f->size = len;
    return 0;
}

int vf_stat(const char *name, struct stat *st)
{
    unsigned i = vf_name(name);
    if (i >= VF_NFILES || !vf_f[i].exists || vf_iofault())
        return -1;
    memset(st, 0, sizeof(*st));
    st->st_size = vf_f[i].size;
#ifdef VF_WATCH
    st->st_size += vf_f[i].st_less;
#endif
    return 0;
}

off_t vf_lseek(int fd, off_t off, int whence)
{
    return vf_fseek(VF_FP(fd - 3 < VF_NFILES ? fd - 3 : 0), off, whence) == 0 ? off : -1;
}
ssize_t vf_write(int fd, const void *b, size_t n)
{
    return vf_fwrite(b, 1, n, VF_FP(fd - 3 < VF_NFILES ? fd - 3 : 0));
}
#ifndef VF_WATCH
void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    struct vf_file *f = &vf_f[fd - 3 < VF_NFILES ? fd - 3 : 0];
    (void)a, (void)flags;
    if (vf_iofault() || n == 0)
        return MAP_FAILED;
    VF.bad_map = VF.bad_map || off != 0 || n != f->size || prot != PROT_READ;
    f->maps++;
    return f->raw ? f->pay : (uint8_t *)&f->hdr;
}
int vf_munmap(void *a, size_t n)
{
    for (unsigned i = 0; i < VF_NFILES; i++)
        if (a == (vf_f[i].raw ? (void *)vf_f[i].pay : (void *)&vf_f[i].hdr)) {
            VF.bad_map = VF.bad_map || n != vf_f[i].size || vf_f[i].maps == 0;
            vf_f[i].maps--;
            return 0;
        }
    VF.bad_map = true;
    return -1;
}
#else
void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    return MAP_FAILED;
}
int vf_munmap(void *a, size_t n)
{
    return -1;
}
#endif
#endif
