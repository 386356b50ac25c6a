/* file mappings as exactly-sized heap blocks (ASan sees every byte past the end), with fault injection and a ledger */
#include <sys/mman.h>
#include <dirent.h>
static struct { void *p; size_t n; int fd, sh; } FM[256]; static int fm_dirty, fm_n, fm_armed, fm_failat, fm_calls, fm_live;
static int fm_fail(void) { return fm_armed && fm_failat && ++fm_calls == fm_failat; }
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_ftruncate(int, off_t); int __real_rename(const char *, const char *); int __real_mkostemp(char *, int);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t off)
{
    if (!fm_armed || fd < 0) return __real_mmap(a, n, pr, fl, fd, off);
    if (fm_fail()) { errno = ENOMEM; return MAP_FAILED; }
    if (!n) { errno = EINVAL; return MAP_FAILED; }
    void *p = malloc(n); memset(p, 0, n); ssize_t r = pread(fd, p, n, off); (void)r;
    int i; for (i = 0; i < fm_n; i++) if (!FM[i].p) break;
    if (i == fm_n) fm_n++;
    FM[i].p = p; FM[i].n = n; FM[i].sh = (fl & MAP_SHARED) && (pr & PROT_WRITE); FM[i].fd = FM[i].sh ? fcntl(fd, F_DUPFD, 600) : -1; fm_live++;
    return p;
}
int __wrap_munmap(void *p, size_t n)
{
    for (int i = 0; i < fm_n; i++) if (FM[i].p && FM[i].p == p) {
        if (((n + 4095) & ~4095ul) != ((FM[i].n + 4095) & ~4095ul)) vh_viol("map:length", "mapping of %zu bytes unmapped with length %zu", FM[i].n, n);
        if (FM[i].sh) { fm_dirty = 1; if (pwrite(FM[i].fd, p, FM[i].n, 0) < 0) {} close(FM[i].fd); }
        free(p); FM[i].p = 0; fm_live--; return 0;
    }
    return __real_munmap(p, n);
}
int __wrap_ftruncate(int fd, off_t n) { if (fm_fail()) { errno = ENOSPC; return -1; } return __real_ftruncate(fd, n); }
/* what was written must be on the disk before it takes the place of what was there */
int __real_fsync(int); int __wrap_fsync(int fd) { if (fm_fail()) { errno = EIO; return -1; } fm_dirty = 0; return 0; }
int __real_fdatasync(int); int __wrap_fdatasync(int fd) { if (fm_fail()) { errno = EIO; return -1; } fm_dirty = 0; return 0; }
int __wrap_rename(const char *a, const char *b) { if (fm_armed && fm_dirty) { fm_dirty = 0; vh_viol("map:unsynced", "the file was renamed into place before its content was synced"); } if (fm_fail()) { errno = EACCES; return -1; } return __real_rename(a, b); }
int __wrap_mkostemp(char *t, int f) { if (fm_fail()) { errno = EMFILE; return -1; } return __real_mkostemp(t, f); }
struct stat; int __real_fstat(int, struct stat *); int __wrap_fstat(int fd, struct stat *st) { if (fm_fail()) { errno = EOVERFLOW; return -1; } return __real_fstat(fd, st); }
static int fd_count(void) { int n = 0; for (int i = 0; i < 1024; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static int dir_count(const char *p) { int n = 0; DIR *d = opendir(p); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
