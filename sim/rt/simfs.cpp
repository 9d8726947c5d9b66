// In-memory file system below /simfs with fault injection.  Interposes the libc entry points that
// libstdc++'s file streams and std::filesystem use; everything outside /simfs goes to libc.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "rt_internal.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define RA __builtin_return_address(0)
#define EXPORT extern "C" __attribute__((visibility("default")))

static const int FD_BASE = 1000000;
static const int MAXF = 256, MAXO = 512;

struct Inode {
    char path[256];
    bool used, dir;
    bool link;                  // symbolic link, data holds the target
    unsigned mode;              // permission bits
    unsigned char* data;
    size_t size, cap;
    int open_err;
    long resize_delta;
    uint64_t resize_seed;
    bool resize_armed;
    uint64_t mtime;
};
struct Open { bool used; int ino; size_t pos; int flags; FILE* fp; bool failed; };

static Inode g_ino[MAXF];
static int g_nino = 0;
static Open g_open[MAXO];
static long g_disk_limit = -1;
static size_t g_read_chunk = 0;
static long g_written = 0;

static bool is_sim(const char* p) { return p && g_cur && strncmp(p, "/simfs", 6) == 0 && (p[6] == 0 || p[6] == '/'); }

static void norm(const char* p, char* out)
{
    // collapse duplicate slashes, "." and trailing slashes
    size_t n = 0;
    while (*p && n < 254) {
        if (*p == '/') {
            while (*p == '/') ++p;
            if (*p == 0) break;
            if (p[0] == '.' && (p[1] == '/' || p[1] == 0)) { ++p; continue; }
            if (p[0] == '.' && p[1] == '.' && (p[2] == '/' || p[2] == 0)) {
                while (n > 0 && out[n - 1] != '/') --n;
                if (n > 0) --n;
                p += 2;
                continue;
            }
            out[n++] = '/';
        } else out[n++] = *p++;
    }
    out[n] = 0;
}

static int find(const char* p)
{
    char b[256]; norm(p, b);
    for (int i = 0; i < g_nino; ++i) if (g_ino[i].used && strcmp(g_ino[i].path, b) == 0) return i;
    return -1;
}
static bool is_dir(const char* p)
{
    char b[256]; norm(p, b);
    if (strcmp(b, "/simfs") == 0) return true;
    size_t n = strlen(b);
    for (int i = 0; i < g_nino; ++i) if (g_ino[i].used && strncmp(g_ino[i].path, b, n) == 0 && g_ino[i].path[n] == '/') return true;
    int k = find(p);
    return k >= 0 && g_ino[k].dir;
}

// The file a path leads to, following symbolic links in its last component.
static int resolve(const char* p, bool* loop = nullptr)
{
    char b[256]; norm(p, b);
    for (int n = 0; n < 10; ++n) {
        int i = find(b);
        if (i < 0 || !g_ino[i].link) {
            if (i < 0 && is_dir(b)) i = -2;
            return i;
        }
        char t[600];
        const char* to = (const char*)g_ino[i].data;
        if (to[0] == '/') snprintf(t, sizeof t, "%s", to);
        else { char* sl = strrchr(b, '/'); snprintf(t, sizeof t, "%.*s/%s", (int)(sl ? sl - b : 0), b, to); }
        norm(t, b);
    }
    if (loop) *loop = true;
    return -1;
}

static void reserve(Inode& f, size_t n)
{
    if (n <= f.cap) return;
    size_t c = f.cap ? f.cap * 2 : 4096;
    while (c < n) c *= 2;
    unsigned char* d = (unsigned char*)rt_alloc(c);
    memcpy(d, f.data, f.size);
    f.data = d;
    f.cap = c;
}

static int create(const char* path)
{
    int i = find(path);
    if (i >= 0) return i;
    for (i = 0; i < g_nino; ++i) if (!g_ino[i].used) break;
    if (i == g_nino) { if (g_nino == MAXF) return -1; ++g_nino; }
    Inode& f = g_ino[i];
    memset(&f, 0, sizeof f);
    f.used = true;
    f.mode = 0644;
    f.mtime = 1600000000 + i;
    norm(path, f.path);
    return i;
}

SIM_API int simfs_create(const char* path, const void* data, size_t size)
{
    int i = create(path);
    if (i < 0) return -1;
    g_ino[i].size = 0;
    g_ino[i].link = g_ino[i].dir = false;
    reserve(g_ino[i], size ? size : 1);
    if (size) memcpy(g_ino[i].data, data, size);
    g_ino[i].size = size;
    return 0;
}
SIM_API int simfs_link(const char* path, const char* target)
{
    if (simfs_create(path, target, strlen(target) + 1)) return -1;
    Inode& f = g_ino[find(path)];
    f.link = true;
    f.size = strlen(target);
    f.mode = 0777;
    return 0;
}
SIM_API int simfs_mkdir(const char* path) { int i = create(path); if (i < 0) return -1; g_ino[i].dir = true; g_ino[i].link = false; g_ino[i].size = 0; return 0; }
SIM_API int simfs_chmod(const char* path, unsigned mode) { int i = find(path); if (i < 0) return -1; g_ino[i].mode = mode; return 0; }
SIM_API int simfs_remove(const char* path) { int i = find(path); if (i < 0) return -1; g_ino[i].used = false; return 0; }
SIM_API int simfs_corrupt(const char* path, size_t off, unsigned char x)
{
    int i = find(path);
    if (i < 0 || off >= g_ino[i].size) return -1;
    g_ino[i].data[off] ^= x;
    return 0;
}
static void resize(Inode& f, size_t n, uint64_t seed)
{
    reserve(f, n);
    if (n > f.size) { uint64_t s = seed; for (size_t k = f.size; k < n; ++k) f.data[k] = seed ? (unsigned char)(sim_splitmix(s) >> 56) : 0; }
    f.size = n;
    f.mtime++;
}
SIM_API int simfs_resize(const char* path, size_t n, uint64_t seed) { int i = find(path); if (i < 0) return -1; resize(g_ino[i], n, seed); return 0; }
SIM_API size_t simfs_size(const char* path) { int i = find(path); return i < 0 ? (size_t)-1 : g_ino[i].size; }
SIM_API const void* simfs_data(const char* path) { int i = find(path); return i < 0 ? nullptr : g_ino[i].data; }
SIM_API int simfs_open_count() { int n = 0; for (auto& o : g_open) n += o.used; return n; }
SIM_API void simfs_set_unreadable(const char* path, int err) { int i = find(path); if (i >= 0) g_ino[i].open_err = err; }
SIM_API void simfs_set_resize_target(const char* path, long delta, uint64_t seed)
{
    int i = find(path);
    if (i < 0) return;
    g_ino[i].resize_delta = delta; g_ino[i].resize_seed = seed; g_ino[i].resize_armed = true;
}
SIM_API void simfs_set_disk_limit(long n) { g_disk_limit = n; }
SIM_API void simfs_set_chunk(size_t n) { g_read_chunk = n; }

static void io_point()
{
    rt_sched_point(OP_IO, nullptr);
    if (unsigned v = sim_fault(CH_LATENCY, 4)) {
        static const uint64_t L[] = {0, 20000, 300000, 8000000, 60000000};
        rt_sleep(L[v]);
    }
    // another process changes the size of a file between two operations of ours
    for (int i = 0; i < g_nino; ++i) {
        Inode& f = g_ino[i];
        if (f.used && f.resize_armed && sim_fault(CH_RESIZE, 1)) {
            f.resize_armed = false;
            long n = (long)f.size + f.resize_delta;
            resize(f, n < 0 ? 0 : (size_t)n, f.resize_seed);
            sim_note("file %s resized to %zu", f.path, f.size);
        }
    }
}

static int open_fault(const char* path, Inode* f)
{
    if (f && f->open_err) return f->open_err;
    static const int E[] = {0, EACCES, EMFILE, EIO, ENOENT};
    (void)path;
    return E[sim_fault(CH_OPEN_FAIL, 4)];
}

static int do_open(const char* path, int flags)
{
    io_point();
    int i = resolve(path);
    if (i == -2 || (i >= 0 && g_ino[i].dir)) { if (flags & O_ACCMODE) { errno = EISDIR; return -1; } }
    int e = open_fault(path, i >= 0 ? &g_ino[i] : nullptr);
    if (e) { errno = e; return -1; }
    if (i < 0) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        i = create(path);
        if (i < 0) { errno = ENOSPC; return -1; }
        reserve(g_ino[i], 1);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) g_ino[i].size = 0;
    for (int k = 0; k < MAXO; ++k)
        if (!g_open[k].used) {
            g_open[k] = Open{true, i, (flags & O_APPEND) ? g_ino[i].size : 0, flags, nullptr, false};
            return FD_BASE + k;
        }
    errno = EMFILE;
    return -1;
}

static Open* fd_open(int fd)
{
    if (fd < FD_BASE || fd >= FD_BASE + MAXO) return nullptr;
    Open* o = &g_open[fd - FD_BASE];
    return o->used ? o : nullptr;
}

static ssize_t do_read(int fd, void* buf, size_t n, off_t at)
{
    io_point();
    Open* o = fd_open(fd);
    if (!o) { errno = EBADF; return -1; }
    if (sim_fault(CH_EINTR, 1)) { errno = EINTR; return -1; }
    if (sim_fault(CH_EIO, 1)) { errno = EIO; return -1; }
    Inode& f = g_ino[o->ino];
    size_t pos = at >= 0 ? (size_t)at : o->pos;
    size_t k = pos < f.size ? f.size - pos : 0;
    if (k > n) k = n;
    if (g_read_chunk && k > g_read_chunk) k = g_read_chunk;
    if (k > 1) {
        switch (sim_fault(CH_SHORT_READ, 5)) {
        case 1: k = 1; break;
        case 2: k = k - 1; break;
        case 3: k = (k + 1) / 2; break;
        case 4: k = k > 16384 ? 16384 : (k + 1) / 2; break;
        case 5: k = k > 4096 ? 4096 : 1; break;
        }
    }
    rt_range(buf, k, true, RA);
    memcpy(buf, f.data + pos, k);
    if (at < 0) o->pos += k;
    rt_mix(k);
    rt_sched_point(OP_IO, nullptr);
    return (ssize_t)k;
}

static ssize_t do_write(int fd, const void* buf, size_t n)
{
    io_point();
    Open* o = fd_open(fd);
    if (!o) { errno = EBADF; return -1; }
    if (sim_fault(CH_EINTR, 1)) { errno = EINTR; return -1; }
    if (unsigned v = sim_fault(CH_WRITE_FAIL, 2)) { o->failed = true; errno = v == 1 ? ENOSPC : EIO; return -1; }
    if (g_disk_limit >= 0 && n > 0) {
        long room = g_disk_limit - g_written;
        if (room <= 0) { errno = ENOSPC; return -1; }
        if ((long)n > room) n = (size_t)room;
    }
    if (n > 1)
        if (unsigned v = sim_fault(CH_SHORT_WRITE, 3)) n = v == 1 ? 1 : v == 2 ? n - 1 : (n + 1) / 2;
    Inode& f = g_ino[o->ino];
    if (o->flags & O_APPEND) o->pos = f.size;
    reserve(f, o->pos + n);
    if (o->pos > f.size) memset(f.data + f.size, 0, o->pos - f.size);
    rt_range(buf, n, false, RA);
    memcpy(f.data + o->pos, buf, n);
    o->pos += n;
    if (o->pos > f.size) f.size = o->pos;
    f.mtime++;
    g_written += (long)n;
    rt_sched_point(OP_IO, nullptr);
    return (ssize_t)n;
}

static off_t do_seek(int fd, off_t off, int whence)
{
    Open* o = fd_open(fd);
    if (!o) { errno = EBADF; return -1; }
    rt_sched_point(OP_IO, nullptr);
    off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off_t)o->pos : (off_t)g_ino[o->ino].size;
    if (base + off < 0) { errno = EINVAL; return -1; }
    o->pos = (size_t)(base + off);
    return (off_t)o->pos;
}

static int do_close(int fd)
{
    rt_sched_point(OP_IO, nullptr);
    Open* o = fd_open(fd);
    if (!o) { errno = EBADF; return -1; }
    o->used = false;
    if ((o->flags & O_ACCMODE) != O_RDONLY && sim_fault(CH_CLOSE_FAIL, 1)) { errno = EIO; return -1; }
    return 0;
}

static void fill_stat(struct stat* st, int i, bool dir)
{
    memset(st, 0, sizeof *st);
    st->st_dev = 77;
    st->st_ino = 1000 + i;
    st->st_nlink = 1;
    st->st_mode = dir ? (S_IFDIR | 0755) : g_ino[i].link ? (S_IFLNK | 0777) : (S_IFREG | (g_ino[i].mode & 07777));
    st->st_blksize = 4096;
    if (!dir) { st->st_size = (off_t)g_ino[i].size; st->st_blocks = (st->st_size + 511) / 512; st->st_mtim.tv_sec = (time_t)g_ino[i].mtime; }
}
static int do_stat(const char* path, struct stat* st, bool follow = true)
{
    io_point();
    if (unsigned v = sim_fault(CH_STAT_FAIL, 2)) { errno = v == 1 ? EACCES : EIO; return -1; }
    bool loop = false;
    int i = follow ? resolve(path, &loop) : find(path);
    if (i == -1 && !follow && is_dir(path)) i = -2;
    if (i >= 0 && !g_ino[i].dir) { fill_stat(st, i, false); return 0; }
    if (i != -1) { fill_stat(st, MAXF, true); return 0; }
    errno = loop ? ELOOP : ENOENT;
    return -1;
}

// ---- interposed entry points

#define REAL(name, type) ((type)rt_real(#name))

static ssize_t ck_read(void* c, char* b, size_t n) { return do_read((int)(long)c, b, n, -1); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = do_write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* off, int wh) { off_t r = do_seek((int)(long)c, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void* c) { return do_close((int)(long)c); }

static FILE* sim_fopen(const char* path, const char* mode)
{
    int flags = 0;
    bool plus = strchr(mode, '+') != nullptr;
    switch (mode[0]) {
    case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
    case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
    }
    if (strchr(mode, 'x')) flags |= O_EXCL;
    int fd = do_open(path, flags);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    FILE* fp = fopencookie((void*)(long)fd, mode, io);
    if (fp) g_open[fd - FD_BASE].fp = fp;
    return fp;
}
EXPORT FILE* fopen(const char* path, const char* mode)
{
    if (is_sim(path)) return sim_fopen(path, mode);
    return REAL(fopen, FILE* (*)(const char*, const char*))(path, mode);
}
EXPORT FILE* fopen64(const char* path, const char* mode)
{
    if (is_sim(path)) return sim_fopen(path, mode);
    return REAL(fopen64, FILE* (*)(const char*, const char*))(path, mode);
}
EXPORT FILE* fdopen(int fd, const char* mode)
{
    if (Open* o = fd_open(fd)) {
        cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
        o->fp = fopencookie((void*)(long)fd, mode, io);
        return o->fp;
    }
    return REAL(fdopen, FILE* (*)(int, const char*))(fd, mode);
}
EXPORT int fileno(FILE* f)
{
    if (g_cur) for (int k = 0; k < MAXO; ++k) if (g_open[k].used && g_open[k].fp == f) return FD_BASE + k;
    return REAL(fileno, int (*)(FILE*))(f);
}
#define SIM_OPEN(NAME)                                                                        \
EXPORT int NAME(const char* path, int flags, ...)                                             \
{                                                                                             \
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);                  \
    if (is_sim(path)) return do_open(path, flags);                                            \
    return REAL(NAME, int (*)(const char*, int, ...))(path, flags, mode);                     \
}
SIM_OPEN(open)
SIM_OPEN(open64)
#define SIM_OPENAT(NAME)                                                                      \
EXPORT int NAME(int dfd, const char* path, int flags, ...)                                    \
{                                                                                             \
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);                  \
    if (is_sim(path)) return do_open(path, flags);                                            \
    return REAL(NAME, int (*)(int, const char*, int, ...))(dfd, path, flags, mode);           \
}
SIM_OPENAT(openat)
SIM_OPENAT(openat64)

EXPORT ssize_t read(int fd, void* b, size_t n)
{
    if (fd >= FD_BASE) return do_read(fd, b, n, -1);
    static ssize_t (*r)(int, void*, size_t); if (!r) r = REAL(read, ssize_t (*)(int, void*, size_t));
    return r(fd, b, n);
}
EXPORT ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    if (fd >= FD_BASE) return do_read(fd, b, n, o);
    return REAL(pread, ssize_t (*)(int, void*, size_t, off_t))(fd, b, n, o);
}
EXPORT ssize_t pread64(int fd, void* b, size_t n, off64_t o)
{
    if (fd >= FD_BASE) return do_read(fd, b, n, o);
    return REAL(pread64, ssize_t (*)(int, void*, size_t, off64_t))(fd, b, n, o);
}
EXPORT ssize_t readv(int fd, const iovec* v, int c)
{
    if (fd >= FD_BASE) {
        for (int i = 0; i < c; ++i) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
        return 0;
    }
    return REAL(readv, ssize_t (*)(int, const iovec*, int))(fd, v, c);
}
EXPORT ssize_t write(int fd, const void* b, size_t n)
{
    if (fd >= FD_BASE) return do_write(fd, b, n);
    static ssize_t (*r)(int, const void*, size_t); if (!r) r = REAL(write, ssize_t (*)(int, const void*, size_t));
    return r(fd, b, n);
}
EXPORT ssize_t writev(int fd, const iovec* v, int c)
{
    if (fd >= FD_BASE) {
        // one system call: gather, then a possibly short write
        size_t tot = 0;
        for (int i = 0; i < c; ++i) tot += v[i].iov_len;
        char* tmp = (char*)rt_alloc(tot + 1);
        size_t k = 0;
        for (int i = 0; i < c; ++i) { memcpy(tmp + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
        return do_write(fd, tmp, tot);
    }
    return REAL(writev, ssize_t (*)(int, const iovec*, int))(fd, v, c);
}
EXPORT off_t lseek(int fd, off_t o, int w)
{
    if (fd >= FD_BASE) return do_seek(fd, o, w);
    return REAL(lseek, off_t (*)(int, off_t, int))(fd, o, w);
}
EXPORT off64_t lseek64(int fd, off64_t o, int w)
{
    if (fd >= FD_BASE) return do_seek(fd, o, w);
    return REAL(lseek64, off64_t (*)(int, off64_t, int))(fd, o, w);
}
EXPORT int close(int fd)
{
    if (fd >= FD_BASE) return do_close(fd);
    return REAL(close, int (*)(int))(fd);
}
EXPORT int fsync(int fd) { if (fd >= FD_BASE) { io_point(); return 0; } return REAL(fsync, int (*)(int))(fd); }
EXPORT int fdatasync(int fd) { if (fd >= FD_BASE) { io_point(); return 0; } return REAL(fdatasync, int (*)(int))(fd); }
EXPORT int ftruncate(int fd, off_t n)
{
    if (Open* o = fd_open(fd)) { io_point(); resize(g_ino[o->ino], (size_t)n, 0); return 0; }
    return REAL(ftruncate, int (*)(int, off_t))(fd, n);
}
EXPORT int fstat(int fd, struct stat* st)
{
    if (Open* o = fd_open(fd)) { io_point(); fill_stat(st, o->ino, false); return 0; }
    return REAL(fstat, int (*)(int, struct stat*))(fd, st);
}
EXPORT int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
EXPORT int stat(const char* p, struct stat* st)
{
    if (is_sim(p)) return do_stat(p, st);
    return REAL(stat, int (*)(const char*, struct stat*))(p, st);
}
EXPORT int lstat(const char* p, struct stat* st)
{
    if (is_sim(p)) return do_stat(p, st, false);
    return REAL(lstat, int (*)(const char*, struct stat*))(p, st);
}
EXPORT int stat64(const char* p, struct stat64* st)
{
    if (is_sim(p)) return do_stat(p, (struct stat*)st);
    return REAL(stat64, int (*)(const char*, struct stat64*))(p, st);
}
EXPORT int lstat64(const char* p, struct stat64* st)
{
    if (is_sim(p)) return do_stat(p, (struct stat*)st, false);
    return REAL(lstat64, int (*)(const char*, struct stat64*))(p, st);
}
EXPORT int fstatat(int d, const char* p, struct stat* st, int fl)
{
    if (is_sim(p)) return do_stat(p, st, !(fl & AT_SYMLINK_NOFOLLOW));
    return REAL(fstatat, int (*)(int, const char*, struct stat*, int))(d, p, st, fl);
}
EXPORT int access(const char* p, int m)
{
    if (is_sim(p)) { struct stat st; return do_stat(p, &st); }
    return REAL(access, int (*)(const char*, int))(p, m);
}
EXPORT char* realpath(const char* p, char* out)
{
    if (is_sim(p)) {
        struct stat st;
        if (do_stat(p, &st)) return nullptr;
        if (!out) out = (char*)malloc(PATH_MAX);
        int i = resolve(p);
        if (i >= 0) strcpy(out, g_ino[i].path); else norm(p, out);
        return out;
    }
    return REAL(realpath, char* (*)(const char*, char*))(p, out);
}
EXPORT ssize_t readlink(const char* p, char* b, size_t n)
{
    if (is_sim(p)) {
        io_point();
        if (unsigned v = sim_fault(CH_STAT_FAIL, 2)) { errno = v == 1 ? EACCES : EIO; return -1; }
        int i = find(p);
        if (i < 0 || !g_ino[i].link) { errno = i < 0 && !is_dir(p) ? ENOENT : EINVAL; return -1; }
        if (n > g_ino[i].size) n = g_ino[i].size;
        memcpy(b, g_ino[i].data, n);
        return (ssize_t)n;
    }
    return REAL(readlink, ssize_t (*)(const char*, char*, size_t))(p, b, n);
}
EXPORT char* getcwd(char* b, size_t n)
{
    if (g_cur) {
        static const char cwd[] = "/simfs/cwd";
        if (b && n < sizeof cwd) { errno = ERANGE; return nullptr; }
        if (!b) b = (char*)malloc(n < sizeof cwd ? sizeof cwd : n);
        memcpy(b, cwd, sizeof cwd);
        return b;
    }
    return REAL(getcwd, char* (*)(char*, size_t))(b, n);
}
EXPORT int rename(const char* a, const char* b)
{
    if (is_sim(a) || is_sim(b)) {
        io_point();
        int i = find(a);
        if (i < 0) { errno = ENOENT; return -1; }
        if (sim_fault(CH_WRITE_FAIL, 1)) { errno = EIO; return -1; }
        int j = find(b);
        if (j >= 0 && j != i) g_ino[j].used = false;
        norm(b, g_ino[i].path);
        return 0;
    }
    return REAL(rename, int (*)(const char*, const char*))(a, b);
}
EXPORT int unlink(const char* p)
{
    if (is_sim(p)) { io_point(); if (simfs_remove(p)) { errno = ENOENT; return -1; } return 0; }
    return REAL(unlink, int (*)(const char*))(p);
}
EXPORT int unlinkat(int d, const char* p, int fl)
{
    if (is_sim(p)) { io_point(); if (simfs_remove(p)) { errno = ENOENT; return -1; } return 0; }
    return REAL(unlinkat, int (*)(int, const char*, int))(d, p, fl);
}
EXPORT int remove(const char* p)
{
    if (is_sim(p)) return unlink(p);
    return REAL(remove, int (*)(const char*))(p);
}
EXPORT int truncate(const char* p, off_t n)
{
    if (is_sim(p)) { io_point(); int i = find(p); if (i < 0) { errno = ENOENT; return -1; } resize(g_ino[i], (size_t)n, 0); return 0; }
    return REAL(truncate, int (*)(const char*, off_t))(p, n);
}
EXPORT int mkdir(const char* p, mode_t m)
{
    if (is_sim(p)) {
        io_point();
        if (find(p) >= 0 || is_dir(p)) { errno = EEXIST; return -1; }
        int i = create(p);
        g_ino[i].dir = true;
        return 0;
    }
    return REAL(mkdir, int (*)(const char*, mode_t))(p, m);
}
EXPORT void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t off)
{
    static void* (*r)(void*, size_t, int, int, int, off_t);
    if (!r) r = REAL(mmap, void* (*)(void*, size_t, int, int, int, off_t));
    if (fd >= FD_BASE) {
        Open* o = fd_open(fd);
        if (!o) { errno = EBADF; return MAP_FAILED; }
        io_point();
        void* p = r(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        Inode& f = g_ino[o->ino];
        if (p != MAP_FAILED && (size_t)off < f.size) memcpy(p, f.data + off, f.size - off < n ? f.size - off : n);
        return p;
    }
    return r(a, n, prot, fl, fd, off);
}

void rt_fs_init()
{
    // resolve the lazily looked-up entry points while nothing is simulated
    (void)!::write(1, "", 0);
    (void)!::read(-1, nullptr, 0);
}
