// Virtual disk: every path outside the read-only system directories lives in shared memory and
// survives the lives of one run.  A life that dies loses nothing that a write call completed.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/sysmacros.h>
#include <poll.h>
#include <dirent.h>

namespace sim {
enum { FD0 = 5000, NFD = 256 };
struct VFd { bool used; int file; long pos; int flags; FILE* fp; bool stdio; };
static VFd fds[NFD];
static Rng nrng(1);
static long noise_done;
static long cls_idx[OP_NCLASS];
static long disk_left;
static int open_count;

static std::string norm(const char* p) {
  std::string s(p ? p : "");
  while (s.compare(0, 2, "./") == 0) s.erase(0, 2);
  std::string o; for (size_t i = 0; i < s.size(); ++i) if (!(s[i] == '/' && !o.empty() && o.back() == '/')) o += s[i];
  return o;
}
static bool is_system(const char* p) {
  static const char* pre[] = {"/usr/", "/lib", "/etc/", "/proc/", "/sys/", "/dev/", "/opt/", "/verif/"};
  if (!p) return false;
  for (auto s : pre) if (!strncmp(p, s, strlen(s))) return true;
  return false;
}
static bool virt(const char* p) { return g_life && !is_system(p); }
static int find(const std::string& n) { for (int i = 0; i < sh->nfiles; ++i) if (sh->files[i].used && n == sh->files[i].name) return i; return -1; }
static int create(const std::string& n) {
  int i; for (i = 0; i < sh->nfiles; ++i) if (!sh->files[i].used) break;
  if (i >= MAXF) life_abort(L_HARNESS, "too many virtual files");
  if (i == sh->nfiles) sh->nfiles++;
  FileRec& f = sh->files[i]; memset(&f, 0, sizeof f); strncpy(f.name, n.c_str(), sizeof f.name - 1); f.used = true; f.bad_from = -1; return i;
}
static void grow(FileRec& f, long n) {
  if (n <= f.cap) return;
  long c = f.cap ? f.cap : 4096; while (c < n) c *= 2;
  if (sh->disk_top + c > DISK_SZ) life_abort(L_HARNESS, "virtual disk arena exhausted");
  memcpy(disk + sh->disk_top, disk + f.off, f.len); f.off = sh->disk_top; f.cap = c; sh->disk_top += c;
}
void vfs_put(const std::string& name, const std::string& b) {
  std::string n = norm(name.c_str()); int i = find(n); if (i < 0) i = create(n);
  FileRec& f = sh->files[i]; f.len = 0; grow(f, b.size()); memcpy(disk + f.off, b.data(), b.size()); f.len = b.size(); f.bad_from = -1;
}
bool vfs_get(const std::string& name, std::string& b) { int i = find(norm(name.c_str())); if (i < 0) return false; b.assign(disk + sh->files[i].off, sh->files[i].len); return true; }
bool vfs_exists(const std::string& n) { return find(norm(n.c_str())) >= 0; }
void vfs_del(const std::string& n) { int i = find(norm(n.c_str())); if (i >= 0) sh->files[i].used = false; }
void vfs_set_unreadable(const std::string& n, long from) { int i = find(norm(n.c_str())); if (i >= 0) sh->files[i].bad_from = from; }
std::map<std::string, std::string> vfs_snapshot() { std::map<std::string, std::string> m; for (int i = 0; i < sh->nfiles; ++i) if (sh->files[i].used && !sh->files[i].dir) m[sh->files[i].name] = std::string(disk + sh->files[i].off, sh->files[i].len); return m; }
void vfs_restore(const std::map<std::string, std::string>& m) { sh->nfiles = 0; sh->disk_top = 0; for (auto& k : m) vfs_put(k.first, k.second); }
int vfs_open_count() { return open_count; }
long vfs_op_count(int c) { return cls_idx[c]; }
void vfs_life_begin() {
  memset(fds, 0, sizeof fds); memset(cls_idx, 0, sizeof cls_idx); open_count = 0; noise_done = 0;
  nrng = Rng(g_opt.noise_seed ^ 0x10); disk_left = g_opt.disk_cap;
}
void faults_arm(const LifeOpt& o) { g_opt.faults = o.faults; for (auto& f : g_opt.faults) f.idx += f.cls == OP_DL ? dl_op_count() : cls_idx[f.cls]; disk_left = o.disk_cap; }
void faults_disarm() { g_opt.faults.clear(); disk_left = -1; }
static void fire(int cls, long idx, int kind, long arg, const char* path) {
  sh->t_fired[kind]++; sh->fired++;
  if (sh->nfired < MAXFIRED) { FiredRec& r = sh->firedlog[sh->nfired++]; r.life = sh->life; r.cls = cls; r.idx = idx; r.kind = kind; r.arg = arg; strncpy(r.path, path, sizeof r.path - 1); r.path[sizeof r.path - 1] = 0; }
  ev(0xf000 + kind); ev(idx);
}
// Account an operation and return the fault that hits it, if any.
static const Fault* op(int cls, const char* path) {
  long i = cls_idx[cls]++; sh->nops[cls] = cls_idx[cls]; sh->t_ops[cls]++;
  ev(0x100 + cls); 
  for (auto& f : g_opt.faults)
    if (f.cls == cls && (f.idx == i || (f.sticky && i >= f.idx))) { fire(cls, i, f.kind, f.arg, path); return &f; }
  return nullptr;
}
static int err_of(int k) {
  switch (k) { case F_EIO: case F_TORN_EIO: return EIO; case F_ENOSPC: case F_TORN_ENOSPC: return ENOSPC; case F_EACCES: return EACCES; case F_EMFILE: return EMFILE; case F_ENOENT: return ENOENT; }
  return EIO;
}
static void crash_now() { sh->lkind = L_CRASHED; sh->done = 1; _exit(76); }

static int v_open(const char* path, int flags) {
  std::string n = norm(path); ev(n.size());
  const Fault* f = op(OP_OPEN, n.c_str());
  if (f) { if (f->kind == F_CRASH) crash_now(); if (f->kind != F_SHORT && f->kind != F_EINTR) { errno = err_of(f->kind); return -1; } }
  if (n.empty()) { errno = ENOENT; return -1; }
  int i = find(n);
  if (i >= 0 && sh->files[i].dir) { errno = EISDIR; return -1; }
  if (i < 0) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } i = create(n); }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  int fd; for (fd = 0; fd < NFD; ++fd) if (!fds[fd].used) break;
  if (fd == NFD) { errno = EMFILE; return -1; }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) sh->files[i].len = 0;
  fds[fd].used = true; fds[fd].file = i; fds[fd].pos = 0; fds[fd].flags = flags; fds[fd].fp = nullptr; fds[fd].stdio = false;
  open_count++; ev(i);
  return FD0 + fd;
}
static VFd* vfd(int fd) { if (fd < FD0 || fd >= FD0 + NFD || !fds[fd - FD0].used) return nullptr; return &fds[fd - FD0]; }
static long v_read(VFd* v, char* b, size_t n) {
  FileRec& f = sh->files[v->file];
  const Fault* ft = op(OP_READ, f.name);
  if ((v->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  long avail = f.len - v->pos; if (avail < 0) avail = 0;
  long want = (long)n < avail ? (long)n : avail;
  if (g_opt.max_transfer > 0 && want > g_opt.max_transfer) want = g_opt.max_transfer;
  bool err = false; int e = 0;
  if (ft) switch (ft->kind) {
    case F_CRASH: crash_now();
    case F_SHORT: if (want > 1) want = 1 + ft->arg % (want - 1 > 0 ? want - 1 : 1); break;
    case F_EINTR: if (!v->stdio) { errno = EINTR; return -1; } break;
    default: err = true; e = err_of(ft->kind);
  }
  else if (noise_done < g_opt.noise_limit) {
    if (g_opt.noise_eintr && !v->stdio && nrng.below(1000) < (uint64_t)g_opt.noise_eintr) { noise_done++; sh->t_noise++; ev(2); errno = EINTR; return -1; }
    if (g_opt.noise_read && want > 1 && nrng.below(1000) < (uint64_t)g_opt.noise_read) { noise_done++; sh->t_noise++; long k = nrng.chance(0.5) ? 1 + nrng.below(want < 16 ? want : 16) : 1 + nrng.below(want); want = k < want ? k : want; }
  }
  if (f.bad_from >= 0 && v->pos + want > f.bad_from) { if (v->pos >= f.bad_from) { err = true; e = EIO; fire(OP_READ, cls_idx[OP_READ] - 1, F_EIO, f.bad_from, f.name); } else want = f.bad_from - v->pos; }
  if (err) { errno = e; return -1; }
  if (want > 0) { if (!heap_check(b, want)) bad_access(b, want, true, __builtin_return_address(0)); memcpy(b, disk + f.off + v->pos, want); v->pos += want; }
  ev(want); return want;
}
static long v_write(VFd* v, const char* b, size_t n) {
  FileRec& f = sh->files[v->file];
  const Fault* ft = op(OP_WRITE, f.name);
  if ((v->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (!heap_check(b, n)) bad_access(b, n, false, __builtin_return_address(0));
  if (v->flags & O_APPEND) v->pos = f.len;
  long want = n; int e = 0; bool crash = false;
  if (g_opt.max_transfer > 0 && want > g_opt.max_transfer) want = g_opt.max_transfer;
  if (ft) switch (ft->kind) {
    case F_CRASH: crash = true; want = n ? ft->arg % (n + 1) : 0; break;
    case F_SHORT: if (want > 1) want = 1 + ft->arg % (want - 1); break;
    case F_EINTR: if (!v->stdio) { errno = EINTR; return -1; } break;
    case F_TORN_EIO: case F_TORN_ENOSPC: want = n ? ft->arg % n : 0; e = err_of(ft->kind); break;
    default: want = 0; e = err_of(ft->kind);
  }
  else if (noise_done < g_opt.noise_limit) {
    if (g_opt.noise_eintr && !v->stdio && nrng.below(1000) < (uint64_t)g_opt.noise_eintr) { noise_done++; sh->t_noise++; ev(3); errno = EINTR; return -1; }
    if (g_opt.noise_write && want > 1 && nrng.below(1000) < (uint64_t)g_opt.noise_write) { noise_done++; sh->t_noise++; want = 1 + nrng.below(want); }
  }
  if (disk_left >= 0) { long add = v->pos + want - f.len; if (add > disk_left) { want = disk_left - (v->pos - f.len); if (want < 0) want = 0; sh->t_capfull++; sh->cap_hits++; sh->fired++; ev(0xca9); if (want == 0) e = ENOSPC; } }
  if (want > 0) {
    grow(f, v->pos + want);
    if (v->pos > f.len) memset(disk + f.off + f.len, 0, v->pos - f.len);
    long nl = v->pos + want; if (nl > f.len) { if (disk_left >= 0) disk_left -= nl - f.len; f.len = nl; }
    memcpy(disk + f.off + v->pos, b, want);
    uint64_t hsh = want; for (long i = 0; i < want; i += 61) hsh = hsh * 31 + (unsigned char)b[i]; ev(hsh);
    v->pos += want;
  }
  if (crash) crash_now();
  if (e && want <= 0) { errno = e; ev(e); return -1; }
  if (e) { // the torn part was transferred; the error comes with the next attempt unless it was all
    sh->fired += 0; errno = e; g_opt.faults.push_back(Fault{OP_WRITE, cls_idx[OP_WRITE], e == EIO ? F_EIO : F_ENOSPC, 0, ft && ft->sticky}); }
  return want;
}
static int v_close(VFd* v) {
  FileRec& f = sh->files[v->file];
  const Fault* ft = op(OP_CLOSE, f.name);
  v->used = false; open_count--;
  if (ft) { if (ft->kind == F_CRASH) crash_now(); if (ft->kind != F_SHORT && ft->kind != F_EINTR) {
      // as on network file systems and with delayed allocation: a failing close may have lost the last part of what was written
      if ((v->flags & O_ACCMODE) != O_RDONLY && f.len > 0 && ft->arg > 0) { f.len -= 1 + ft->arg % f.len; ev(f.len); }
      errno = err_of(ft->kind); return -1; } }
  return 0;
}
static long v_seek(VFd* v, long o, int wh) {
  op(OP_SEEK, sh->files[v->file].name);
  long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? v->pos : sh->files[v->file].len;
  if (b + o < 0) { errno = EINVAL; return -1; }
  return v->pos = b + o;
}
// stdio on a virtual file: glibc's own buffering over a cookie
static ssize_t ck_read(void* c, char* b, size_t n) { return v_read(vfd((int)(long)c), b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  size_t d = 0; while (d < n) { long r = v_write(vfd((int)(long)c), b + d, n - d); if (r < 0) return d; if (r == 0) { errno = EIO; return d; } d += r; } return d;
}
static int ck_seek(void* c, off64_t* o, int w) { long r = v_seek(vfd((int)(long)c), *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { VFd* v = vfd((int)(long)c); return v ? v_close(v) : 0; }
static FILE* mkfile(int fd, const char* mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie((void*)(long)fd, mode, io);
  VFd* v = vfd(fd);
  if (!fp) { v->used = false; open_count--; return nullptr; }
  v->fp = fp; v->stdio = true;
  return fp;
}
static int by_fp(FILE* fp) { for (int i = 0; i < NFD; ++i) if (fds[i].used && fds[i].fp == fp) return i + FD0; return -1; }
static FILE* v_fopen(const char* p, const char* m) {
  int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  bool plus = strchr(m, '+'); if (plus) fl = (fl & ~O_ACCMODE) | O_RDWR;
  if (strchr(m, 'x')) fl |= O_EXCL;
  int fd = v_open(p, fl); if (fd < 0) return nullptr;
  FILE* fp = mkfile(fd, m); if (!fp) errno = ENOMEM;
  return fp;
}
void* real_sym(const char* n) { void* p = dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34"); if (!p) p = dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5"); return ((void* (*)(void*, const char*))p)(RTLD_NEXT, n); }
}  // namespace sim
using namespace sim;
#define REAL(ret, name, ...) static auto real = (ret(*)(__VA_ARGS__))real_sym(#name)

SIM_EXPORT FILE* fopen(const char* p, const char* m) { if (virt(p)) return v_fopen(p, m); REAL(FILE*, fopen, const char*, const char*); return real(p, m); }
SIM_EXPORT FILE* fopen64(const char* p, const char* m) { if (virt(p)) return v_fopen(p, m); REAL(FILE*, fopen64, const char*, const char*); return real(p, m); }
SIM_EXPORT FILE* fdopen(int fd, const char* m) { if (vfd(fd)) return mkfile(fd, m); REAL(FILE*, fdopen, int, const char*); return real(fd, m); }
// freopen is not supported on virtual files.
SIM_EXPORT int fclose(FILE* f) { REAL(int, fclose, FILE*); return real(f); }
SIM_EXPORT int fileno(FILE* f) { if (g_life) { int fd = by_fp(f); if (fd >= 0) return fd; } REAL(int, fileno, FILE*); return real(f); }
SIM_EXPORT int fileno_unlocked(FILE* f) { return fileno(f); }
SIM_EXPORT ssize_t read(int fd, void* b, size_t n) { if (VFd* v = vfd(fd)) return v_read(v, (char*)b, n); REAL(ssize_t, read, int, void*, size_t); return real(fd, b, n); }
SIM_EXPORT ssize_t write(int fd, const void* b, size_t n) { if (VFd* v = vfd(fd)) return v_write(v, (const char*)b, n); REAL(ssize_t, write, int, const void*, size_t); return real(fd, b, n); }
SIM_EXPORT ssize_t pread(int fd, void* b, size_t n, off_t o) { if (VFd* v = vfd(fd)) { long p = v->pos; v->pos = o; long r = v_read(v, (char*)b, n); v->pos = p; return r; } REAL(ssize_t, pread, int, void*, size_t, off_t); return real(fd, b, n, o); }
SIM_EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (VFd* v = vfd(fd)) { long p = v->pos; v->pos = o; long r = v_write(v, (const char*)b, n); v->pos = p; return r; } REAL(ssize_t, pwrite, int, const void*, size_t, off_t); return real(fd, b, n, o); }
SIM_EXPORT ssize_t writev(int fd, const struct iovec* io, int c) {
  if (VFd* v = vfd(fd)) {   // one system call: gather, then one transfer
    size_t n = 0; for (int i = 0; i < c; ++i) n += io[i].iov_len;
    char* t = (char*)mmap(0, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); size_t o = 0;
    for (int i = 0; i < c; ++i) { if (!heap_check(io[i].iov_base, io[i].iov_len)) bad_access(io[i].iov_base, io[i].iov_len, false, __builtin_return_address(0)); memcpy(t + o, io[i].iov_base, io[i].iov_len); o += io[i].iov_len; }
    ssize_t r = v_write(v, t, n); int e = errno; munmap(t, n + 1); errno = e; return r;
  }
  REAL(ssize_t, writev, int, const struct iovec*, int); return real(fd, io, c);
}
SIM_EXPORT off_t lseek(int fd, off_t o, int w) { if (VFd* v = vfd(fd)) return v_seek(v, o, w); REAL(off_t, lseek, int, off_t, int); return real(fd, o, w); }
SIM_EXPORT off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
static int fill_stat(int i, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = sh->files[i].dir ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = sh->files[i].len; s->st_blksize = 4096; s->st_nlink = 1; s->st_ino = i + 1; return 0; }
static int v_statp(const char* p, struct stat* s) {
  std::string n = norm(p); int i = find(n);
  if (i < 0) { std::string d = n; if (!d.empty() && d.back() != '/') d += '/'; for (int k = 0; k < sh->nfiles; ++k) if (sh->files[k].used && !strncmp(sh->files[k].name, d.c_str(), d.size())) { memset(s, 0, sizeof *s); s->st_mode = S_IFDIR | 0755; return 0; }
    if (n == "." || n == "/" || n == "/tmp") { memset(s, 0, sizeof *s); s->st_mode = S_IFDIR | 0755; return 0; } errno = ENOENT; return -1; }
  return fill_stat(i, s);
}
SIM_EXPORT int fstat(int fd, struct stat* s) { if (VFd* v = vfd(fd)) return fill_stat(v->file, s); REAL(int, fstat, int, struct stat*); return real(fd, s); }
SIM_EXPORT int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
SIM_EXPORT int stat(const char* p, struct stat* s) { if (virt(p)) return v_statp(p, s); REAL(int, stat, const char*, struct stat*); return real(p, s); }
SIM_EXPORT int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
SIM_EXPORT int lstat(const char* p, struct stat* s) { if (virt(p)) return v_statp(p, s); REAL(int, lstat, const char*, struct stat*); return real(p, s); }
SIM_EXPORT int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
SIM_EXPORT int access(const char* p, int m) { if (virt(p)) { struct stat s; return v_statp(p, &s); } REAL(int, access, const char*, int); return real(p, m); }
static int open_common(const char* p, int fl, mode_t m) { if (virt(p)) return v_open(p, fl); REAL(int, open, const char*, int, ...); return real(p, fl, m); }
SIM_EXPORT int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return open_common(p, fl, m); }
SIM_EXPORT int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return open_common(p, fl, m); }
SIM_EXPORT int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); if (virt(p)) return v_open(p, fl); REAL(int, openat, int, const char*, int, ...); return real(d, p, fl, m); }
SIM_EXPORT int openat64(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return openat(d, p, fl, m); }
SIM_EXPORT int creat(const char* p, mode_t m) { return open_common(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
SIM_EXPORT int close(int fd) { if (VFd* v = vfd(fd)) return v_close(v); REAL(int, close, int); return real(fd); }
SIM_EXPORT int fsync(int fd) { if (VFd* v = vfd(fd)) { const Fault* f = op(OP_META, sh->files[v->file].name); if (f && f->kind != F_SHORT && f->kind != F_EINTR) { errno = err_of(f->kind); return -1; } return 0; } REAL(int, fsync, int); return real(fd); }
SIM_EXPORT int fdatasync(int fd) { return fsync(fd); }
static int trunc_common(int i, long n) { FileRec& f = sh->files[i]; if (n > f.len) { grow(f, n); memset(disk + f.off + f.len, 0, n - f.len); } f.len = n; return 0; }
SIM_EXPORT int ftruncate(int fd, off_t n) { if (VFd* v = vfd(fd)) return trunc_common(v->file, n); REAL(int, ftruncate, int, off_t); return real(fd, n); }
SIM_EXPORT int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
SIM_EXPORT int truncate(const char* p, off_t n) { if (virt(p)) { int i = find(norm(p)); if (i < 0) { errno = ENOENT; return -1; } return trunc_common(i, n); } REAL(int, truncate, const char*, off_t); return real(p, n); }
SIM_EXPORT int unlink(const char* p) { if (g_life) { op(OP_META, p); int i = find(norm(p)); if (i < 0) { errno = ENOENT; return -1; } sh->files[i].used = false; return 0; } REAL(int, unlink, const char*); return real(p); }
SIM_EXPORT int remove(const char* p) { if (g_life) return unlink(p); REAL(int, remove, const char*); return real(p); }
SIM_EXPORT int rename(const char* a, const char* b) {
  if (g_life) {
    const Fault* f = op(OP_META, b); if (f) { if (f->kind == F_CRASH) crash_now(); if (f->kind != F_SHORT && f->kind != F_EINTR) { errno = err_of(f->kind); return -1; } }
    int i = find(norm(a)); if (i < 0) { errno = ENOENT; return -1; } std::string nb = norm(b); int j = find(nb); if (j >= 0 && j != i) sh->files[j].used = false;
    strncpy(sh->files[i].name, nb.c_str(), sizeof sh->files[i].name - 1); return 0; }
  REAL(int, rename, const char*, const char*); return real(a, b);
}
SIM_EXPORT int mkdir(const char* p, mode_t m) { if (g_life) { if (find(norm(p)) >= 0) { errno = EEXIST; return -1; } sh->files[create(norm(p))].dir = true; return 0; } REAL(int, mkdir, const char*, mode_t); return real(p, m); }
SIM_EXPORT int rmdir(const char* p) { if (g_life) return unlink(p); REAL(int, rmdir, const char*); return real(p); }
static int v_mkstemp(char* t, int sfx) { static long ctr = 0; size_t l = strlen(t); if (l < (size_t)(6 + sfx)) { errno = EINVAL; return -1; } for (;;) { char nb[8]; snprintf(nb, sizeof nb, "%06ld", ctr++ % 1000000); memcpy(t + l - 6 - sfx, nb, 6); if (find(norm(t)) < 0) break; } return v_open(t, O_RDWR | O_CREAT | O_EXCL); }
SIM_EXPORT int mkstemp(char* t) { if (g_life) return v_mkstemp(t, 0); REAL(int, mkstemp, char*); return real(t); }
SIM_EXPORT int mkstemp64(char* t) { return mkstemp(t); }
SIM_EXPORT int mkstemps(char* t, int s) { if (g_life) return v_mkstemp(t, s); REAL(int, mkstemps, char*, int); return real(t, s); }
SIM_EXPORT FILE* tmpfile() { char t[] = "/tmp/simtmpXXXXXX"; int fd = mkstemp(t); if (fd < 0) return nullptr; unlink(t); return fdopen(fd, "w+"); }
SIM_EXPORT void* mmap64(void*, size_t, int, int, int, off64_t);
static void* mm(void* a, size_t n, int pr, int fl, int fd, off64_t o) {
  static auto real = (void* (*)(void*, size_t, int, int, int, off64_t))real_sym("mmap64");
  if (VFd* v = vfd(fd)) {
    const Fault* f = op(OP_META, sh->files[v->file].name); if (f && f->kind != F_SHORT && f->kind != F_EINTR) { errno = ENOMEM; return MAP_FAILED; }
    char* p = (char*)real(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return p;
    FileRec& fr = sh->files[v->file]; long k = fr.len - o; if (k > (long)n) k = n; if (k > 0) memcpy(p, disk + fr.off + o, k); return p; }
  return real(a, n, pr, fl, fd, o);
}
SIM_EXPORT void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) { return mm(a, n, p, f, fd, o); }
SIM_EXPORT void* mmap64(void* a, size_t n, int p, int f, int fd, off64_t o) { return mm(a, n, p, f, fd, o); }
SIM_EXPORT int ioctl(int fd, unsigned long rq, ...) { va_list a; va_start(a, rq); void* p = va_arg(a, void*); va_end(a); if (VFd* v = vfd(fd)) { if (rq == FIONREAD) { *(int*)p = sh->files[v->file].len - v->pos; return 0; } errno = ENOTTY; return -1; } REAL(int, ioctl, int, unsigned long, ...); return real(fd, rq, p); }
SIM_EXPORT int poll(struct pollfd* p, nfds_t n, int t) { if (n == 1 && vfd(p->fd)) { p->revents = p->events; return 1; } REAL(int, poll, struct pollfd*, nfds_t, int); return real(p, n, t); }
SIM_EXPORT int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); if (VFd* v = vfd(fd)) { if (c == F_GETFL) return v->flags; return 0; } REAL(int, fcntl, int, int, ...); return real(fd, c, x); }
SIM_EXPORT int fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return fcntl(fd, c, x); }
SIM_EXPORT int posix_fadvise(int fd, off_t o, off_t n, int ad) { if (vfd(fd)) return 0; REAL(int, posix_fadvise, int, off_t, off_t, int); return real(fd, o, n, ad); }
