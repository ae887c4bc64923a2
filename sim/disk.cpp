// Simulated disk (in memory shared between the lives of a run), clock, process
// identity, random sources, standard output.
#include "rt.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/random.h>
#include <poll.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <streambuf>
#include <string>

#define EXP extern "C" __attribute__((visibility("default")))
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

static const int FD0 = 700, NFD = 128;
struct Fd { bool used; int ino; int64_t pos; int flags; FILE* fp; int refs_to; char name[SIM_NAMELEN]; };
static Fd fds[NFD];
static SimShared* S() { return g.shm; }
static unsigned char* idata(int i) { return g.data + (size_t)i * SIM_INODE_CAP; }

// ---- name space ---------------------------------------------------------
static const char* norm(const char* p, char* buf) {      // simulated name or nullptr
  if (!p) return nullptr;
  if (p[0] == '/') {
    if (strncmp(p, "/simdisk/", 9) == 0) p += 9;
    else if (strcmp(p, "/simdisk") == 0) { strcpy(buf, "."); return buf; }
    else return nullptr;
  }
  size_t o = 0; const char* s = p;
  std::string out; std::string t = s; size_t i = 0;
  while (i <= t.size()) {
    size_t j = t.find('/', i); if (j == std::string::npos) j = t.size();
    std::string c = t.substr(i, j - i);
    if (c == "..") { size_t q = out.rfind('/'); out = q == std::string::npos ? "" : out.substr(0, q); }
    else if (!c.empty() && c != ".") { if (!out.empty()) out += '/'; out += c; }
    i = j + 1;
  }
  if (out.empty()) out = ".";
  o = out.size(); if (o >= SIM_NAMELEN) o = SIM_NAMELEN - 1;
  memcpy(buf, out.data(), o); buf[o] = 0;
  return buf;
}
EXP int sim_disk_find(SimShared* s, const char* n) {
  for (int i = 0; i < SIM_MAXINODES; i++) if (s->dir[i].used && !strcmp(s->dir[i].name, n)) return i;
  return -1;
}
static void drop(SimShared* s, int ino) { SimInode& n = s->ino[ino]; if (n.nlink <= 0 && n.nopen <= 0) n.used = 0; }
static int mknode(SimShared* s, const char* name, unsigned char* data) {
  int ino = -1, d = -1;
  for (int i = 0; i < SIM_MAXINODES; i++) { if (ino < 0 && !s->ino[i].used) ino = i; if (d < 0 && !s->dir[i].used) d = i; }
  if (ino < 0 || d < 0) return -1;
  (void)data;
  s->ino[ino] = SimInode{1, 1, 0, 0, 0644, ++s->dk->vctr};
  s->dir[d].used = 1; s->dir[d].inode = ino; strncpy(s->dir[d].name, name, SIM_NAMELEN - 1); s->dir[d].name[SIM_NAMELEN - 1] = 0;
  return d;
}
EXP int sim_disk_put(SimShared* s, unsigned char* data, const char* name, const void* p, size_t n) {
  if (n > SIM_INODE_CAP) return -1;
  int d = sim_disk_find(s, name); if (d < 0) d = mknode(s, name, data);
  if (d < 0) return -1;
  int i = s->dir[d].inode; memcpy(data + (size_t)i * SIM_INODE_CAP, p, n); s->ino[i].size = n; s->ino[i].ver = ++s->dk->vctr; return 0;
}
EXP void sim_disk_unlink(SimShared* s, const char* name) {
  int d = sim_disk_find(s, name); if (d < 0) return;
  int i = s->dir[d].inode; s->dir[d].used = 0; s->ino[i].nlink--; drop(s, i);
}
EXP void sim_disk_reap(SimShared* s) { for (int i = 0; i < SIM_MAXINODES; i++) if (s->ino[i].used) { s->ino[i].nopen -= s->opened[i]; drop(s, i); } memset(s->opened, 0, sizeof s->opened); }
EXP void sim_disk_move(SimShared* s, const char* a, const char* b) { int da = sim_disk_find(s, a); if (da < 0) return; sim_disk_unlink(s, b); strncpy(s->dir[da].name, b, SIM_NAMELEN - 1); s->dir[da].name[SIM_NAMELEN - 1] = 0; }
EXP int sim_open_fds() { int n = 0; for (auto& f : fds) n += f.used; return n; }
void disk_life_begin() { for (auto& f : fds) f = Fd{}; }
static int64_t used_bytes() { int64_t t = 0; for (int i = 0; i < SIM_MAXINODES; i++) if (S()->ino[i].used) t += S()->ino[i].size; return t; }

// ---- faults -------------------------------------------------------------
static int name_id(const char* p) {
  SimShared* s = S();
  for (int i = 0; i < s->ntnames; i++) if (!strncmp(s->tnames[i], p, 39)) return i;
  if (s->ntnames < 64) { strncpy(s->tnames[s->ntnames], p, 39); return s->ntnames++; }
  return 63;
}
SimFault* fault_hit(int kind, const char* path) {
  SimShared* s = S();
  SimFault* hit = nullptr;
  for (int i = 0; i < s->nfaults; i++) {
    SimFault& f = s->faults[i];
    if (f.op >= 0 && f.op != g.cur_op) continue;
    if (f.kind >= 0 ? f.kind != kind : kind == SYS_ALLOC) continue;
    if (f.path[0] && !strstr(path, f.path)) continue;
    int n = f.seen++;
    if (hit) continue;
    if (n == f.nth || (f.sticky && n > f.nth)) hit = &f;
  }
  if (hit) { hit->fired++; s->fired[kind]++; if (hit->action >= 0 && hit->action < 8) s->fired_act[hit->action]++; }
  return hit;
}
static bool live_disk() { return g.active && S(); }
// Every disk event passes here.  Returns 0 to go on, -1 with errno set to fail.
static int gate(int kind, const char* path, size_t len, SimFault** out) {
  SimShared* s = S(); *out = nullptr;
  if (!g.armed) return 0;
  s->syscalls++; g.clock_us += 3 + kind;
  if (s->ntrace < SIM_MAXTRACE) { SimTrace& t = s->trace[s->ntrace++]; t.op = g.cur_op; t.kind = kind; t.file = name_id(path); }
  yield_sync(); sim_group_yield();
  SimFault* f = fault_hit(kind, path);
  if (!f) return 0;
  *out = f;
  if (f->action == ACT_KILL_BEFORE) sim_die(END_KILLED);
  if (f->action == ACT_ERR) { errno = f->err; return -1; }
  if ((f->action == ACT_SHORT || f->action == ACT_SHORT_ERR || f->action == ACT_KILL_TORN) && kind != SYS_WRITE && kind != SYS_READ) { if (f->action == ACT_KILL_TORN) sim_die(END_KILLED); *out = nullptr; }
  return 0;
}
static void after(SimFault* f) { if (f && f->action == ACT_KILL_AFTER) sim_die(END_KILLED); }

// ---- calls --------------------------------------------------------------
static bool parent_ok(const char* n) {
  const char* q = strrchr(n, '/'); if (!q) return true;
  char d[SIM_NAMELEN]; size_t l = q - n; memcpy(d, n, l); d[l] = 0;
  strncat(d, "/.", SIM_NAMELEN - l - 1);
  return sim_disk_find(S(), d) >= 0;
}
static bool is_dir(const char* n) {
  if (!strcmp(n, ".")) return true;
  char d[SIM_NAMELEN + 4]; snprintf(d, sizeof d, "%s/.", n); return sim_disk_find(S(), d) >= 0;
}
static int do_open(const char* n, int flags, int mode) {
  SimShared* s = S(); SimFault* f;
  bool creating = (flags & (O_CREAT | O_TRUNC)) != 0;
  if (gate(creating ? SYS_CREATE : SYS_OPEN, n, 0, &f)) return -1;
  if (is_dir(n)) { if ((flags & O_ACCMODE) != O_RDONLY || creating) { errno = EISDIR; return -1; } errno = EISDIR; return -1; }
  if (!parent_ok(n)) { errno = ENOENT; return -1; }
  int d = sim_disk_find(s, n);
  if (d >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  bool fresh = d < 0;
  if (d < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    d = mknode(s, n, g.data); if (d < 0) { errno = ENOSPC; return -1; }
    s->ino[s->dir[d].inode].mode = mode & 0777 & ~022;
  }
  int i = s->dir[d].inode;
  if (((flags & O_ACCMODE) != O_RDONLY || (flags & O_TRUNC)) && s->ino[i].mode == 0444 && !fresh) { errno = EACCES; return -1; }
  int k = -1; for (int j = 0; j < NFD; j++) if (!fds[j].used) { k = j; break; }
  if (k < 0) { errno = EMFILE; return -1; }
  if (flags & O_TRUNC) { s->ino[i].size = 0; s->ino[i].ver = ++s->dk->vctr; }
  fds[k] = Fd{}; fds[k].used = true; fds[k].ino = i; fds[k].flags = flags; strncpy(fds[k].name, n, SIM_NAMELEN - 1);
  s->ino[i].nopen++; s->opened[i]++;
  after(f);
  return FD0 + k;
}
static Fd* F(int fd) { return fd >= FD0 && fd < FD0 + NFD && fds[fd - FD0].used ? &fds[fd - FD0] : nullptr; }
static int do_close(int fd) {
  Fd* x = F(fd); SimFault* f;
  int r = gate(SYS_CLOSE, x->name, 0, &f), e = errno;
  S()->ino[x->ino].nopen--; S()->opened[x->ino]--; drop(S(), x->ino); x->used = false;
  after(f);
  if (r) errno = e;
  return r;
}
static ssize_t do_read(int fd, void* p, size_t n, int64_t* pos) {
  Fd* x = F(fd); SimFault* f;
  if ((x->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (gate(SYS_READ, x->name, n, &f)) return -1;
  SimInode& i = S()->ino[x->ino];
  size_t a = *pos >= i.size ? 0 : i.size - *pos; if (n > a) n = a;
  if (f && f->action == ACT_SHORT && n > 1) { n = n * (f->arg > 0 ? f->arg : 50) / 100; if (n < 1) n = 1; }
  memcpy(p, idata(x->ino) + *pos, n); *pos += n;
  after(f);
  return n;
}
static ssize_t do_write(int fd, const void* p, size_t n, int64_t* pos) {
  Fd* x = F(fd); SimFault* f;
  if ((x->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (gate(SYS_WRITE, x->name, n, &f)) return -1;
  SimInode& i = S()->ino[x->ino];
  if (x->flags & O_APPEND) *pos = i.size;
  size_t m = n;
  if (f && f->action != ACT_KILL_AFTER && n > 1) m = n * (f->arg >= 0 ? f->arg : 50) / 100;
  if (f && f->action == ACT_SHORT && m < 1) m = 1;
  int64_t cap = S()->k.capacity;
  if (cap >= 0 && *pos + (int64_t)m > i.size) {
    int64_t freeb = cap - used_bytes(); if (freeb < 0) freeb = 0;
    int64_t maxend = i.size + freeb;
    if (*pos + (int64_t)m > maxend) { m = maxend > *pos ? maxend - *pos : 0; if (m == 0) { S()->fired[SYS_WRITE]++; errno = ENOSPC; return -1; } }
  }
  if (*pos + m > SIM_INODE_CAP) { errno = EFBIG; return -1; }
  if (*pos > i.size) memset(idata(x->ino) + i.size, 0, *pos - i.size);
  memcpy(idata(x->ino) + *pos, p, m); *pos += m; if (*pos > i.size) i.size = *pos;
  i.ver = ++S()->dk->vctr;
  if (f && f->action == ACT_KILL_TORN) sim_die(END_KILLED);
  if (f && f->action == ACT_SHORT_ERR) { errno = f->err; return -1; }
  after(f);
  return m;
}
static off_t do_seek(int fd, off_t o, int wh) {
  Fd* x = F(fd); SimFault* f;
  if (gate(SYS_SEEK, x->name, 0, &f)) return -1;
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? x->pos : S()->ino[x->ino].size;
  if (b + o < 0) { errno = EINVAL; return -1; }
  x->pos = b + o; after(f); return x->pos;
}
static void fill_stat(struct stat* st, int i) {
  memset(st, 0, sizeof *st); st->st_mode = S_IFREG | S()->ino[i].mode; st->st_nlink = S()->ino[i].nlink; st->st_size = S()->ino[i].size;
  st->st_ino = 1000 + i; st->st_dev = 77; st->st_blksize = S()->k.blksize; st->st_blocks = (st->st_size + 511) / 512; st->st_mtime = g.clock_us / 1000000;
}
static void fill_dir(struct stat* st) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; st->st_blksize = 4096; st->st_dev = 77; st->st_ino = 2; }
static int do_fstat(int fd, struct stat* st) { Fd* x = F(fd); SimFault* f; if (gate(SYS_STAT, x->name, 0, &f)) return -1; fill_stat(st, x->ino); after(f); return 0; }
static int do_stat(const char* n, struct stat* st) {
  SimFault* f; if (gate(SYS_STAT, n, 0, &f)) return -1;
  if (is_dir(n)) { fill_dir(st); return 0; }
  int d = sim_disk_find(S(), n); if (d < 0) { errno = ENOENT; return -1; }
  fill_stat(st, S()->dir[d].inode); after(f); return 0;
}
static int do_unlink(const char* n) {
  SimFault* f; if (gate(SYS_UNLINK, n, 0, &f)) return -1;
  if (sim_disk_find(S(), n) < 0) { errno = ENOENT; return -1; }
  sim_disk_unlink(S(), n); after(f); return 0;
}
static int do_rename(const char* a, const char* b) {
  SimFault* f; if (gate(SYS_RENAME, b, 0, &f)) return -1;
  SimShared* s = S();
  int da = sim_disk_find(s, a); if (da < 0) { errno = ENOENT; return -1; }
  if (is_dir(b)) { errno = EISDIR; return -1; }
  if (!parent_ok(b)) { errno = ENOENT; return -1; }
  if (!strcmp(a, b)) return 0;
  int db = sim_disk_find(s, b);
  if (db >= 0) { int i = s->dir[db].inode; s->dir[db].used = 0; s->ino[i].nlink--; drop(s, i); }
  strncpy(s->dir[da].name, b, SIM_NAMELEN - 1); after(f); return 0;
}
static int do_link(const char* a, const char* b) {
  SimFault* f; if (gate(SYS_RENAME, b, 0, &f)) return -1;
  SimShared* s = S(); int da = sim_disk_find(s, a); if (da < 0) { errno = ENOENT; return -1; }
  if (sim_disk_find(s, b) >= 0) { errno = EEXIST; return -1; }
  for (int i = 0; i < SIM_MAXINODES; i++) if (!s->dir[i].used) { s->dir[i].used = 1; s->dir[i].inode = s->dir[da].inode; strncpy(s->dir[i].name, b, SIM_NAMELEN - 1); s->ino[s->dir[da].inode].nlink++; after(f); return 0; }
  errno = ENOSPC; return -1;
}
static int do_trunc(int ino, const char* n, off_t len) {
  SimFault* f; if (gate(SYS_TRUNC, n, 0, &f)) return -1;
  SimInode& i = S()->ino[ino]; if (len > (off_t)SIM_INODE_CAP) { errno = EFBIG; return -1; }
  if ((uint32_t)len > i.size) {
    if (S()->k.capacity >= 0 && used_bytes() + (len - i.size) > S()->k.capacity) { /* sparse: allowed */ }
    memset(idata(ino) + i.size, 0, len - i.size);
  }
  i.size = len; i.ver = ++S()->dk->vctr; after(f); return 0;
}

// ---- libc entry points --------------------------------------------------
#define SIMPATH(p) char nb_[SIM_NAMELEN]; const char* n = live_disk() && g.in_op ? norm(p, nb_) : nullptr
static int mode_arg(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; }
#define OPENFN(name) EXP int name(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = mode_arg(flags, ap); va_end(ap); SIMPATH(p); if (n) return do_open(n, flags, m); \
  static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, #name); return real(p, flags, m); }
OPENFN(open) OPENFN(open64)
#define OPENATFN(name) EXP int name(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = mode_arg(flags, ap); va_end(ap); SIMPATH(p); if (n && (d == AT_FDCWD || p[0] == '/')) return do_open(n, flags, m); \
  static auto real = (int (*)(int, const char*, int, ...))dlsym(RTLD_NEXT, #name); return real(d, p, flags, m); }
OPENATFN(openat) OPENATFN(openat64)
EXP int __open_2(const char* p, int f) { return open(p, f); }
EXP int __open64_2(const char* p, int f) { return open64(p, f); }
EXP int creat(const char* p, mode_t m) { SIMPATH(p); if (n) return do_open(n, O_WRONLY | O_CREAT | O_TRUNC, m); REAL(creat); return real(p, m); }
EXP int creat64(const char* p, mode_t m) { return creat(p, m); }
EXP int close(int fd) { if (F(fd)) return do_close(fd); REAL(close); return real(fd); }
EXP ssize_t read(int fd, void* p, size_t n) { if (Fd* x = F(fd)) return do_read(fd, p, n, &x->pos); REAL(read); return real(fd, p, n); }
EXP ssize_t __read_chk(int fd, void* p, size_t n, size_t) { return read(fd, p, n); }
EXP ssize_t pread(int fd, void* p, size_t n, off_t o) { if (F(fd)) { int64_t q = o; return do_read(fd, p, n, &q); } REAL(pread); return real(fd, p, n, o); }
EXP ssize_t pread64(int fd, void* p, size_t n, off_t o) { if (F(fd)) { int64_t q = o; return do_read(fd, p, n, &q); } REAL(pread); return real(fd, p, n, o); }
EXP ssize_t write(int fd, const void* p, size_t n) {
  if (Fd* x = F(fd)) return do_write(fd, p, n, &x->pos);
  if (g.active && g.in_op && (fd == 1 || fd == 2)) {
    if (fd == 2) return n;
    yield_sync(); size_t can; if (!out_ok(n, &can) && can == 0) { errno = ENOSPC; return -1; } out_write((const char*)p, can); return can;
  }
  REAL(write); return real(fd, p, n);
}
EXP ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { if (F(fd)) { int64_t q = o; return do_write(fd, p, n, &q); } REAL(pwrite); return real(fd, p, n, o); }
EXP ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) { if (F(fd)) { int64_t q = o; return do_write(fd, p, n, &q); } REAL(pwrite); return real(fd, p, n, o); }
EXP ssize_t writev(int fd, const struct iovec* v, int c) {
  if (Fd* x = F(fd)) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, &x->pos); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
  if (g.active && g.in_op && (fd == 1 || fd == 2)) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; } return t; }
  REAL(writev); return real(fd, v, c);
}
EXP ssize_t readv(int fd, const struct iovec* v, int c) {
  if (Fd* x = F(fd)) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, &x->pos); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
  REAL(readv); return real(fd, v, c);
}
EXP off_t lseek(int fd, off_t o, int w) { if (F(fd)) return do_seek(fd, o, w); REAL(lseek); return real(fd, o, w); }
EXP off_t lseek64(int fd, off_t o, int w) { if (F(fd)) return do_seek(fd, o, w); REAL(lseek); return real(fd, o, w); }
EXP int fstat(int fd, struct stat* st) { if (F(fd)) return do_fstat(fd, st); REAL(fstat); return real(fd, st); }
EXP int fstat64(int fd, struct stat64* st) { if (F(fd)) return do_fstat(fd, (struct stat*)st); REAL(fstat64); return real(fd, st); }
EXP int __fxstat(int v, int fd, struct stat* st) { if (F(fd)) return do_fstat(fd, st); static auto real = (int (*)(int, int, struct stat*))dlsym(RTLD_NEXT, "__fxstat"); return real(v, fd, st); }
EXP int __fxstat64(int v, int fd, struct stat64* st) { if (F(fd)) return do_fstat(fd, (struct stat*)st); static auto real = (int (*)(int, int, struct stat64*))dlsym(RTLD_NEXT, "__fxstat64"); return real(v, fd, st); }
EXP int stat(const char* p, struct stat* st) { SIMPATH(p); if (n) return do_stat(n, st); REAL(stat); return real(p, st); }
EXP int stat64(const char* p, struct stat64* st) { SIMPATH(p); if (n) return do_stat(n, (struct stat*)st); REAL(stat64); return real(p, st); }
EXP int lstat(const char* p, struct stat* st) { SIMPATH(p); if (n) return do_stat(n, st); REAL(lstat); return real(p, st); }
EXP int lstat64(const char* p, struct stat64* st) { SIMPATH(p); if (n) return do_stat(n, (struct stat*)st); REAL(lstat64); return real(p, st); }
EXP int fstatat(int d, const char* p, struct stat* st, int fl) { SIMPATH(p); if (n && p[0]) return do_stat(n, st); if (F(d) && (fl & AT_EMPTY_PATH)) return do_fstat(d, st); REAL(fstatat); return real(d, p, st, fl); }
EXP int fstatat64(int d, const char* p, struct stat64* st, int fl) { SIMPATH(p); if (n && p[0]) return do_stat(n, (struct stat*)st); REAL(fstatat64); return real(d, p, st, fl); }
EXP int access(const char* p, int m) { SIMPATH(p); if (n) { struct stat st; int r = do_stat(n, &st); if (!r && (m & W_OK) && (st.st_mode & 0777) == 0444) { errno = EACCES; return -1; } return r; } REAL(access); return real(p, m); }
EXP int faccessat(int d, const char* p, int m, int fl) { SIMPATH(p); if (n) { struct stat st; int r = do_stat(n, &st); if (!r && (m & W_OK) && (st.st_mode & 0777) == 0444) { errno = EACCES; return -1; } return r; } REAL(faccessat); return real(d, p, m, fl); }
EXP int unlink(const char* p) { SIMPATH(p); if (n) return do_unlink(n); REAL(unlink); return real(p); }
EXP int unlinkat(int d, const char* p, int fl) { SIMPATH(p); if (n) return do_unlink(n); REAL(unlinkat); return real(d, p, fl); }
EXP int remove(const char* p) noexcept { SIMPATH(p); if (n) return do_unlink(n); REAL(remove); return real(p); }
EXP int rename(const char* a, const char* b) noexcept { SIMPATH(a); char nb2[SIM_NAMELEN]; if (n) { const char* m = norm(b, nb2); if (!m) { errno = EXDEV; return -1; } return do_rename(n, m); } REAL(rename); return real(a, b); }
EXP int renameat(int d, const char* a, int e, const char* b) noexcept { SIMPATH(a); char nb2[SIM_NAMELEN]; if (n) { const char* m = norm(b, nb2); if (!m) { errno = EXDEV; return -1; } return do_rename(n, m); } REAL(renameat); return real(d, a, e, b); }
EXP int renameat2(int d, const char* a, int e, const char* b, unsigned fl) noexcept { SIMPATH(a); char nb2[SIM_NAMELEN]; if (n) { const char* m = norm(b, nb2); if (!m) { errno = EXDEV; return -1; } return do_rename(n, m); } REAL(renameat2); return real(d, a, e, b, fl); }
EXP int link(const char* a, const char* b) { SIMPATH(a); char nb2[SIM_NAMELEN]; if (n) { const char* m = norm(b, nb2); if (!m) { errno = EXDEV; return -1; } return do_link(n, m); } REAL(link); return real(a, b); }
EXP int ftruncate(int fd, off_t l) { if (Fd* x = F(fd)) return do_trunc(x->ino, x->name, l); REAL(ftruncate); return real(fd, l); }
EXP int ftruncate64(int fd, off_t l) { if (Fd* x = F(fd)) return do_trunc(x->ino, x->name, l); REAL(ftruncate); return real(fd, l); }
EXP int truncate(const char* p, off_t l) { SIMPATH(p); if (n) { int d = sim_disk_find(S(), n); if (d < 0) { errno = ENOENT; return -1; } return do_trunc(S()->dir[d].inode, n, l); } REAL(truncate); return real(p, l); }
EXP int fsync(int fd) { if (Fd* x = F(fd)) { SimFault* f; int r = gate(SYS_SYNC, x->name, 0, &f); if (!r) after(f); return r; } REAL(fsync); return real(fd); }
EXP int fdatasync(int fd) { if (Fd* x = F(fd)) { SimFault* f; int r = gate(SYS_SYNC, x->name, 0, &f); if (!r) after(f); return r; } REAL(fdatasync); return real(fd); }
EXP int fchmod(int fd, mode_t m) { if (Fd* x = F(fd)) { S()->ino[x->ino].mode = m & 0777; return 0; } REAL(fchmod); return real(fd, m); }
EXP int chmod(const char* p, mode_t m) { SIMPATH(p); if (n) { int d = sim_disk_find(S(), n); if (d < 0) { errno = ENOENT; return -1; } S()->ino[S()->dir[d].inode].mode = m & 0777; return 0; } REAL(chmod); return real(p, m); }
EXP int fchown(int fd, uid_t u, gid_t gr) { if (F(fd)) return 0; REAL(fchown); return real(fd, u, gr); }
EXP int posix_fallocate(int fd, off_t, off_t) { if (F(fd)) return 0; return EINVAL; }
EXP int posix_fadvise(int fd, off_t, off_t, int) { return 0; }
EXP int ioctl(int fd, unsigned long r, ...) {
  va_list ap; va_start(ap, r); void* a = va_arg(ap, void*); va_end(ap);
  if (Fd* x = F(fd)) { if (r == FIONREAD) { *(int*)a = (int)((int64_t)S()->ino[x->ino].size - x->pos); return 0; } errno = ENOTTY; return -1; }
  static auto real = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl"); return real(fd, r, a);
}
static int do_fcntl(int fd, int c, long a, const char* nm) {
  if (Fd* x = F(fd)) {
    if (c == F_GETFL) return x->flags & ~(O_CREAT | O_TRUNC | O_EXCL);
    if (c == F_DUPFD || c == F_DUPFD_CLOEXEC) { for (int j = 0; j < NFD; j++) if (!fds[j].used) { fds[j] = *x; fds[j].fp = nullptr; S()->ino[x->ino].nopen++; S()->opened[x->ino]++; return FD0 + j; } errno = EMFILE; return -1; }
    return 0;
  }
  auto real = (int (*)(int, int, ...))dlsym(RTLD_NEXT, nm); return real(fd, c, a);
}
EXP int fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, c, a, "fcntl"); }
EXP int fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, c, a, "fcntl64"); }
EXP int dup(int fd) { if (F(fd)) return do_fcntl(fd, F_DUPFD, 0, "fcntl"); REAL(dup); return real(fd); }
EXP int isatty(int fd) { if (F(fd)) { errno = ENOTTY; return 0; } if (g.active && g.in_op && fd <= 2) { errno = ENOTTY; return 0; } REAL(isatty); return real(fd); }
EXP int mkdir(const char* p, mode_t m) { SIMPATH(p); if (n) { if (is_dir(n)) { errno = EEXIST; return -1; } char d[SIM_NAMELEN + 4]; snprintf(d, sizeof d, "%.90s/.", n); return mknode(S(), d, g.data) < 0 ? (errno = ENOSPC, -1) : 0; } REAL(mkdir); return real(p, m); }
EXP int rmdir(const char* p) { SIMPATH(p); if (n) { char d[SIM_NAMELEN + 4]; snprintf(d, sizeof d, "%.90s/.", n); if (sim_disk_find(S(), d) < 0) { errno = ENOENT; return -1; } sim_disk_unlink(S(), d); return 0; } REAL(rmdir); return real(p); }
EXP char* getcwd(char* b, size_t n) {
  if (live_disk() && g.in_op) { if (!b) { b = (char*)malloc(n ? n : 64); n = n ? n : 64; } if (n < 9) { errno = ERANGE; return nullptr; } strcpy(b, "/simdisk"); return b; }
  REAL(getcwd); return real(b, n);
}
EXP char* realpath(const char* p, char* r) {
  SIMPATH(p);
  if (n) { struct stat st; if (do_stat(n, &st)) return nullptr; if (!r) r = (char*)malloc(4096); snprintf(r, 4096, "/simdisk/%s", n); return r; }
  REAL(realpath); return real(p, r);
}
EXP ssize_t readlink(const char* p, char* b, size_t l) { SIMPATH(p); if (n) { errno = sim_disk_find(S(), n) < 0 ? ENOENT : EINVAL; return -1; } REAL(readlink); return real(p, b, l); }
static int mkst(char* t, int sfx) {
  size_t L = strlen(t); if (L < (size_t)sfx + 6) { errno = EINVAL; return -1; }
  char* x = t + L - sfx - 6;
  for (int tries = 0; tries < 20; tries++) {
    uint64_t v = g.rnd.next(); for (int i = 0; i < 6; i++) { x[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[v % 36]; v /= 36; }
    char nb[SIM_NAMELEN]; const char* n = norm(t, nb); int fd = do_open(n, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
EXP int mkstemp(char* t) { SIMPATH(t); if (n) return mkst(t, 0); REAL(mkstemp); return real(t); }
EXP int mkstemp64(char* t) { SIMPATH(t); if (n) return mkst(t, 0); REAL(mkstemp); return real(t); }
EXP int mkstemps(char* t, int s) { SIMPATH(t); if (n) return mkst(t, s); REAL(mkstemps); return real(t, s); }
EXP int mkostemp(char* t, int f) { SIMPATH(t); if (n) return mkst(t, 0); REAL(mkostemp); return real(t, f); }
EXP int statfs(const char* p, struct statfs* b) { SIMPATH(p); if (n) { memset(b, 0, sizeof *b); b->f_bsize = S()->k.blksize; return 0; } REAL(statfs); return real(p, b); }

// stdio on simulated files
static ssize_t ck_read(void* c, char* b, size_t n) { int fd = (int)(intptr_t)c; Fd* x = F(fd); return x ? do_read(fd, b, n, &x->pos) : -1; }
static ssize_t ck_write(void* c, const char* b, size_t n) { int fd = (int)(intptr_t)c; Fd* x = F(fd); ssize_t r = x ? do_write(fd, b, n, &x->pos) : -1; return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) { int fd = (int)(intptr_t)c; if (!F(fd)) return -1; off_t r = do_seek(fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { int fd = (int)(intptr_t)c; return F(fd) ? do_close(fd) : -1; }
static FILE* mkfile(int fd, const char* mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie((void*)(intptr_t)fd, mode, io); if (f) F(fd)->fp = f;
  return f;
}
static FILE* do_fopen(const char* n, const char* mode) {
  int fl = 0; bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY; else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = do_open(n, fl, 0666); if (fd < 0) return nullptr;
  return mkfile(fd, mode);
}
EXP FILE* fopen(const char* p, const char* m) { SIMPATH(p); if (n) return do_fopen(n, m); REAL(fopen); return real(p, m); }
EXP FILE* fopen64(const char* p, const char* m) { SIMPATH(p); if (n) return do_fopen(n, m); REAL(fopen64); return real(p, m); }
EXP FILE* fdopen(int fd, const char* m) { if (F(fd)) return mkfile(fd, m); REAL(fdopen); return real(fd, m); }
EXP int fileno(FILE* f) noexcept { for (int i = 0; i < NFD; i++) if (fds[i].used && fds[i].fp == f) return FD0 + i; REAL(fileno); return real(f); }
EXP int fileno_unlocked(FILE* f) noexcept { return fileno(f); }
EXP int poll(struct pollfd* p, nfds_t n, int t) { if (n == 1 && F(p->fd)) { p->revents = p->events & (POLLIN | POLLOUT); return 1; } REAL(poll); return real(p, n, t); }

// ---- clock, identity, random --------------------------------------------
static bool sim_clock(const void* ra) { return g.active && g.in_op; }
EXP time_t time(time_t* t) { if (sim_clock(0)) { g.clock_us += 11; time_t r = g.clock_us / 1000000; if (t) *t = r; return r; } struct timespec ts; REAL(time); (void)ts; return real(t); }
EXP int gettimeofday(struct timeval* tv, void* z) noexcept { if (sim_clock(0)) { g.clock_us += 11; tv->tv_sec = g.clock_us / 1000000; tv->tv_usec = g.clock_us % 1000000; return 0; } REAL(gettimeofday); return real(tv, z); }
EXP int clock_gettime(clockid_t c, struct timespec* ts) noexcept { if (sim_clock(0)) { g.clock_us += 11; ts->tv_sec = g.clock_us / 1000000; ts->tv_nsec = g.clock_us % 1000000 * 1000; return 0; } REAL(clock_gettime); return real(c, ts); }
EXP clock_t clock() noexcept { if (sim_clock(0)) { g.clock_us += 11; return g.clock_us % 100000000; } REAL(clock); return real(); }
EXP pid_t getpid() noexcept { if (sim_clock(0)) return S()->k.pid; REAL(getpid); return real(); }
EXP pid_t getppid() noexcept { if (sim_clock(0)) return S()->k.pid / 2; REAL(getppid); return real(); }
// The library under test sees an environment in which the same name has other values (or none) per variant.
EXP char* getenv(const char* n) noexcept {
  REAL(getenv); char* v = real(n);
  if (!g.active || !g.in_op || !in_repo(__builtin_return_address(0))) return v;
  uint64_t h = 1469598103934665603ull ^ (uint64_t)S()->k.env * 0x9E3779B97F4A7C15ull; for (const char* c = n; *c; c++) h = (h ^ (unsigned char)*c) * 0x100000001b3ull;
  static char val[5][24] = {"1", "0", "on", "/simdisk/tmp", "x y"}; unsigned q = (unsigned)((h >> 33) % 9);
  return q < 5 ? val[q] : q == 5 ? v : nullptr;
}
EXP char* secure_getenv(const char* n) noexcept {
  if (!g.active || !g.in_op || !in_repo(__builtin_return_address(0))) { REAL(secure_getenv); return real(n); }
  REAL(getenv); uint64_t h = (uint64_t)S()->k.env * 0x9E3779B97F4A7C15ull; for (const char* c = n; *c; c++) h = (h ^ (unsigned char)*c) * 0x100000001b3ull;
  static char one[] = "1"; return (h >> 33) & 1 ? one : nullptr;
}
EXP int gethostname(char* b, size_t n) noexcept { if (sim_clock(0)) { snprintf(b, n, "host%d", S()->k.env); return 0; } REAL(gethostname); return real(b, n); }
EXP int uname(struct utsname* u) noexcept { REAL(uname); int r = real(u); if (sim_clock(0)) { snprintf(u->nodename, sizeof u->nodename, "host%d", S()->k.env); snprintf(u->release, sizeof u->release, "%d.1", 3 + S()->k.env); } return r; }
EXP ssize_t getrandom(void* b, size_t n, unsigned f) { if (sim_clock(0)) { for (size_t i = 0; i < n; i++) ((char*)b)[i] = (char)g.rnd.next(); return n; } REAL(getrandom); return real(b, n, f); }
EXP int getentropy(void* b, size_t n) { if (sim_clock(0)) { for (size_t i = 0; i < n; i++) ((char*)b)[i] = (char)g.rnd.next(); return 0; } REAL(getentropy); return real(b, n); }
EXP unsigned sim_random_device(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned sim_random_device(void* self) { if (sim_clock(0)) return (unsigned)g.rnd.next(); static auto real = (unsigned (*)(void*))dlsym(RTLD_NEXT, "_ZNSt13random_device9_M_getvalEv"); return real(self); }
EXP int rand() noexcept { if (sim_clock(0)) return (int)(g.rnd.next() & 0x7fffffff); REAL(rand); return real(); }
EXP long random() noexcept { if (sim_clock(0)) return (long)(g.rnd.next() & 0x7fffffff); REAL(random); return real(); }
EXP double drand48() noexcept { if (sim_clock(0)) return (double)(g.rnd.next() >> 11) / 9007199254740992.0; REAL(drand48); return real(); }
EXP int nanosleep(const struct timespec* t, struct timespec* r) { if (sim_clock(0)) { g.clock_us += t->tv_sec * 1000000 + t->tv_nsec / 1000; yield_sync(); sim_group_yield(); return 0; } REAL(nanosleep); return real(t, r); }
EXP int clock_nanosleep(clockid_t c, int f, const struct timespec* t, struct timespec* r) { if (sim_clock(0)) { g.clock_us += f ? 0 : t->tv_sec * 1000000 + t->tv_nsec / 1000; yield_sync(); sim_group_yield(); return 0; } REAL(clock_nanosleep); return real(c, f, t, r); }
EXP int usleep(useconds_t u) { if (sim_clock(0)) { g.clock_us += u; yield_sync(); sim_group_yield(); return 0; } REAL(usleep); return real(u); }
EXP unsigned sleep(unsigned u) { if (sim_clock(0)) { g.clock_us += (int64_t)u * 1000000; yield_sync(); sim_group_yield(); return 0; } REAL(sleep); return real(u); }
EXP long sysconf(int n) noexcept { if (sim_clock(0) && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return S()->k.maxthreads; REAL(sysconf); return real(n); }
EXP int get_nprocs() noexcept { if (sim_clock(0)) return S()->k.maxthreads; static auto real = (int (*)())dlsym(RTLD_NEXT, "get_nprocs"); return real(); }

// ---- standard output ----------------------------------------------------
bool out_ok(size_t n, size_t* can) {
  SimKnobs& k = S()->k; *can = n;
  if (k.out_fail_at < 0) return true;
  uint64_t t = S()->out_total;
  if (k.out_fail_len >= 0 && t >= (uint64_t)k.out_fail_at + (uint64_t)k.out_fail_len) return true;
  if (t + n <= (uint64_t)k.out_fail_at) return true;
  *can = t < (uint64_t)k.out_fail_at ? k.out_fail_at - t : 0;
  S()->out_total += n - *can;      // the lost bytes advance a transient failure
  S()->outfail_fired++;
  return false;
}
void out_write(const char* p, size_t n) {
  SimShared* s = S(); s->out_total += n;
  if (s->outlen + n > SIM_OUTCAP) n = SIM_OUTCAP - s->outlen;
  memcpy(s->out + s->outlen, p, n); s->outlen += n;
}
struct SimBuf : std::streambuf {
  int overflow(int c) override { if (c == EOF) return 0; char ch = (char)c; return xsputn(&ch, 1) == 1 ? c : EOF; }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    yield_sync(); size_t can; bool ok = out_ok(n, &can); out_write(p, can); yield_sync(); return ok ? n : (std::streamsize)can;
  }
  int sync() override { yield_sync(); if (g.shm && S()->k.out_sync_fail) { S()->outfail_fired++; return -1; } return 0; }
};
static ssize_t so_write(void*, const char* b, size_t n) { size_t can; bool ok = out_ok(n, &can); out_write(b, can); return ok ? (ssize_t)n : (ssize_t)can; }
static ssize_t se_write(void*, const char* b, size_t n) { return n; }
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
void out_life_begin() {
  static SimBuf* sb = new SimBuf; static NullBuf* nb = new NullBuf;
  std::cout.rdbuf(sb); std::cout.clear(); std::cerr.rdbuf(nb); std::clog.rdbuf(nb);
  cookie_io_functions_t io = {nullptr, so_write, nullptr, nullptr}, ie = {nullptr, se_write, nullptr, nullptr};
  stdout = fopencookie(nullptr, "w", io); setvbuf(stdout, nullptr, _IONBF, 0);
  stderr = fopencookie(nullptr, "w", ie); setvbuf(stderr, nullptr, _IONBF, 0);
}
