// simulated disk (paths under /simfs/), clock, entropy, standard streams
SimIoCfg sim_io;
namespace {
const int NFILE = 128, NFD = 64; const int FD0 = 100000;
struct SFile { char name[200]; char* data; long n, cap; bool used, dir; };
SFile* files; // NFILE
struct SFd { bool used; SFile* f; long pos; bool app, rd, wr; FILE* fp; };
SFd fds[NFD];
long io_w = 0, io_r = 0, io_o = 0, io_c = 0, io_wf = 0, io_rf = 0;
bool is_sim(const char* p) { return p && strncmp(p, "/simfs", 6) == 0 && (p[6] == '/' || !p[6]); }
void canon(const char* p, char* out) { int k = 0; for (; *p && k < 198; p++) { if (*p == '/' && k && out[k - 1] == '/') continue; out[k++] = *p; } while (k > 1 && out[k - 1] == '/') k--; out[k] = 0; }
SFile* ffind(const char* p) { char b[200]; canon(p, b); for (int i = 0; i < NFILE; i++) if (files[i].used && !strcmp(files[i].name, b)) return &files[i]; return nullptr; }
SFile* fmake(const char* p, bool dir) {
  char b[200]; canon(p, b);
  for (int i = 0; i < NFILE; i++) if (!files[i].used) { SFile* f = &files[i]; strcpy(f->name, b); f->used = true; f->dir = dir; f->n = 0; f->cap = 0; f->data = nullptr; return f; }
  finish(ST_INCONC);
}
bool parent_ok(const char* p) { char b[200]; canon(p, b); char* s = strrchr(b, '/'); if (!s || s == b) return true; *s = 0; if (!strcmp(b, "/simfs")) return true; SFile* f = ffind(b); return f && f->dir; }
void fgrow(SFile* f, long n) { if (n <= f->cap) return; long c = n * 2 + 256; f->data = (char*) realloc(f->data, c); memset(f->data + f->cap, 0, c - f->cap); f->cap = c; }
long fs_total() { long t = 0; for (int i = 0; i < NFILE; i++) if (files[i].used) t += files[i].n; return t; }
bool hit(int p) { return p > 0 && (int) draw(2, 256) >= 256 - p; }
SFd* sfd(int fd) { return fd >= FD0 && fd < FD0 + NFD && fds[fd - FD0].used ? &fds[fd - FD0] : nullptr; }
void io_point() { if (cur && nlive > 1) { int on = g_on; sync_point(); g_on = on; } }
int sim_open(const char* path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl) {
  io_point();
  long k = io_o++;
  if (k == sim_io.fail_open_at || hit(sim_io.p_open_fail)) { R->faults[F_OPEN_FAIL]++; if (wr) io_wf++; else io_rf++; errno = wr ? ENOSPC : EIO; return -1; }
  SFile* f = ffind(path);
  if (f && f->dir) { errno = EISDIR; return -1; }
  if (f && excl && creat) { errno = EEXIST; return -1; }
  if (!f) { if (!creat || !parent_ok(path)) { errno = ENOENT; return -1; } f = fmake(path, false); }
  if (trunc) f->n = 0;
  for (int i = 0; i < NFD; i++) if (!fds[i].used) { fds[i] = SFd{true, f, 0, app, rd, wr, nullptr}; return FD0 + i; }
  errno = EMFILE; return -1;
}
ssize_t sim_write(SFd* d, const char* b, size_t n) {
  io_point();
  if (!d->wr) { errno = EBADF; return -1; }
  long k = io_w++;
  if (n == 0) return 0;
  if (hit(sim_io.p_eintr)) { R->faults[F_EINTR]++; errno = EINTR; return -1; }
  if (k == sim_io.fail_write_at || hit(sim_io.p_eio_write)) { R->faults[F_EIO_WRITE]++; io_wf++; errno = EIO; return -1; }
  if (hit(sim_io.p_enospc)) { R->faults[F_ENOSPC]++; io_wf++; errno = ENOSPC; return -1; }
  if (n > 1 && hit(sim_io.p_short_write)) { R->faults[F_SHORT_WRITE]++; n = 1 + draw(2, (u32) (n - 1)); }
  SFile* f = d->f; if (d->app) d->pos = f->n;
  if (sim_io.disk_limit >= 0) {
    long grow = d->pos + (long) n - f->n; if (grow < 0) grow = 0;
    long room = sim_io.disk_limit - fs_total();
    if (grow > room) { R->faults[F_ENOSPC]++; io_wf++; long can = (long) n - (grow - (room > 0 ? room : 0)); if (can <= 0) { errno = ENOSPC; return -1; } n = can; }
  }
  fgrow(f, d->pos + n); memcpy(f->data + d->pos, b, n); d->pos += n; if (d->pos > f->n) f->n = d->pos;
  return n;
}
ssize_t sim_read(SFd* d, char* b, size_t n) {
  io_point();
  if (!d->rd) { errno = EBADF; return -1; }
  long k = io_r++;
  if (hit(sim_io.p_eintr)) { R->faults[F_EINTR]++; errno = EINTR; return -1; }
  if (k == sim_io.fail_read_at || hit(sim_io.p_eio_read)) { R->faults[F_EIO_READ]++; io_rf++; errno = EIO; return -1; }
  SFile* f = d->f; long left = f->n - d->pos; if (left <= 0) return 0;
  if ((long) n > left) n = left;
  if (n > 1 && hit(sim_io.p_short_read)) { R->faults[F_SHORT_READ]++; n = 1 + draw(2, (u32) (n - 1)); }
  memcpy(b, f->data + d->pos, n); d->pos += n; return n;
}
off_t sim_seek(SFd* d, off_t o, int w) { long p = w == SEEK_SET ? o : w == SEEK_CUR ? d->pos + o : d->f->n + o; if (p < 0) { errno = EINVAL; return -1; } d->pos = p; return p; }
int sim_close(SFd* d) {
  io_point();
  long k = io_c++; bool wr = d->wr; d->used = false;
  if (wr && (k == sim_io.fail_close_at || hit(sim_io.p_close_fail))) { R->faults[F_CLOSE_FAIL]++; io_wf++; errno = EIO; return -1; }
  return 0;
}
ssize_t ck_read(void* c, char* b, size_t n) { return sim_read((SFd*) c, b, n); }
ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = sim_write((SFd*) c, b, n); return r < 0 ? 0 : r; }
int ck_seek(void* c, off64_t* o, int w) { off_t r = sim_seek((SFd*) c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { return sim_close((SFd*) c); }
template<class F> F real(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
FILE* sim_fopen(const char* path, const char* mode) {
  bool plus = strchr(mode, '+'), r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a', x = strchr(mode, 'x');
  int fd = sim_open(path, r || plus, w || a || plus, w || a, w, a, x);
  if (fd < 0) return nullptr;
  cookie_io_functions_t fn = {ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie(&fds[fd - FD0], mode, fn);
  fds[fd - FD0].fp = fp;
  return fp;
}
void fill_stat(struct stat* st, SFile* f) { memset(st, 0, sizeof *st); st->st_mode = f->dir ? S_IFDIR | 0777 : S_IFREG | 0666; st->st_size = f->n; st->st_nlink = 1; st->st_blksize = 4096; }

}
extern "C" {
FILE* fopen(const char* p, const char* m) { if (is_sim(p)) return sim_fopen(p, m); return real<FILE* (*)(const char*, const char*)>("fopen")(p, m); }
FILE* fopen64(const char* p, const char* m) { if (is_sim(p)) return sim_fopen(p, m); return real<FILE* (*)(const char*, const char*)>("fopen64")(p, m); }
int fileno(FILE* fp) noexcept { for (int i = 0; i < NFD; i++) if (fds[i].used && fds[i].fp == fp) return FD0 + i; return real<int (*)(FILE*)>("fileno")(fp); }
int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  if (is_sim(p)) { int a = fl & O_ACCMODE; return sim_open(p, a != O_WRONLY, a != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL); }
  return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return open(p, fl, m); }
ssize_t read(int fd, void* b, size_t n) { if (SFd* d = sfd(fd)) return sim_read(d, (char*) b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (SFd* d = sfd(fd)) return sim_write(d, (const char*) b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (SFd* d = sfd(fd)) { size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; char* b = (char*) malloc(t + 1); size_t o = 0; for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; } ssize_t r = sim_write(d, b, t); int e = errno; free(b); errno = e; return r; }
  return syscall(SYS_writev, fd, v, c);
}
off_t lseek(int fd, off_t o, int w) noexcept { if (SFd* d = sfd(fd)) return sim_seek(d, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fstat(int fd, struct stat* st) noexcept { if (SFd* d = sfd(fd)) { fill_stat(st, d->f); return 0; } return real<int (*)(int, struct stat*)>("fstat")(fd, st); }
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*) st); }
int stat(const char* p, struct stat* st) noexcept { if (is_sim(p)) { SFile* f = ffind(p); SFile root = {}; root.dir = true; if (!f && strlen(p) <= 7) f = &root; if (!f) { errno = ENOENT; return -1; } fill_stat(st, f); return 0; } return real<int (*)(const char*, struct stat*)>("stat")(p, st); }
int lstat(const char* p, struct stat* st) noexcept { return stat(p, st); }
int stat64(const char* p, struct stat64* st) noexcept { return stat(p, (struct stat*) st); }
int lstat64(const char* p, struct stat64* st) noexcept { return stat(p, (struct stat*) st); }
int access(const char* p, int m) noexcept { if (is_sim(p)) { if (ffind(p) || strlen(p) <= 7) return 0; errno = ENOENT; return -1; } return (int) syscall(SYS_access, p, m); }
int close(int fd) { if (SFd* d = sfd(fd)) return sim_close(d); return (int) syscall(SYS_close, fd); }
int fsync(int fd) { if (sfd(fd)) return 0; return (int) syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) noexcept { if (SFd* d = sfd(fd)) { fgrow(d->f, n); d->f->n = n; return 0; } return (int) syscall(SYS_ftruncate, fd, n); }
int mkdir(const char* p, mode_t m) noexcept {
  if (is_sim(p)) {
    io_point();
    if (hit(sim_io.p_mkdir_fail)) { R->faults[F_MKDIR_FAIL]++; io_wf++; errno = ENOSPC; return -1; }
    if (ffind(p)) { errno = EEXIST; return -1; }
    if (!parent_ok(p)) { errno = ENOENT; return -1; }
    fmake(p, true); return 0;
  }
  return (int) syscall(SYS_mkdir, p, m);
}
int unlink(const char* p) noexcept { if (is_sim(p)) { SFile* f = ffind(p); if (!f) { errno = ENOENT; return -1; } f->used = false; return 0; } return (int) syscall(SYS_unlink, p); }
int remove(const char* p) noexcept { return unlink(p); }
int rmdir(const char* p) noexcept { if (is_sim(p)) return unlink(p); return (int) syscall(SYS_rmdir, p); }
int rename(const char* a, const char* b) noexcept {
  if (is_sim(a)) { SFile* f = ffind(a); if (!f) { errno = ENOENT; return -1; } SFile* g = ffind(b); if (g && g != f) g->used = false; char c[200]; canon(b, c); strcpy(f->name, c); return 0; }
  return (int) syscall(SYS_rename, a, b);
}
long sim_fs_size(const char* p) { SFile* f = ffind(p); return f ? f->n : -1; }
const char* sim_fs_data(const char* p) { SFile* f = ffind(p); if (!f) return nullptr; fgrow(f, f->n + 1); f->data[f->n] = 0; return f->data; }
void sim_fs_put(const char* p, const char* d, long n) { SFile* f = ffind(p); if (!f) f = fmake(p, false); fgrow(f, n + 1); memcpy(f->data, d, n); f->n = n; }
void sim_fs_truncate(const char* p, long n) { SFile* f = ffind(p); if (f && n < f->n) { f->n = n; R->faults[F_TORN]++; } }
void sim_fs_remove(const char* p) { SFile* f = ffind(p); if (f) f->used = false; }
int sim_fs_count() { int n = 0; for (int i = 0; i < NFILE; i++) if (files[i].used) n++; return n; }
const char* sim_fs_name(int k) { for (int i = 0; i < NFILE; i++) if (files[i].used && k-- == 0) return files[i].name; return nullptr; }
int sim_fs_isdir(const char* p) { SFile* f = ffind(p); return f && f->dir; }
int sim_fs_open_fds() { int n = 0; for (int i = 0; i < NFD; i++) n += fds[i].used; return n; }
long sim_io_writes() { return io_w; } long sim_io_reads() { return io_r; } long sim_io_opens() { return io_o; }
long sim_io_write_faults() { return io_wf; } long sim_io_read_faults() { return io_rf; }
void sim_io_reset() { memset(&sim_io, 0, sizeof sim_io); sim_io.disk_limit = sim_io.fail_write_at = sim_io.fail_read_at = sim_io.fail_open_at = sim_io.fail_close_at = -1; io_w = io_r = io_o = io_c = io_wf = io_rf = 0; }
void sim_fault_damage() { R->faults[F_DAMAGE]++; }
}
// ---- clock
namespace {
int64_t clk_mono = 1000000000ll, clk_real = 1700000000000000000ll; int clk_jumpy = 0;
void clk_step() {
  int64_t d = 1000;
  if (clk_jumpy && g_in_child) {
    u32 v = draw(2, 8);
    if (v >= 5) { R->faults[F_CLOCK_JUMP]++; int64_t j = (int64_t) draw(2, 1000000) * 3600000ll; if (v == 7) clk_real -= j * 2; else { d += j; } }
    else d += v * 977;
  }
  clk_mono += d; clk_real += d; if (clk_real < 0) clk_real = 0; R->simns += d;
}
}
extern "C" {
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (!g_in_child) return (int) syscall(SYS_clock_gettime, c, ts);
  clk_step(); int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? clk_real : clk_mono;
  ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll; return 0;
}
time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
void sim_clock_set(int64_t ns) { clk_real = ns; }
void sim_clock_jumpy(int on) { clk_jumpy = on; }
double omp_get_wtime() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
double omp_get_wtick() { return 1e-6; }
int nanosleep(const struct timespec*, struct timespec*) { sync_point(); return 0; }
int usleep(useconds_t) { sync_point(); return 0; }
int sched_yield() noexcept { if (cur) sync_point(); return 0; }
ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((u8*) b)[i] = (u8) draw(2, 256); return n; }
}
// entropy source behind std::random_device
namespace std { inline namespace _V2 {} }
extern "C" unsigned int sim_entropy() asm("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned int sim_entropy() { return draw(2, 0x7fffffff) * 2u + draw(2, 2); }
// ---- standard streams
namespace {
char cerr_buf[65536]; long cerr_n = 0;
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct CapBuf : std::streambuf {
  int overflow(int c) override { if (c != EOF) { char ch = (char) c; xsputn(&ch, 1); } return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { for (std::streamsize i = 0; i < n && cerr_n < 65535; i++) cerr_buf[cerr_n++] = s[i]; cerr_buf[cerr_n] = 0; return n; }
};
NullBuf* nullbuf; CapBuf* capbuf;
}
extern "C" {
const char* sim_cerr_text() { cerr_buf[cerr_n] = 0; return cerr_buf; }
long sim_cerr_len() { return cerr_n; }
void sim_cerr_clear() { cerr_n = 0; cerr_buf[0] = 0; }
}
