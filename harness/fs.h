// A file system in memory behind the system calls. Every call may fail, be interrupted or transfer less than asked.
#pragma once
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <dirent.h>
#include <limits.h>
namespace fs {
#ifndef FSMX
#define FSMX 24
#endif
enum { NN = 10, NF = 8, MX = FSMX, NAMES = 10, FD0 = 10 };
enum { REG = 1, DIRN = 2, LNK = 3 };
struct Node { int kind; unsigned char data[MX]; int size; unsigned char disk[MX]; int dsize; char to[32]; int dev; bool ro; };
struct Name { char name[40]; int node; };
struct File { int node, pos, fl, peer; };
static Node node[NN]; static int nnode; static Name name[NAMES]; static int nname; static File file[NF]; static bool opened[NF];
static int faults, intr, shorts;                // how many failures, interruptions and short transfers are still allowed
static int lastErr, failed;                     // what failed last
static bool dead;                               // the process has crashed: nothing changes any more
static int crashAt;                             // crash after that many changes (-1: never)
static bool big; static unsigned long bigOff, bigLen, bigRet, bigPos, bigTotal; // big: transfers of any length at any position, no contents
static bool cwdRoot; static int maps, mapNode, mapLen, mapProt, mapFlags; static void* mapAt;
static int calls; static const char* failedCall; static int closed2;
static void fsReset() { nnode = nname = 0; for (int i = 0; i < NF; i++) opened[i] = false; faults = intr = shorts = 0; failed = 0; lastErr = 0; dead = false; crashAt = -1; calls = 0; failedCall = 0; closed2 = 0; big = false; cwdRoot = false; maps = 0; }
static bool bad(const char* w, bool canIntr = false) {
  calls++;
  if (canIntr && intr && pick(2, "interrupted")) { intr--; errno = EINTR; return true; }
  if (faults && pick(2, "fails")) { faults--; failed++; failedCall = w; lastErr = pick(2, "errno") ? EIO : ENOSPC; errno = lastErr; return true; }
  return false;
}
static bool change() { if (crashAt == 0) dead = true; if (crashAt > 0) crashAt--; return !dead; }
static int part(int n) { if (n > 1 && shorts && pick(2, "short")) { shorts--; return 1; } return n; }
static int nd(int kind) { Node& n = node[nnode]; memset(&n, 0, sizeof n); n.kind = kind; return nnode++; }
static void strip(char* b, const char* p);
static int look(const char* pp) { char p[60]; strip(p, pp); for (int i = 0; i < nname; i++) if (strcmp(name[i].name, p) == 0) return i; return -1; }
static void put(const char* p, int n) { strip(name[nname].name, p); name[nname++].node = n; }
static void drop(int i) { nname--; if (i != nname) name[i] = name[nname]; }
static int mkfile(const char* p, const unsigned char* d, int l) { int n = nd(REG); memcpy(node[n].data, d, l); memcpy(node[n].disk, d, l); node[n].size = node[n].dsize = l; put(p, n); return n; }
static int resolve(const char* p) { int i = look(p); for (int k = 0; i >= 0 && node[name[i].node].kind == LNK && k < 3; k++) i = look(node[name[i].node].to); return i < 0 ? -1 : name[i].node; }
static bool under(const char* d, const char* p) { size_t l = strlen(d); return strncmp(d, p, l) == 0 && p[l] == '/'; }
static const char* chr(const char* p, char c) { for (; *p; p++) if (*p == c) return p; return 0; }
static const char* rchr(const char* p, char c) { const char* r = 0; for (; *p; p++) if (*p == c) r = p; return r; }
static bool parentOk(const char* pp) { char p[60]; strip(p, pp); const char* s = rchr(p, '/'); if (!s || s == p) return true; char b[60]; memcpy(b, p, s - p); b[s - p] = 0; int n = resolve(b); return n >= 0 && node[n].kind == DIRN; }
static void strip(char* b, const char* p) { char* o = b; while (*p) { if (p[0] == '/' && (p[1] == '/' || p[1] == 0) && o > b) { p++; continue; } if (p[0] == '/' && p[1] == '.' && (p[2] == '/' || p[2] == 0)) { p += 2; continue; } *o++ = *p++; } *o = 0; }
static File* get(int fd) { if (fd < FD0 || fd >= FD0 + NF || !opened[fd - FD0]) { errno = EBADF; return 0; } return &file[fd - FD0]; }
static int newfd(int n, int fl) { for (int i = 0; i < NF; i++) if (!opened[i]) { opened[i] = true; file[i].node = n; file[i].pos = 0; file[i].fl = fl; return FD0 + i; } errno = EMFILE; return -1; }
static int openFds() { int k = 0; for (int i = 0; i < NF; i++) k += opened[i]; return k; }
static void fill(struct stat* st, int n) { memset(st, 0, sizeof *st); st->st_size = node[n].size; st->st_ino = n + 1; st->st_dev = node[n].dev; st->st_mode = (node[n].kind == DIRN ? S_IFDIR : node[n].kind == LNK ? S_IFLNK : S_IFREG) | 0644; st->st_mtim.tv_sec = 1000 + n; st->st_mtim.tv_nsec = 250000000; }
}
using namespace fs;
extern "C" {
int open(const char* p, int fl, ...) {
  char b[60]; strip(b, p);
  if (bad("open")) return -1;
  int n = resolve(b); int mode = fl & O_ACCMODE;
  if (n >= 0 && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
  if (n >= 0 && node[n].kind == DIRN && mode != O_RDONLY) { errno = EISDIR; return -1; }
  if (n < 0) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } if (!parentOk(b)) { errno = ENOENT; return -1; } if (!change()) return newfd(nd(REG), fl); n = nd(REG); put(b, n); }
  else if ((fl & O_TRUNC) && change()) node[n].size = 0;
  return newfd(n, fl);
}
int open64(const char* p, int fl, ...) { return open(p, fl); }
int close(int fd) { File* f = get(fd); if (!f) { closed2++; return -1; } opened[fd - FD0] = false; if ((f->fl & O_ACCMODE) != O_RDONLY && bad("close")) return -1; return 0; }
static ssize_t bigXfer(size_t n, off_t o) { bigOff = o; bigLen = n; size_t m = n < 0x7ffff000ul ? n : 0x7ffff000ul; bigRet = lsx_sym(64, "moved"); lsx_assume(bigRet <= m && bigRet > 0); return bigRet; }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (big) return bigXfer(n, o); File* f = get(fd); if (!f) return -1; if ((f->fl & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; } if (o < 0) { errno = EINVAL; return -1; } if (bad("read", true)) return -1; Node& d = node[f->node]; off_t l = d.size - o; if (l <= 0) return 0; if (l > (off_t)n) l = n; l = part(l); memcpy(b, d.data + o, l); return l; }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t read(int fd, void* b, size_t n) { if (big) { ssize_t r = bigXfer(n, bigPos); bigPos += r; return r; } File* f = get(fd); if (!f) return -1; ssize_t r = pread(fd, b, n, f->pos); if (r > 0) f->pos += r; return r; }
static ssize_t store(File* f, const void* b, size_t n, off_t o) { if ((f->fl & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; } if (o < 0) { errno = EINVAL; return -1; } if (bad("write", true)) return -1; Node& d = node[f->node]; int l = part(n); CHECK(o + l <= MX, "written out of the model"); if (!change()) return l; if (o > d.size) memset(d.data + d.size, 0, o - d.size); memcpy(d.data + o, b, l); if (o + l > d.size) d.size = o + l; return l; }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (big) return bigXfer(n, o); File* f = get(fd); if (!f) return -1; return store(f, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) { if (big) { ssize_t r = bigXfer(n, bigPos); bigPos += r; return r; } File* f = get(fd); if (!f) return -1; if (f->fl & O_APPEND) f->pos = node[f->node].size; ssize_t r = store(f, b, n, f->pos); if (r > 0) f->pos += r; return r; }
off_t lseek(int fd, off_t o, int w) { if (big) return bigPos = w == SEEK_SET ? o : w == SEEK_CUR ? bigPos + o : bigTotal + o; File* f = get(fd); if (!f) return -1; if (bad("lseek")) return -1; off_t r = w == SEEK_SET ? o : w == SEEK_CUR ? f->pos + o : node[f->node].size + o; if (r < 0) { errno = EINVAL; return -1; } f->pos = r; return r; }
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t l) { if (big) { bigTotal = l; return 0; } File* f = get(fd); if (!f) return -1; if ((f->fl & O_ACCMODE) == O_RDONLY || l < 0) { errno = EINVAL; return -1; } if (bad("ftruncate", true)) return -1; if (!change()) return 0; Node& d = node[f->node]; CHECK(l <= MX, "size out of the model"); if (l > d.size) memset(d.data + d.size, 0, l - d.size); d.size = l; return 0; }
int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }
int fdatasync(int fd) { File* f = get(fd); if (!f) return -1; if (bad("sync", true)) return -1; if (dead) return 0; Node& d = node[f->node]; memcpy(d.disk, d.data, MX); d.dsize = d.size; return 0; }
int fsync(int fd) { return fdatasync(fd); }
int fstat(int fd, struct stat* st) { File* f = get(fd); if (!f) return -1; if (bad("stat")) return -1; fill(st, f->node); if (big && f->node == 0) st->st_size = bigTotal; return 0; }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) { char b[60]; strip(b, p); if (bad("stat")) return -1; int n = resolve(b); if (n < 0) { errno = ENOENT; return -1; } fill(st, n); return 0; }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { char b[60]; strip(b, p); if (bad("stat")) return -1; int i = look(b); if (i < 0) { errno = ENOENT; return -1; } fill(st, name[i].node); return 0; }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int access(const char* p, int m) { char b[60]; strip(b, p); calls++; int n = resolve(b); if (n < 0) { errno = ENOENT; return -1; } if ((m & W_OK) && node[n].ro) { errno = EACCES; return -1; } if ((m & X_OK) && node[n].kind != DIRN && !(node[n].dev & 64)) { errno = EACCES; return -1; } return 0; }
int fcntl(int, int, ...) { return 0; }
int fcntl64(int, int, ...) { return 0; }
int rename(const char* a, const char* b) {
  if (dead) return 0; int i = look(a), j = look(b); if (bad("rename")) return -1; if (i < 0) { errno = ENOENT; return -1; } if (!parentOk(b)) { errno = ENOENT; return -1; }
  int dv = j >= 0 ? node[name[j].node].dev : chr(b, ':') ? 1 : 0; if (dv != node[name[i].node].dev) { errno = EXDEV; return -1; }
  if (j >= 0 && (node[name[j].node].kind == DIRN) != (node[name[i].node].kind == DIRN)) { errno = EISDIR; return -1; }
  if (!change()) return 0; if (j >= 0) { if (name[j].node == name[i].node) return 0; name[j].node = name[i].node; drop(i); } else strip(name[i].name, b); return 0;
}
int rmdir(const char* p) { if (dead) return 0; char b[60]; strip(b, p); int i = look(b); if (bad("rmdir")) return -1; if (i < 0) { errno = ENOENT; return -1; } if (node[name[i].node].kind != DIRN) { errno = ENOTDIR; return -1; } for (int k = 0; k < nname; k++) if (under(b, name[k].name)) { errno = ENOTEMPTY; return -1; } if (change()) drop(i); return 0; }
int unlink(const char* p) { if (dead) return 0; int i = look(p); if (bad("unlink")) return -1; if (i < 0) { errno = ENOENT; return -1; } if (node[name[i].node].kind == DIRN) { errno = EISDIR; return -1; } if (change()) drop(i); return 0; }
int remove(const char* p) { int i = look(p); if (i >= 0 && node[name[i].node].kind == DIRN) return rmdir(p); return unlink(p); }
int mkdir(const char* p, mode_t) { char b[60]; strip(b, p); if (bad("mkdir")) return -1; if (look(b) >= 0) { errno = EEXIST; return -1; } if (!parentOk(b)) { errno = ENOENT; return -1; } if (change()) put(b, nd(DIRN)); return 0; }
int symlink(const char* t, const char* p) { if (bad("symlink")) return -1; if (look(p) >= 0) { errno = EEXIST; return -1; } if (!change()) return 0; int n = nd(LNK); strcpy(node[n].to, t); put(p, n); return 0; }
ssize_t sendfile(int o, int i, off_t* off, size_t n) { if (big) { unsigned long l = bigTotal - bigPos; if (l == 0) return 0; if (n < l) l = n; if (l > 0x7ffff000ul) l = 0x7ffff000ul; if (shorts) { shorts--; unsigned long r = lsx_sym(64, "moved"); lsx_assume(r > 0 && r <= l); l = r; } bigPos += l; return l; } File *a = get(i), *b = get(o); if (!a || !b) return -1; CHECK(off == 0, "sendfile with an offset"); if (bad("sendfile", true)) return -1; Node& d = node[a->node]; off_t l = d.size - a->pos; if (l <= 0) return 0; if (l > (off_t)n) l = n; l = part(l); CHECK(b->pos + l <= MX, "written out of the model"); if (change()) { Node& t = node[b->node]; memcpy(t.data + b->pos, d.data + a->pos, l); if (b->pos + l > t.size) t.size = b->pos + l; } a->pos += l; b->pos += l; return l; }
ssize_t sendfile64(int o, int i, off_t* off, size_t n) { return sendfile(o, i, off, n); }
int flock(int fd, int) { if (!get(fd)) return -1; return 0; }
struct fsDir { char d[40]; int at; };
DIR* opendir(const char* p) { char b[60]; strip(b, p); if (bad("opendir")) return 0; int n = resolve(b); if (n < 0) { errno = ENOENT; return 0; } if (node[n].kind != DIRN) { errno = ENOTDIR; return 0; } fsDir* d = new fsDir; int i = look(b); while (node[name[i].node].kind == LNK) i = look(node[name[i].node].to); strcpy(d->d, name[i].name); d->at = -2; return (DIR*)d; }
static char seen[NAMES][40]; static int nseen; static bool unknownType;
int readdir_r(DIR* dd, struct dirent* e, struct dirent** r) { fsDir* d = (fsDir*)dd; *r = 0; if (bad("readdir")) return lastErr; e->d_type = DT_DIR; if (d->at < 0) { strcpy(e->d_name, d->at == -2 ? "." : ".."); d->at++; *r = e; return 0; }
  for (int k = 0; k < nname; k++) if (under(d->d, name[k].name) && !chr(name[k].name + strlen(d->d) + 1, '/')) { bool old = false; for (int q = 0; q < nseen; q++) if (strcmp(seen[q], name[k].name) == 0) old = true; if (old) continue; strcpy(seen[nseen++], name[k].name); strcpy(e->d_name, name[k].name + strlen(d->d) + 1); int kk = node[name[k].node].kind; e->d_type = unknownType ? DT_UNKNOWN : kk == DIRN ? DT_DIR : kk == LNK ? DT_LNK : DT_REG; *r = e; return 0; }
  return 0; }
int readdir64_r(DIR* dd, struct dirent64* e, struct dirent64** r) { return readdir_r(dd, (struct dirent*)e, (struct dirent**)r); }
void rewinddir(DIR* dd) { fsDir* d = (fsDir*)dd; d->at = -2; int k = 0; for (int q = 0; q < nseen; q++) if (!(under(d->d, seen[q]) && !chr(seen[q] + strlen(d->d) + 1, '/'))) { if (k != q) strcpy(seen[k], seen[q]); k++; } nseen = k; }
int closedir(DIR* d) { delete (fsDir*)d; return 0; }
long pathconf(const char*, int) { return 20; }
char* getcwd(char* b, size_t n) { const char* c = cwdRoot ? "/" : "/cwd"; if (strlen(c) + 1 > n) { errno = ERANGE; return 0; } strcpy(b, c); return b; }
int dup(int fd) { File* f = get(fd); if (!f) return -1; if (bad("dup")) return -1; return newfd(f->node, f->fl); }
void* mmap(void* a, size_t l, int pr, int fl, int fd, off_t o) { File* f = get(fd); if (!f || bad("mmap")) return MAP_FAILED; CHECK(a == 0 && l > 0, "arguments of mmap"); int m = f->fl & O_ACCMODE; if (m == O_WRONLY || ((pr & PROT_WRITE) && (fl & MAP_SHARED) && m == O_RDONLY)) { errno = EACCES; return MAP_FAILED; } maps++; mapNode = f->node; mapLen = l; mapProt = pr; mapFlags = fl; return mapAt = node[f->node].data + o; }
void* mmap64(void* a, size_t l, int pr, int fl, int fd, off_t o) { return mmap(a, l, pr, fl, fd, o); }
int munmap(void* a, size_t l) { CHECK(maps > 0 && a == mapAt && (int)l == mapLen, "area to unmap"); maps--; return 0; }
int msync(void* a, size_t l, int) { CHECK(maps > 0 && a == mapAt && (int)l == mapLen, "area to synchronize"); Node& d = node[mapNode]; memcpy(d.disk, d.data, MX); d.dsize = d.size; return 0; }
int pipe(int*) { errno = EMFILE; return -1; }
}
