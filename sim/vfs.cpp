// The simulated disk and devices, behind the C library's own functions: these definitions in the
// executable take precedence over the C library's for the program, libstdc++ and Poppler alike.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#include <ext/stdio_sync_filebuf.h>

#include <iostream>

#include "./world.h"

using namespace sim;  // NOLINT

#define REAL(ret, name, args) \
  typedef ret (*name##_t) args; \
  static name##_t real_##name() { \
    static name##_t f = reinterpret_cast<name##_t>(dlsym(RTLD_NEXT, #name)); \
    return f; \
  }

static const int FD0 = 1000;
static const Str STDOUT_NAME = "<stdout>";
static const Str STDERR_NAME = "<stderr>";

namespace sim {

// The file a path leads to: resolves "." and "..", and symbolic links (the last one only if `follow`).
// What ".." cannot be resolved against (nothing or no directory there) keeps its "..", and so is not
// found, as on a real disk.
static Str resolve(const char* p, bool follow) {
  Vec<Str> todo;   // the components yet to come, the next one last
  auto push = [&todo](const Str& s) {
    size_t e = s.size();
    while (e > 0) {
      size_t j = s.find_last_of('/', e - 1);
      size_t b = j == Str::npos ? 0 : j + 1;
      if (e > b) todo.push_back(s.substr(b, e - b));
      e = j == Str::npos ? 0 : j;
    }
  };
  push(Str(p));
  if (p[0] != '/') push(W->cwd);
  Str r;
  int links = 0;
  while (!todo.empty()) {
    Str c = todo.back();
    todo.pop_back();
    if (c == ".") continue;
    if (c == "..") {
      if (r.empty()) continue;
      auto it = W->fs.find(r);
      if (it != W->fs.end() ? it->second.dir != 0 : !isVirtual(r)) {
        r.resize(r.find_last_of('/'));
        continue;
      }
    }
    r += '/';
    r += c;
    if (W->links && (follow || !todo.empty())) {
      auto it = W->fs.find(r);
      if (it != W->fs.end() && it->second.link) {
        if (++links > 40) { r += "/..loop"; break; }
        Str t = it->second.data;
        r.resize(t.empty() || t[0] != '/' ? r.find_last_of('/') : 0);
        push(t);
      }
    }
  }
  if (r.empty()) r = "/";
  return r;
}

Str normPath(const char* p) { return p ? resolve(p, true) : Str(); }

static bool pre(const Str& s, const char* p) {
  size_t n = strlen(p);
  return s.size() >= n && memcmp(s.data(), p, n) == 0 && (s.size() == n || s[n] == '/');
}

bool isVirtual(const Str& s) {
  return !(pre(s, "/usr") || pre(s, "/lib") || pre(s, "/lib64") || pre(s, "/etc") ||
           pre(s, "/proc") || pre(s, "/sys") || pre(s, "/dev"));
}

Node* findNode(const Str& n) {
  auto it = W->fs.find(n);
  return it == W->fs.end() ? nullptr : &it->second;
}

static Str parentOf(const Str& n) {
  size_t p = n.find_last_of('/');
  if (p == 0 || p == Str::npos) return "/";
  return n.substr(0, p);
}

// ENOENT/ENOTDIR for the directories leading to a path; 0 if they are fine.
static int walk(const Str& n) {
  size_t i = 1;
  while (true) {
    size_t j = n.find('/', i);
    if (j == Str::npos) return 0;
    Node* d = findNode(n.substr(0, j));
    if (!d) return ENOENT;
    if (!d->dir) return ENOTDIR;
    i = j + 1;
  }
}

static int compErr(const char* p) {
  if (!p) return EFAULT;
  if (!*p) return ENOENT;
  if (strlen(p) >= PATH_MAX) return ENAMETOOLONG;
  size_t run = 0;
  for (const char* c = p; *c; c++) {
    if (*c == '/') run = 0;
    else if (++run > 255) return ENAMETOOLONG;
  }
  return 0;
}

void vfsReset() {
  PR.fds.clear();
  PR.out.clear();
  PR.err.clear();
}

static int newFd(const Str& path, Node* n, int flags) {
  for (size_t i = 0; i < PR.fds.size(); i++) {
    if (!PR.fds[i].open) {
      PR.fds[i] = Fd{path, 0, flags, 1, n};
      return FD0 + i;
    }
  }
  PR.fds.push_back(Fd{path, 0, flags, 1, n});
  return FD0 + PR.fds.size() - 1;
}

static Fd* getFd(int fd) {
  if (fd < FD0 || fd >= FD0 + static_cast<int>(PR.fds.size())) return nullptr;
  Fd* f = &PR.fds[fd - FD0];
  return f->open ? f : nullptr;
}

static int vopen(const char* path, const Str& n, int flags) {
  Fault* f = decide(OP_OPEN, n);
  int e = 0;
  Node* node = nullptr;
  if (f && f->act == ACT_ERR) e = f->arg;
  if (!e) e = compErr(path);
  if (!e) e = walk(n);
  if (!e) {
    node = findNode(n);
    if (node && node->link) e = (flags & O_EXCL) ? EEXIST : ELOOP;
  }
  if (!e) {
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    size_t len = strlen(path);
    bool slash = len && path[len - 1] == '/';
    if (!node) {
      if (!(flags & O_CREAT)) { e = ENOENT; }
      else if (slash) { e = EISDIR; }
      else {
        Node* par = findNode(parentOf(n));
        if (!par) e = ENOENT;
        else if (par->denyWrite) e = EACCES;
        else {
          node = &W->fs[n];
          node->ino = ++W->ino;
          node->changed = 1;
          node->mtime = W->now;
        }
      }
    } else if (node->dir) {
      if (wr || (flags & O_CREAT)) { e = EISDIR; }
    } else {
      if ((flags & O_CREAT) && (flags & O_EXCL)) e = EEXIST;
      else if (slash) e = ENOTDIR;
      else if (wr && node->denyWrite) e = EACCES;
      else if ((flags & O_ACCMODE) != O_WRONLY && node->denyRead) e = EACCES;
      else if (wr && (flags & O_TRUNC)) {
        if (W->cap >= 0) W->cap += node->data.size();
        node->data.clear();
        node->changed = 1;
        node->mtime = W->now;
      }
    }
  }
  if (e) {
    event(OP_OPEN, n, "errno", e, flags & O_ACCMODE);
    errno = e;
    return -1;
  }
  int fd = newFd(n, node, flags);
  event(OP_OPEN, n, "fd", fd, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND));
  return fd;
}

static ssize_t vread(Fd* f, void* buf, size_t n, int64_t pos, bool advance) {
  Fault* ft = decide(OP_READ, f->path);
  if (f->node->dir) { errno = EISDIR; return -1; }
  if (ft && ft->act == ACT_ERR) { errno = ft->arg; return -1; }
  size_t size = f->node->data.size();
  size_t av = pos < static_cast<int64_t>(size) ? size - pos : 0;
  size_t k = n < av ? n : av;
  if (ft && ft->act == ACT_EOF) k = 0;
  if (ft && ft->act == ACT_SHORT && k > 0) {
    size_t lim = ft->arg < 1 ? 1 : ft->arg;
    if (lim < k) k = lim;
  }
  memcpy(buf, f->node->data.data() + (k ? pos : 0), k);
  if (ft && ft->act == ACT_FLIP && k > 0) {
    static_cast<unsigned char*>(buf)[(ft->arg >> 8) % k] ^= (ft->arg & 255) ? (ft->arg & 255) : 1;
  }
  if (advance) f->pos += k;
  event(OP_READ, f->path, "n", k, pos);
  return k;
}

static ssize_t vwrite(Fd* f, const void* buf, size_t n) {
  if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  Fault* ft = decide(OP_WRITE, f->path);
  size_t k = n;
  if (ft && ft->act == ACT_ERR) { errno = ft->arg; return -1; }
  if (ft && (ft->act == ACT_SHORT || ft->act == ACT_TORN)) {
    size_t lim = ft->act == ACT_SHORT && ft->arg < 1 ? 1 : ft->arg;
    if (lim < k) k = lim;
  }
  if (W->cap >= 0 && static_cast<int64_t>(k) > W->cap) {
    k = W->cap;
    if (k == 0 && n > 0) {
      event(OP_WRITE, f->path, "errno", ENOSPC, n);
      errno = ENOSPC;
      return -1;
    }
  }
  Str& d = f->node->data;
  if (f->flags & O_APPEND) f->pos = d.size();
  if (d.size() < static_cast<size_t>(f->pos)) d.resize(f->pos, '\0');
  size_t over = d.size() - f->pos;
  d.replace(f->pos, over < k ? over : k, static_cast<const char*>(buf), k);
  if (W->cap >= 0) W->cap -= k;
  f->pos += k;
  f->node->changed = 1;
  f->node->mtime = W->now;
  noteHash(buf, k);
  event(OP_WRITE, f->path, "n", k, f->pos);
  if (ft && ft->act == ACT_TORN) simCrash("torn");
  return k;
}

static int vclose(Fd* f) {
  Fault* ft = decide(OP_CLOSE, f->path);
  f->open = 0;
  if (ft && ft->act == ACT_ERR) {
    // A delayed write-back that fails: the tail of what was written is gone.
    if ((f->flags & O_ACCMODE) != O_RDONLY) {
      Str& d = f->node->data;
      d.resize(d.size() / 2);
    }
    event(OP_CLOSE, f->path, "errno", ft->arg, 0);
    errno = ft->arg;
    return -1;
  }
  event(OP_CLOSE, f->path, "ok", 0, 0);
  return 0;
}

// The device behind stdout/stderr.
static ssize_t devWrite(int which, const void* buf, size_t n) {
  const Str& name = which == 1 ? STDOUT_NAME : STDERR_NAME;
  Fault* ft = decide(which == 1 ? OP_OUT : OP_ERR, name);
  size_t k = n;
  if (ft && ft->act == ACT_ERR) {
    if (ft->arg == EPIPE && W->outSig) raise(SIGPIPE);
    errno = ft->arg;
    return -1;
  }
  if (ft && (ft->act == ACT_SHORT || ft->act == ACT_TORN)) {
    size_t lim = ft->act == ACT_SHORT && ft->arg < 1 ? 1 : ft->arg;
    if (lim < k) k = lim;
  }
  if (which == 1 && W->outCap >= 0 && static_cast<int64_t>(k) > W->outCap) {
    k = W->outCap;
    if (k == 0 && n > 0) {
      event(OP_OUT, name, "errno", W->outErr, n);
      if (W->outErr == EPIPE && W->outSig) raise(SIGPIPE);
      errno = W->outErr;
      return -1;
    }
  }
  Str& o = which == 1 ? PR.out : PR.err;
  if (o.size() < (64u << 20)) o.append(static_cast<const char*>(buf), k);
  if (which == 1 && W->outCap >= 0) W->outCap -= k;
  if (which == 1) noteHash(buf, k);
  event(which == 1 ? OP_OUT : OP_ERR, name, "n", k, 0);
  if (ft && ft->act == ACT_TORN) simCrash("torn");
  return k;
}

static ssize_t devCookieWrite(void* c, const char* buf, size_t n) {
  Enter e;
  size_t done = 0;
  while (done < n) {
    ssize_t k = devWrite(c ? 2 : 1, buf + done, n - done);
    if (k < 0) {
      if (errno == EINTR) continue;
      return done;
    }
    done += k;
  }
  return done;
}

static ssize_t fileCookieRead(void* c, char* buf, size_t n) {
  Enter e;
  Fd* f = getFd(static_cast<int>(reinterpret_cast<intptr_t>(c)));
  if (!f) { errno = EBADF; return -1; }
  return vread(f, buf, n, f->pos, true);
}

static ssize_t fileCookieWrite(void* c, const char* buf, size_t n) {
  Enter e;
  Fd* f = getFd(static_cast<int>(reinterpret_cast<intptr_t>(c)));
  if (!f) { errno = EBADF; return 0; }
  size_t done = 0;
  while (done < n) {
    ssize_t k = vwrite(f, buf + done, n - done);
    if (k < 0) return done;
    done += k;
  }
  return done;
}

static int fileCookieSeek(void* c, off64_t* off, int wh) {
  Enter e;
  Fd* f = getFd(static_cast<int>(reinterpret_cast<intptr_t>(c)));
  if (!f) { errno = EBADF; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : f->node->data.size();
  if (base + *off < 0) { errno = EINVAL; return -1; }
  f->pos = base + *off;
  *off = f->pos;
  return 0;
}

static int fileCookieClose(void* c) {
  Enter e;
  Fd* f = getFd(static_cast<int>(reinterpret_cast<intptr_t>(c)));
  if (!f) { errno = EBADF; return -1; }
  return vclose(f);
}

struct FileMap { FILE* f; int fd; };
static FileMap gFiles[256];

static FILE* vfdopen(int fd, const char* mode) {
  cookie_io_functions_t io = {fileCookieRead, fileCookieWrite, fileCookieSeek, fileCookieClose};
  FILE* r = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
  if (r) {
    for (auto& m : gFiles) {
      if (!m.f) { m.f = r; m.fd = fd; break; }
    }
  }
  return r;
}

static FILE* gOut = nullptr;
static FILE* gErr = nullptr;

void stdioStart() {
  Enter e;
  cookie_io_functions_t io = {nullptr, devCookieWrite, nullptr, nullptr};
  gOut = fopencookie(nullptr, "w", io);
  gErr = fopencookie(reinterpret_cast<void*>(1), "w", io);
  setvbuf(gOut, nullptr, _IOFBF, 4096);
  setvbuf(gErr, nullptr, _IONBF, 0);
  stdout = gOut;
  stderr = gErr;
  static __gnu_cxx::stdio_sync_filebuf<char> bo(gOut);
  static __gnu_cxx::stdio_sync_filebuf<char> be(gErr);
  std::cout.rdbuf(&bo);
  std::cerr.rdbuf(&be);
  std::clog.rdbuf(&be);
}

static int fileFd(FILE* f) {
  if (f && f == gOut) return 1;
  if (f && f == gErr) return 2;
  for (auto& m : gFiles) if (f && m.f == f) return m.fd;
  return -1;
}

static void fillStat(struct stat* st, Node* n) {
  memset(st, 0, sizeof(*st));
  st->st_mode = n->link ? (S_IFLNK | 0777) : n->dir ? (S_IFDIR | (n->denyWrite ? 0555 : 0755))
                       : (S_IFREG | (n->denyWrite ? 0444 : 0644));
  if (n->denyRead) st->st_mode &= ~0444;
  st->st_size = n->data.size();
  st->st_ino = n->ino + 10;
  st->st_nlink = 1;
  st->st_uid = 1000;
  st->st_gid = 1000;
  st->st_blksize = 4096;
  st->st_blocks = (n->data.size() + 511) / 512;
  st->st_mtim.tv_sec = n->mtime / 1000000000;
  st->st_mtim.tv_nsec = n->mtime % 1000000000;
  st->st_ctim = st->st_atim = st->st_mtim;
}

static int vstat(const char* path, const Str& n, struct stat* st) {
  Fault* f = decide(OP_STAT, n);
  int e = 0;
  if (f && f->act == ACT_ERR) e = f->arg;
  if (!e) e = compErr(path);
  if (!e) e = walk(n);
  Node* node = e ? nullptr : findNode(n);
  if (!e && !node) e = ENOENT;
  if (!e && !node->dir && path[strlen(path) - 1] == '/') e = ENOTDIR;
  event(OP_STAT, n, "errno", e, 0);
  if (e) { errno = e; return -1; }
  fillStat(st, node);
  return 0;
}

static int vmkdir(const char* path, const Str& n) {
  Fault* f = decide(OP_MKDIR, n);
  int e = 0;
  if (f && f->act == ACT_ERR) {
    e = f->arg;
    if (e == EEXIST && !findNode(n) && !walk(n)) {   // another process made it first
      Node& d = W->fs[n];
      d.dir = 1;
      d.ino = ++W->ino;
    }
  }
  if (!e) e = compErr(path);
  if (!e && findNode(n)) e = EEXIST;
  if (!e) e = walk(n);
  Node* par = e ? nullptr : findNode(parentOf(n));
  if (!e && !par) e = ENOENT;
  if (!e && par->denyWrite) e = EACCES;
  event(OP_MKDIR, n, "errno", e, 0);
  if (e) { errno = e; return -1; }
  Node& d = W->fs[n];
  d.dir = 1;
  d.changed = 1;
  d.ino = ++W->ino;
  d.mtime = W->now;
  return 0;
}

static int vunlink(const Str& n, bool wantDir) {
  Fault* f = decide(OP_UNLINK, n);
  int e = 0;
  if (f && f->act == ACT_ERR) e = f->arg;
  Node* node = findNode(n);
  if (!e) e = walk(n);
  if (!e && !node) e = ENOENT;
  if (!e && node->dir && !wantDir) e = EISDIR;
  if (!e && !node->dir && wantDir) e = ENOTDIR;
  if (!e) { Node* par = findNode(parentOf(n)); if (par && par->denyWrite) e = EACCES; }
  if (!e && node->dir) {
    Str p = n + "/";
    auto it = W->fs.lower_bound(p);
    if (it != W->fs.end() && it->first.compare(0, p.size(), p) == 0) e = ENOTEMPTY;
  }
  event(OP_UNLINK, n, "errno", e, 0);
  if (e) { errno = e; return -1; }
  Node* o = nullptr;   // keeps the orphan alive for open descriptors
  for (auto& pr : W->procs) {
    for (auto& g : pr.fds) {
      if (!g.open || g.node != node) continue;
      if (!o) o = new (shmAlloc(sizeof(Node))) Node(*node);
      g.node = o;
    }
  }
  W->fs.erase(n);
  return 0;
}

static int vrename(const Str& a, const Str& b) {
  Fault* f = decide(OP_RENAME, a);
  int e = 0;
  if (f && f->act == ACT_ERR) e = f->arg;
  Node* na = findNode(a);
  if (!e && !na) e = ENOENT;
  if (!e) e = walk(b);
  if (!e) { Node* par = findNode(parentOf(b)); if (!par) e = ENOENT; else if (par->denyWrite) e = EACCES; }
  Node* nb = findNode(b);
  if (!e && nb && nb->dir && !na->dir) e = EISDIR;
  if (!e && na->dir) e = ENOTSUP;
  event(OP_RENAME, b, "errno", e, 0);
  if (e) { errno = e; return -1; }
  if (a == b) return 0;
  Node t = *na;
  t.changed = 1;
  Node& dst = W->fs[b];
  for (auto& pr : W->procs) {
    for (auto& g : pr.fds) {
      if (g.open && g.node == &dst) { g.node = new (shmAlloc(sizeof(Node))) Node(dst); }
      if (g.open && g.node == na) g.node = &dst;
    }
  }
  dst = t;
  W->fs.erase(a);
  return 0;
}

// A stand-in for the shell: it understands "mkdir -p <words>", and otherwise only records.
static int vsystem(const char* cmd) {
  Str c(cmd ? cmd : "");
  W->shell.push_back(c);
  Fault* f = decide(OP_SYSTEM, "*sh*");
  event(OP_SYSTEM, c, "cmd", 0, 0);
  if (f && f->act == ACT_ERR) { errno = f->arg; return -1; }
  Vec<Str> words;
  Str cur;
  bool in = false;
  for (size_t i = 0; i < c.size(); i++) {
    char ch = c[i];
    if (ch == '\'') {
      size_t j = c.find('\'', i + 1);
      if (j == Str::npos) return 2 << 8;
      cur += c.substr(i + 1, j - i - 1);
      i = j;
      in = true;
    } else if (ch == '"') {
      in = true;
      for (i++; i < c.size() && c[i] != '"'; i++) {
        if (c[i] == '\\' && i + 1 < c.size() && strchr("\"\\$`", c[i + 1])) i++;
        else if (c[i] == '$' || c[i] == '`') note("shell expansion reached the shell");
        cur += c[i];
      }
      if (i >= c.size()) return 2 << 8;
    } else if (ch == '\\' && i + 1 < c.size()) {
      cur += c[++i];
      in = true;
    } else if (ch == ' ' || ch == '\t' || ch == '\n') {
      if (in) { words.push_back(cur); cur.clear(); in = false; }
    } else if (strchr(";|&$`<>()*?[#~", ch)) {
      note("shell metacharacter reached the shell");
      if (strchr(";|&<>()", ch)) { if (in) words.push_back(cur); in = false; break; }
      cur += ch;
      in = true;
    } else {
      cur += ch;
      in = true;
    }
  }
  if (in) words.push_back(cur);
  if (words.empty()) return 0;
  if (words[0] != "mkdir") return 127 << 8;
  int rc = 0;
  bool p = false, opts = true, any = false;
  for (size_t i = 1; i < words.size(); i++) {
    if (opts && words[i] == "--") { opts = false; continue; }
    if (opts && words[i] == "-p") { p = true; continue; }
    if (opts && words[i].size() > 1 && words[i][0] == '-') { rc = 1; continue; }
    any = true;
    Str n = normPath(words[i].c_str());
    if (words[i].empty()) { rc = 1; continue; }
    if (!p) { if (vmkdir(words[i].c_str(), n)) rc = 1; continue; }
    size_t k = 1;
    while (true) {
      size_t j = n.find('/', k);
      Str q = n.substr(0, j == Str::npos ? n.size() : j);
      Node* d = findNode(q);
      if (d && !d->dir) { rc = 1; break; }
      if (!d && vmkdir(q.c_str(), q)) { rc = 1; break; }
      if (j == Str::npos) break;
      k = j + 1;
    }
  }
  if (!any) rc = 1;
  return rc << 8;
}

}  // namespace sim

// =================================================================================================
// The C library's names.

#define EXPORT extern "C" __attribute__((visibility("default")))

REAL(FILE*, fopen, (const char*, const char*))
REAL(DIR*, opendir, (const char*))
REAL(int, stat, (const char*, struct stat*))
REAL(int, lstat, (const char*, struct stat*))
REAL(int, fstat, (int, struct stat*))
REAL(int, fstatat, (int, const char*, struct stat*, int))
REAL(int, fclose, (FILE*))
REAL(int, fileno, (FILE*))
REAL(int, access, (const char*, int))
REAL(char*, getcwd, (char*, size_t))
REAL(char*, realpath, (const char*, char*))
REAL(ssize_t, readlink, (const char*, char*, size_t))
REAL(int, ioctl, (int, unsigned long, void*))
REAL(int, poll, (struct pollfd*, nfds_t, int))
REAL(int, statvfs, (const char*, struct statvfs*))

static int doOpen(const char* path, int flags, mode_t mode) {
  if (gActive && path) {
    Enter e;
    // Neither an exclusive creation nor O_NOFOLLOW follows a link.
    Str n = resolve(path, !(flags & O_NOFOLLOW) && (flags & (O_CREAT | O_EXCL)) != (O_CREAT | O_EXCL));
    if (isVirtual(n)) return vopen(path, n, flags);
    if ((flags & O_ACCMODE) != O_RDONLY) { errno = EACCES; return -1; }
  }
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}

#define OPEN_BODY(call) \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
  } \
  return call;

EXPORT int open(const char* path, int flags, ...) { OPEN_BODY(doOpen(path, flags, mode)) }
EXPORT int open64(const char* path, int flags, ...) { OPEN_BODY(doOpen(path, flags, mode)) }
EXPORT int __open_2(const char* path, int flags) { return doOpen(path, flags, 0); }
EXPORT int __open64_2(const char* path, int flags) { return doOpen(path, flags, 0); }
static int doOpenat(int d, const char* path, int flags, mode_t mode) {
  if (d == AT_FDCWD || (path && path[0] == '/')) return doOpen(path, flags, mode);
  return syscall(SYS_openat, d, path, flags, mode);
}
EXPORT int openat(int d, const char* path, int flags, ...) {
  OPEN_BODY(doOpenat(d, path, flags, mode))
}
EXPORT int openat64(int d, const char* path, int flags, ...) {
  OPEN_BODY(doOpenat(d, path, flags, mode))
}
EXPORT int __openat_2(int d, const char* p, int f) { return doOpenat(d, p, f, 0); }
EXPORT int __openat64_2(int d, const char* p, int f) { return doOpenat(d, p, f, 0); }
EXPORT int creat(const char* p, mode_t m) { return doOpen(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char* p, mode_t m) { return doOpen(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE* doFopen(const char* path, const char* mode) {
  if (gActive && path) {
    Enter e;
    Str n = normPath(path);
    if (isVirtual(n)) {
      int flags = 0;
      bool plus = strchr(mode, '+') != nullptr;
      if (mode[0] == 'r') flags = plus ? O_RDWR : O_RDONLY;
      else if (mode[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
      else flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
      if (strchr(mode, 'x')) flags |= O_EXCL;
      if (flags & O_EXCL) n = resolve(path, false);
      int fd = vopen(path, n, flags);
      if (fd < 0) return nullptr;
      char m[3] = {mode[0], plus ? '+' : '\0', '\0'};
      return vfdopen(fd, m);
    }
    if (mode[0] != 'r' || strchr(mode, '+')) { errno = EACCES; return nullptr; }
  }
  return real_fopen()(path, mode);
}
EXPORT FILE* fopen(const char* p, const char* m) { return doFopen(p, m); }
EXPORT FILE* fopen64(const char* p, const char* m) { return doFopen(p, m); }
EXPORT int fclose(FILE* f) {
  for (auto& m : gFiles) if (f && m.f == f) { m.f = nullptr; }
  return real_fclose()(f);
}
EXPORT int fileno(FILE* f) {
  if (gActive) { int fd = fileFd(f); if (fd >= 0) return fd; }
  return real_fileno()(f);
}
EXPORT int fileno_unlocked(FILE* f) { return fileno(f); }

EXPORT ssize_t read(int fd, void* buf, size_t n) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) return vread(f, buf, n, f->pos, true);
  }
  return syscall(SYS_read, fd, buf, n);
}
EXPORT ssize_t __read_chk(int fd, void* buf, size_t n, size_t) { return read(fd, buf, n); }
EXPORT ssize_t pread64(int fd, void* buf, size_t n, off64_t off) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) return vread(f, buf, n, off, false);
  }
  return syscall(SYS_pread64, fd, buf, n, off);
}
EXPORT ssize_t pread(int fd, void* buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
EXPORT ssize_t __pread64_chk(int fd, void* buf, size_t n, off64_t off, size_t) {
  return pread64(fd, buf, n, off);
}
EXPORT ssize_t __pread_chk(int fd, void* buf, size_t n, off_t off, size_t) {
  return pread64(fd, buf, n, off);
}
EXPORT ssize_t write(int fd, const void* buf, size_t n) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) return vwrite(f, buf, n);
    if (fd == 1 || fd == 2) return devWrite(fd, buf, n);
  }
  return syscall(SYS_write, fd, buf, n);
}
EXPORT ssize_t pwrite64(int fd, const void* buf, size_t n, off64_t off) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) {
      int64_t old = f->pos;
      f->pos = off;
      ssize_t k = vwrite(f, buf, n);
      f->pos = old;
      return k;
    }
  }
  return syscall(SYS_pwrite64, fd, buf, n, off);
}
EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec* iov, int cnt) {
  if (gActive) {
    Enter e;
    Fd* f = getFd(fd);
    if (f || fd == 1 || fd == 2) {
      ssize_t total = 0;
      Str all;
      for (int i = 0; i < cnt; i++) all.append(static_cast<char*>(iov[i].iov_base), iov[i].iov_len);
      total = f ? vwrite(f, all.data(), all.size()) : devWrite(fd, all.data(), all.size());
      return total;
    }
  }
  return syscall(SYS_writev, fd, iov, cnt);
}
EXPORT ssize_t readv(int fd, const struct iovec* iov, int cnt) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) {
      ssize_t total = 0;
      for (int i = 0; i < cnt; i++) {
        ssize_t k = vread(f, iov[i].iov_base, iov[i].iov_len, f->pos, true);
        if (k < 0) return total ? total : -1;
        total += k;
        if (static_cast<size_t>(k) < iov[i].iov_len) break;
      }
      return total;
    }
  }
  return syscall(SYS_readv, fd, iov, cnt);
}
EXPORT off64_t lseek64(int fd, off64_t off, int wh) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) {
      int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : f->node->data.size();
      if (base + off < 0) { errno = EINVAL; return -1; }
      f->pos = base + off;
      event(OP_SEEK, f->path, "pos", f->pos, 0);
      return f->pos;
    }
    if (fd == 1 || fd == 2) { errno = ESPIPE; return -1; }
  }
  return syscall(SYS_lseek, fd, off, wh);
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
EXPORT int close(int fd) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) return vclose(f);
  }
  return syscall(SYS_close, fd);
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (gActive && fd >= FD0) return 0;
  return syscall(SYS_fcntl, fd, cmd, a);
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (gActive && fd >= FD0) return 0;
  return syscall(SYS_fcntl, fd, cmd, a);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) {
      if (req == FIONREAD) {
        int64_t left = static_cast<int64_t>(f->node->data.size()) - f->pos;
        *static_cast<int*>(a) = left > 0 ? left : 0;
        return 0;
      }
      errno = ENOTTY;
      return -1;
    }
    if (fd == 1 || fd == 2) { errno = ENOTTY; return -1; }
  }
  return real_ioctl()(fd, req, a);
}
EXPORT int isatty(int) { errno = ENOTTY; return 0; }
EXPORT int fsync(int fd) {
  if (gActive && fd >= FD0) {
    Enter e;
    Fd* f = getFd(fd);
    Fault* ft = decide(OP_SYNC, f ? f->path : Str("?"));
    event(OP_SYNC, f ? f->path : Str("?"), "sync", 0, 0);
    if (ft && ft->act == ACT_ERR) { errno = ft->arg; return -1; }
    return f ? 0 : -1;
  }
  return 0;
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int ftruncate64(int fd, off64_t len) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) { f->node->data.resize(len, '\0'); f->node->changed = 1; return 0; }
  }
  return syscall(SYS_ftruncate, fd, len);
}
EXPORT int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
EXPORT int truncate(const char* p, off_t len) {
  if (gActive) {
    Enter e;
    Node* n = findNode(normPath(p));
    if (!n || n->dir) { errno = n ? EISDIR : ENOENT; return -1; }
    n->data.resize(len, '\0');
    n->changed = 1;
    return 0;
  }
  errno = EACCES;
  return -1;
}
EXPORT int truncate64(const char* p, off64_t len) { return truncate(p, len); }

#define STAT_BODY(follow, realcall) \
  if (gActive && path) { \
    Enter e; \
    Str n = resolve(path, (follow) || (*path && path[strlen(path) - 1] == '/')); \
    if (isVirtual(n)) return vstat(path, n, reinterpret_cast<struct stat*>(st)); \
  } \
  return realcall;
EXPORT int stat(const char* path, struct stat* st) { STAT_BODY(true, real_stat()(path, st)) }
EXPORT int lstat(const char* path, struct stat* st) { STAT_BODY(false, real_lstat()(path, st)) }
EXPORT int stat64(const char* path, struct stat64* st) {
  STAT_BODY(true, real_stat()(path, reinterpret_cast<struct stat*>(st)))
}
EXPORT int lstat64(const char* path, struct stat64* st) {
  STAT_BODY(false, real_lstat()(path, reinterpret_cast<struct stat*>(st)))
}
EXPORT int fstat(int fd, struct stat* st) {
  if (gActive) {
    Enter e;
    if (Fd* f = getFd(fd)) {
      Fault* ft = decide(OP_STAT, f->path);
      event(OP_STAT, f->path, "fd", 0, 0);
      if (ft && ft->act == ACT_ERR) { errno = ft->arg; return -1; }
      fillStat(st, f->node);
      return 0;
    }
    if (fd == 1 || fd == 2) { memset(st, 0, sizeof(*st)); st->st_mode = S_IFIFO | 0600; return 0; }
  }
  return real_fstat()(fd, st);
}
EXPORT int fstat64(int fd, struct stat64* st) {
  return fstat(fd, reinterpret_cast<struct stat*>(st));
}
EXPORT int fstatat(int d, const char* path, struct stat* st, int fl) {
  STAT_BODY(!(fl & AT_SYMLINK_NOFOLLOW), real_fstatat()(d, path, st, fl))
}
EXPORT int fstatat64(int d, const char* path, struct stat64* st, int fl) {
  STAT_BODY(!(fl & AT_SYMLINK_NOFOLLOW), real_fstatat()(d, path, reinterpret_cast<struct stat*>(st), fl))
}
EXPORT int access(const char* path, int mode) {
  if (gActive && path) {
    Enter e;
    Str n = normPath(path);
    if (isVirtual(n)) {
      struct stat st;
      if (vstat(path, n, &st)) return -1;
      if ((mode & W_OK) && !(st.st_mode & 0200)) { errno = EACCES; return -1; }
      if ((mode & R_OK) && !(st.st_mode & 0400)) { errno = EACCES; return -1; }
      return 0;
    }
  }
  return real_access()(path, mode);
}
EXPORT int faccessat(int, const char* path, int mode, int) { return access(path, mode); }
EXPORT int mkdir(const char* path, mode_t) {
  if (gActive && path) {
    Enter e;
    Str n = resolve(path, false);
    if (isVirtual(n)) return vmkdir(path, n);
  }
  errno = EACCES;
  return -1;
}
EXPORT int mkdirat(int, const char* path, mode_t m) { return mkdir(path, m); }
EXPORT int rename(const char* a, const char* b) {
  if (gActive) {
    Enter e;
    Str na = resolve(a, false), nb = resolve(b, false);
    if (isVirtual(na) && isVirtual(nb)) return vrename(na, nb);
  }
  errno = EACCES;
  return -1;
}
EXPORT int renameat(int, const char* a, int, const char* b) { return rename(a, b); }
static int doUnlink(const char* p, bool dir) {
  if (gActive) {
    Enter e;
    Str n = resolve(p, false);
    if (isVirtual(n)) return vunlink(n, dir);
  }
  errno = EACCES;
  return -1;
}
EXPORT int unlink(const char* p) { return doUnlink(p, false); }
EXPORT int rmdir(const char* p) { return doUnlink(p, true); }
EXPORT int unlinkat(int, const char* p, int f) { return doUnlink(p, (f & AT_REMOVEDIR) != 0); }
EXPORT int remove(const char* p) {
  if (gActive) {
    Enter e;
    Node* n = findNode(resolve(p, false));
    return doUnlink(p, n && n->dir);
  }
  errno = EACCES;
  return -1;
}
EXPORT int chmod(const char*, mode_t) { if (gActive) return 0; errno = EPERM; return -1; }
EXPORT int fchmod(int, mode_t) { if (gActive) return 0; errno = EPERM; return -1; }
EXPORT int chdir(const char* p) {
  if (gActive) {
    Enter e;
    Str n = normPath(p);
    Node* d = findNode(n);
    if (!d) { errno = ENOENT; return -1; }
    W->cwd = n;
    return 0;
  }
  return syscall(SYS_chdir, p);
}
EXPORT char* getcwd(char* buf, size_t n) {
  if (!gActive) return real_getcwd()(buf, n);
  size_t len = W->cwd.size() + 1;
  if (!buf) { buf = static_cast<char*>(malloc(n > len ? n : len)); n = n > len ? n : len; }
  if (len > n) { errno = ERANGE; return nullptr; }
  memcpy(buf, W->cwd.c_str(), len);
  return buf;
}
EXPORT char* realpath(const char* p, char* out) {
  if (gActive && p) {
    Str n;
    bool ok;
    {
      Enter e;
      n = normPath(p);
      if (!isVirtual(n)) { ok = false; }
      else {
        struct stat st;
        if (vstat(p, n, &st)) return nullptr;
        ok = true;
      }
    }
    if (ok) {
      if (!out) out = static_cast<char*>(malloc(PATH_MAX));
      memcpy(out, n.c_str(), n.size() + 1);
      return out;
    }
  }
  return real_realpath()(p, out);
}
EXPORT ssize_t readlink(const char* p, char* b, size_t n) {
  if (gActive) {
    Enter e;
    Str m = resolve(p, false);
    if (isVirtual(m)) {
      Node* l = findNode(m);
      if (!l || !l->link) { errno = l ? EINVAL : ENOENT; return -1; }
      size_t k = l->data.size() < n ? l->data.size() : n;
      memcpy(b, l->data.data(), k);
      return k;
    }
  }
  return real_readlink()(p, b, n);
}
EXPORT int symlink(const char* to, const char* p) {
  if (gActive) {
    Enter e;
    Str m = resolve(p, false);
    Node* par = findNode(parentOf(m));
    if (findNode(m)) { errno = EEXIST; return -1; }
    if (!par || !isVirtual(m)) { errno = ENOENT; return -1; }
    Node& l = W->fs[m];
    l.data = to;
    l.link = l.changed = W->links = 1;
    l.ino = ++W->ino;
    return 0;
  }
  errno = EACCES;
  return -1;
}
EXPORT int symlinkat(const char* to, int, const char* p) { return symlink(to, p); }
EXPORT int link(const char*, const char*) { errno = EPERM; return -1; }
EXPORT int linkat(int, const char*, int, const char*, int) { errno = EPERM; return -1; }
EXPORT DIR* opendir(const char* p) {
  if (gActive) {
    Enter e;
    Str m = normPath(p);
    if (isVirtual(m)) { errno = findNode(m) ? EACCES : ENOENT; return nullptr; }
  }
  return real_opendir()(p);
}
EXPORT int statvfs(const char* p, struct statvfs* s) {
  if (gActive) {
    memset(s, 0, sizeof(*s));
    s->f_bsize = s->f_frsize = 4096;
    s->f_blocks = 1 << 20;
    s->f_bfree = s->f_bavail = W->cap >= 0 ? W->cap / 4096 : 1 << 19;
    return 0;
  }
  return real_statvfs()(p, s);
}
EXPORT int system(const char* c) {
  if (gActive) { Enter e; return vsystem(c); }
  errno = EAGAIN;
  return -1;
}
EXPORT FILE* popen(const char* c, const char*) {
  if (gActive) { Enter e; W->shell.push_back(Str(c)); event(OP_SYSTEM, c, "popen", 0, 0); }
  errno = EAGAIN;
  return nullptr;
}
static int doMkstemp(char* t, int suf, int flags) {
  if (gActive) {
    Enter e;
    size_t n = strlen(t);
    if (n < 6u + suf) { errno = EINVAL; return -1; }
    char* x = t + n - suf - 6;
    static int ctr = 0;
    for (int i = 0; i < 100; i++) {
      int c = ctr++ + W->pid;
      for (int k = 0; k < 6; k++) { x[k] = 'a' + c % 26; c /= 26; }
      Str m = normPath(t);
      if (!findNode(m)) return vopen(t, m, O_RDWR | O_CREAT | O_EXCL | flags);
    }
  }
  errno = EEXIST;
  return -1;
}
EXPORT int mkstemp(char* t) { return doMkstemp(t, 0, 0); }
EXPORT int mkstemp64(char* t) { return doMkstemp(t, 0, 0); }
EXPORT int mkostemp(char* t, int f) { return doMkstemp(t, 0, f & O_APPEND); }
EXPORT int mkostemp64(char* t, int f) { return doMkstemp(t, 0, f & O_APPEND); }
EXPORT int mkstemps(char* t, int s) { return doMkstemp(t, s, 0); }
EXPORT FILE* fdopen(int fd, const char* mode) {
  if (gActive) {
    Enter e;
    if (getFd(fd)) return vfdopen(fd, mode);
  }
  static FILE* (*rf)(int, const char*) =
    reinterpret_cast<FILE* (*)(int, const char*)>(dlsym(RTLD_NEXT, "fdopen"));
  return rf(fd, mode);
}
