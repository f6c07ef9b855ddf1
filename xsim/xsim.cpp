// xsim: deterministic single-host simulator for a tree of real x86-64 Linux processes.
//
// Every simulated process is a real (statically linked) program whose instructions run natively
// under ptrace, but the "kernel" it talks to is this program: every system call is stopped at
// entry (PTRACE_SYSEMU), one process is released at a time, and files, descriptors, pipes,
// processes, signals, clock and randomness are modelled in memory.  Only memory management,
// execve/clone of real binaries and TLS setup reach the real kernel.  A request (one JSON line)
// fixes everything: the run is a pure function of it.
//
// Protocol: one JSON object per line on stdin, one JSON object per line on stdout.
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include <dirent.h>
#include <elf.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#include <nlohmann/json.hpp>

#ifndef PTRACE_SYSEMU
#define PTRACE_SYSEMU 31
#define PTRACE_SYSEMU_SINGLESTEP 32
#endif

using json = nlohmann::json;
using std::string;
using std::vector;
using std::shared_ptr;
using std::make_shared;
typedef int64_t i64;
typedef uint64_t u64;

// ---------------------------------------------------------------- utilities
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string b64enc(const string &s) {
  string o;
  o.reserve((s.size() + 2) / 3 * 4);
  size_t i = 0;
  for (; i + 2 < s.size(); i += 3) {
    unsigned v = ((unsigned char)s[i] << 16) | ((unsigned char)s[i + 1] << 8) | (unsigned char)s[i + 2];
    o += B64[v >> 18]; o += B64[(v >> 12) & 63]; o += B64[(v >> 6) & 63]; o += B64[v & 63];
  }
  if (i + 1 == s.size()) {
    unsigned v = (unsigned char)s[i] << 16;
    o += B64[v >> 18]; o += B64[(v >> 12) & 63]; o += "==";
  } else if (i + 2 == s.size()) {
    unsigned v = ((unsigned char)s[i] << 16) | ((unsigned char)s[i + 1] << 8);
    o += B64[v >> 18]; o += B64[(v >> 12) & 63]; o += B64[(v >> 6) & 63]; o += '=';
  }
  return o;
}
static string b64dec(const string &s) {
  static int t[256];
  static bool init = false;
  if (!init) { for (int i = 0; i < 256; ++i) t[i] = -1; for (int i = 0; i < 64; ++i) t[(int)B64[i]] = i; init = true; }
  string o;
  unsigned v = 0; int b = 0;
  for (unsigned char c : s) {
    if (t[c] < 0) continue;
    v = (v << 6) | t[c]; b += 6;
    if (b >= 8) { b -= 8; o += (char)((v >> b) & 255); }
  }
  return o;
}
static u64 fnv(const string &s, u64 h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
static u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
// 128-bit content hash (two independent 64-bit mixes over 8-byte words), hex.
static string chash(const string &s) {
  u64 a = 0x1234567 + s.size(), b = 0x9876543 ^ s.size();
  size_t i = 0;
  for (; i + 8 <= s.size(); i += 8) {
    u64 w; memcpy(&w, s.data() + i, 8);
    a = mix(a ^ w); b = (b ^ w) * 0x9ddfea08eb382d69ull; b ^= b >> 29;
  }
  u64 w = 0; memcpy(&w, s.data() + i, s.size() - i);
  a = mix(a ^ w); b = mix((b ^ w) * 0x9ddfea08eb382d69ull);
  char buf[40]; snprintf(buf, sizeof buf, "%016lx%016lx", (unsigned long)a, (unsigned long)b);
  return buf;
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(mix(seed ^ 0xabcdef)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
};
[[noreturn]] static void die(const string &m) {
  fprintf(stderr, "xsim: %s (errno %d)\n", m.c_str(), errno);
  _exit(3);
}

// ---------------------------------------------------------------- virtual file system
enum NT { REG, DIR_, CHR, LNK, FIFO };
struct Pipe;
struct Node {
  NT t = REG;
  int mode = 0644;
  u64 ino = 0;
  int dev = 0;                 // CHR: 'n' null, 'z' zero, 'f' full, 't' tty
  shared_ptr<string> data;     // REG: content (copy on write), LNK: target
  int fdno = -1;               // inherited real descriptor for executing, while unmodified
  const string &get() const { static const string e; return data ? *data : e; }
  string &mut() {
    if (!data) data = make_shared<string>();
    else if (data.use_count() > 1) data = make_shared<string>(*data);
    fdno = -1;
    return *data;
  }
};
typedef shared_ptr<Node> NodeP;
typedef std::map<string, NodeP> Tree;

struct Pipe {
  string buf; size_t off = 0;
  int readers = 0, writers = 0;
  size_t cap = 65536;
  size_t avail() const { return buf.size() - off; }
  size_t space() const { return avail() >= cap ? 0 : cap - avail(); }
};
enum OK { O_NODE, O_PIPER, O_PIPEW, O_SINK, O_SRC };
struct OpenFile {
  OK k; NodeP node; string path; u64 pos = 0; int flags = 0;
  shared_ptr<Pipe> pipe;
  shared_ptr<string> sink; char skind = 'p';   // sink/source flavour: p pipe, t tty, r regular
  shared_ptr<string> src; size_t srcpos = 0;
  bool control = false;
  ~OpenFile() { if (pipe) { if (k == O_PIPER) --pipe->readers; if (k == O_PIPEW) --pipe->writers; } }
};
typedef shared_ptr<OpenFile> FileP;
struct Fd { FileP f; bool cloexec = false; };
typedef std::map<int, Fd> FdTab;

static string normpath(const string &cwd, const string &p) {
  string full = (!p.empty() && p[0] == '/') ? p : cwd + "/" + p;
  vector<string> parts;
  size_t i = 0;
  while (i < full.size()) {
    size_t j = full.find('/', i);
    if (j == string::npos) j = full.size();
    string c = full.substr(i, j - i);
    if (c == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!c.empty() && c != ".") parts.push_back(c);
    i = j + 1;
  }
  string r;
  for (auto &c : parts) r += "/" + c;
  return r.empty() ? "/" : r;
}
static string parentof(const string &p) {
  size_t k = p.rfind('/');
  return k == 0 || k == string::npos ? "/" : p.substr(0, k);
}

static Tree g_base;                 // base image, shared by all runs
static vector<int> g_execfds;

// ---------------------------------------------------------------- simulation state
struct Fault { string kind; i64 val = 0; bool used = false; };
struct Rule { string op; string path; i64 after = 0; i64 count = -1; string kind; i64 val = 0; i64 seen = 0; string lin; };

struct Proc {
  int vpid = 0, rpid = 0, ppid = 0, pgid = 0;
  string lin; int order = 0; int root = 0;
  int nchild = 0;
  shared_ptr<FdTab> fds;
  string cwd = "/";
  int umask_ = 022;
  NodeP xnode; int xfd = -1;         // program made inside the simulation, and its descriptor in the real process
  bool starting = false;            // forked child not yet resumed
  user_regs_struct regs{};
  u64 n = 0;                        // index of the pending system call
  u64 wprog = 0;                    // progress of a blocked pipe write
  bool dead = false, reaped = false, dying = false;
  bool idx_assigned = false;
  bool inEmu = false;               // parked in a SYSEMU entry stop (its exit stop is still to come)
  int dieSig = 0;
  int wstatus = 0;
  int vforkParent = 0;              // vpid of the parent that waits for our exec/exit
  bool vforkBlocked = false;
  bool sharedMem = false;
  std::map<int, std::pair<u64, vector<char>>> sig;  // signo -> handler
  std::deque<int> pendsig;
  u64 mem = 0, brk0 = 0, brkcur = 0;
  bool brkInit = false, mmapInit = false;
  string exe;
  json argv;
  u64 deathStep = 0;
  u64 cpuSteps = 0;
};

struct Sim {
  // configuration
  u64 seed = 0;
  string schedMode = "default"; int pSwitch = 200;    // per mille
  std::map<u64, string> choices;                      // explicit schedule: step -> lineage
  std::map<std::pair<string, u64>, vector<Fault>> faults;
  vector<Rule> rules;
  int pShortR = 0, pShortW = 0;                       // per mille
  i64 diskLeft = -1; i64 memLimit = -1; int fdLimit = 1024;
  i64 pipeCap = 65536;
  int pScribble = 0; int scribbleBytes = 4096;
  int pStep = 0; u64 stepMax = 0; int stepBytes = 512; u64 stepFrom = 0;
  u64 brkShift = 0, mmapShift = 0;
  u64 maxSteps = 200000;
  i64 crashStep = -1;
  u64 clock0 = 1700000000ull, clockStepNs = 1000;
  string randMode = "seed";
  bool wantTrace = false, wantData = false;
  bool killDelay = false;
  int vpidBase = 1000;
  size_t inlineLimit = 0;
  // state
  Tree ov; u64 nextIno = 1000;
  vector<shared_ptr<Proc>> procs;
  u64 step = 0; u64 clockNs = 0;
  Rng rs, rmisc;
  u64 nrand = 0;
  Proc *cur = nullptr;
  json trace = json::array();
  json fired = json::array();
  json chosen = json::array();
  json events = json::array();
  std::map<string, int> faultCount;
  std::set<string> unknown;
  std::map<string, string> mutated;     // path -> op list
  u64 hSched = 0, hTrace = 0;
  u64 nSched = 0, multi = 0;
  u64 scribbles = 0, steps1 = 0;
  u64 shortr = 0, shortw = 0;
  bool crashed = false;
  string outcome = "ok";

  // -------- file system
  NodeP lookup(const string &path) {
    auto it = ov.find(path);
    if (it != ov.end()) return it->second;
    auto b = g_base.find(path);
    return b == g_base.end() ? nullptr : b->second;
  }
  NodeP own(const string &path) {       // run-local node
    auto it = ov.find(path);
    if (it != ov.end()) return it->second;
    auto b = g_base.find(path);
    if (b == g_base.end()) return nullptr;
    auto n = make_shared<Node>(*b->second);
    ov[path] = n;
    return n;
  }
  bool hasChildren(const string &path) {
    string pre = path == "/" ? "/" : path + "/";
    for (auto *t : {&ov, &g_base})
      for (auto it = t->lower_bound(pre); it != t->end() && it->first.compare(0, pre.size(), pre) == 0; ++it)
        if (lookup(it->first)) return true;
    return false;
  }
  void mark(const string &path, const char *op) {
    auto &m = mutated[path];
    if (m.find(op) == string::npos) m += string(m.empty() ? "" : ",") + op;
  }
  // Resolve to a canonical path; follows symbolic links. Returns -errno or 0.
  int resolve(const string &cwd, const string &raw, bool follow, string &out) {
    if (raw.empty()) return -ENOENT;
    if (raw.size() > 4095) return -ENAMETOOLONG;
    string p = normpath(cwd, raw);
    for (int depth = 0; depth < 20; ++depth) {
      // check the ancestors
      size_t i = 1; bool again = false;
      while ((i = p.find('/', i)) != string::npos) {
        string a = p.substr(0, i);
        NodeP n = lookup(a);
        if (!n) return -ENOENT;
        if (n->t == LNK) { p = normpath(parentof(a), n->get() + "/" + p.substr(i)); again = true; break; }
        if (n->t != DIR_) return -ENOTDIR;
        ++i;
      }
      if (again) continue;
      if (p.size() - p.rfind('/') - 1 > 255) return -ENAMETOOLONG;
      NodeP n = lookup(p);
      if (n && n->t == LNK && follow) { p = normpath(parentof(p), n->get()); continue; }
      out = p;
      if (raw.size() > 1 && raw.back() == '/' && n && n->t != DIR_) return -ENOTDIR;
      return 0;
    }
    return -ELOOP;
  }
  int parentCheck(const string &p) {
    NodeP d = lookup(parentof(p));
    if (!d) return -ENOENT;
    if (d->t != DIR_) return -ENOTDIR;
    return 0;
  }

  // -------- tracee memory
  bool rd(Proc &p, u64 addr, void *buf, size_t len) {
    if (!len) return true;
    iovec l{buf, len}, r{(void *)addr, len};
    return process_vm_readv(p.rpid, &l, 1, &r, 1, 0) == (ssize_t)len;
  }
  bool wr(Proc &p, u64 addr, const void *buf, size_t len) {
    if (!len) return true;
    iovec l{(void *)buf, len}, r{(void *)addr, len};
    return process_vm_writev(p.rpid, &l, 1, &r, 1, 0) == (ssize_t)len;
  }
  int rdstr(Proc &p, u64 addr, string &out) {
    out.clear();
    if (!addr) return -EFAULT;
    char buf[256];
    for (;;) {
      size_t chunk = 256 - (addr & 255);
      iovec l{buf, chunk}, r{(void *)addr, chunk};
      ssize_t k = process_vm_readv(p.rpid, &l, 1, &r, 1, 0);
      if (k <= 0) return -EFAULT;
      for (ssize_t i = 0; i < k; ++i) { if (!buf[i]) return 0; out += buf[i]; }
      addr += k;
      if (out.size() > 100000) return -ENAMETOOLONG;
    }
  }
  // -------- running tracees
  void getregs(Proc &p) { if (ptrace(PTRACE_GETREGS, p.rpid, 0, &p.regs)) die("getregs"); }
  void setregs(Proc &p) { if (ptrace(PTRACE_SETREGS, p.rpid, 0, &p.regs)) die("setregs"); }

  void scribble(Proc &p, int bytes, u64 r) {
    u64 top = p.regs.rsp - 128;
    u64 lo = top - bytes;
    vector<unsigned char> junk(bytes);
    Rng g(r);
    for (int i = 0; i < bytes; i += 8) { u64 v = g.next(); memcpy(&junk[i], &v, std::min(8, bytes - i)); }
    vector<iovec> rem;
    u64 e = top;
    while (e > lo) {
      u64 s = std::max<u64>(lo, (e - 1) & ~4095ull);
      rem.push_back({(void *)s, (size_t)(e - s)});
      e = s;
    }
    iovec l{junk.data(), (size_t)bytes};
    process_vm_writev(p.rpid, &l, 1, rem.data(), std::min<size_t>(rem.size(), 512), 0);  // partial is fine
    ++scribbles;
  }

  void realKill(Proc &p) {
    if (p.rpid <= 0) return;
    kill(p.rpid, SIGKILL);
    int st;
    while (true) {
      int r = waitpid(p.rpid, &st, __WALL);
      if (r < 0) { if (errno == EINTR) continue; break; }
      if (WIFEXITED(st) || WIFSIGNALED(st)) break;
    }
    p.rpid = -1;
  }
  void procDie(Proc &p, int wstatus) {
    if (p.dead) return;
    realKill(p);
    p.dead = true; p.dying = false;
    p.wstatus = wstatus;
    p.deathStep = step;
    p.fds.reset();
    if (p.vforkParent) { for (auto &q : procs) if (q->vpid == p.vforkParent) q->vforkBlocked = false; p.vforkParent = 0; }
    for (auto &q : procs) if (q->ppid == p.vpid) { q->ppid = 1; if (q->dead) q->reaped = true; }
    if (p.ppid == 1) p.reaped = true;
    if (wantTrace) {
      trace.push_back({p.lin, (i64)p.n, "!die", wstatus});
    }
    hTrace = mix(hTrace ^ fnv(p.lin) ^ (u64)wstatus);
    if (p.order == p.root) {
      json alive = json::array();
      for (auto &q : procs) if (q->root == p.root && !q->dead && !q->dying) alive.push_back(q->lin);
      events.push_back({{"ev", "rootexit"}, {"lin", p.lin}, {"step", step}, {"alive", alive}});
    }
  }
  void sigDeliver(Proc &t, int sig) {     // a signal reaches process t
    if (t.dead) return;
    auto it = t.sig.find(sig);
    u64 h = it == t.sig.end() ? 0 : it->second.first;
    if (sig != SIGKILL && sig != SIGSTOP) {
      if (h == 1) return;                                  // SIG_IGN
      if (h > 1) { t.pendsig.push_back(sig); return; }
      if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT) return;
    }
    if (killDelay && !t.dying && &t != cur) { t.dying = true; t.dieSig = sig; return; }
    procDie(t, sig);
  }

  // Resume until the next point of interest. Leaves p parked at a syscall entry or dead.
  void resume(Proc &p, int sig = 0) {
    for (;;) {
      if (sig == 0 && !p.pendsig.empty()) { sig = p.pendsig.front(); p.pendsig.pop_front(); }
      bool stepping = pStep > 0 && steps1 < stepMax;
      if (ptrace((__ptrace_request)(stepping ? PTRACE_SYSEMU_SINGLESTEP : PTRACE_SYSEMU), p.rpid, 0, (void *)(long)sig)) {
        die("resume");
      }
      sig = 0;
      int st;
      int r = waitpid(p.rpid, &st, __WALL);
      if (r < 0) { if (errno == EINTR) continue; die("waitpid"); }
      if (WIFEXITED(st) || WIFSIGNALED(st)) { p.rpid = -1; procDie(p, st); return; }
      int s = WSTOPSIG(st);
      if (s == (SIGTRAP | 0x80)) { getregs(p); p.idx_assigned = false; p.wprog = 0; p.inEmu = true; return; }
      if (st >> 16) continue;   // stray ptrace event
      if (s == SIGTRAP && stepping) {
        ++steps1;
        if (steps1 >= stepFrom && (int)(mix(seed ^ (steps1 * 7919)) % 1000) < pStep) {
          getregs(p);
          scribble(p, stepBytes, seed ^ steps1);
        }
        continue;
      }
      if (s == SIGXCPU) { events.push_back({{"ev", "cpuhang"}, {"lin", p.lin}}); outcome = "cpuhang"; procDie(p, SIGKILL); return; }
      if (s == SIGSEGV || s == SIGBUS || s == SIGFPE || s == SIGILL || s == SIGABRT || s == SIGTRAP || s == SIGSYS) {
        auto it = p.sig.find(s);
        if (it != p.sig.end() && it->second.first > 1) { sig = s; continue; }
        getregs(p);
        events.push_back({{"ev", "fatal"}, {"lin", p.lin}, {"sig", s}, {"rip", p.regs.rip}});
        procDie(p, s); return;
      }
      // SIGCHLD, SIGSTOP, ...: not ours
    }
  }
  void finish(Proc &p, i64 ret) {          // complete the pending call and run on
    p.regs.rax = (u64)ret;
    if (ptrace(PTRACE_POKEUSER, p.rpid, (void *)offsetof(user_regs_struct, rax), (void *)ret)) die("pokeuser");
    ++p.n;
    if (pScribble && (int)(mix(seed ^ fnv(p.lin) ^ (p.n * 31)) % 1000) < pScribble) scribble(p, scribbleBytes, seed ^ p.n);
    resume(p);
  }
  // Execute a system call for real in the tracee; returns its result; leaves it in exit-stop.
  i64 passthru(Proc &p, long nr, u64 a0, u64 a1, u64 a2, u64 a3, u64 a4, u64 a5, int *childPid = nullptr, bool *didExec = nullptr) {
    user_regs_struct save = p.regs;
    user_regs_struct r = p.regs;
    r.rip -= 2; r.rax = nr; r.rdi = a0; r.rsi = a1; r.rdx = a2; r.r10 = a3; r.r8 = a4; r.r9 = a5;
    if (ptrace(PTRACE_SETREGS, p.rpid, 0, &r)) die("setregs/passthru");
    int phase = p.inEmu ? -1 : 0;
    p.inEmu = false;
    for (;;) {
      if (ptrace(PTRACE_SYSCALL, p.rpid, 0, 0)) die("ptrace syscall");
      int st;
      while (waitpid(p.rpid, &st, __WALL) < 0) if (errno != EINTR) die("waitpid/passthru");
      if (WIFEXITED(st) || WIFSIGNALED(st)) { p.rpid = -1; procDie(p, st); return 0; }
      int s = WSTOPSIG(st), ev = st >> 16;
      if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_CLONE || ev == PTRACE_EVENT_VFORK) {
        unsigned long msg; ptrace(PTRACE_GETEVENTMSG, p.rpid, 0, &msg);
        if (childPid) *childPid = (int)msg;
        continue;
      }
      if (ev == PTRACE_EVENT_EXEC) { if (didExec) *didExec = true; continue; }
      if (s == (SIGTRAP | 0x80)) { if (++phase == 2) break; continue; }
      // other signals (SIGCHLD etc.) are dropped
    }
    user_regs_struct q;
    if (ptrace(PTRACE_GETREGS, p.rpid, 0, &q)) die("getregs/passthru");
    i64 ret = (i64)q.rax;
    if (didExec && *didExec) { p.regs = q; return ret; }
    // restore the argument registers as the kernel would have left them
    save.fs_base = q.fs_base; save.gs_base = q.gs_base;
    q = save;
    q.rax = ret;
    p.regs = q;
    if (ptrace(PTRACE_SETREGS, p.rpid, 0, &q)) die("setregs/passthru2");
    return ret;
  }

  void fixAuxv(Proc &p) {
    getregs(p);
    u64 sp = p.regs.rsp;
    u64 w;
    auto word = [&](u64 a) { u64 v = 0; if (!rd(p, a, &v, 8)) die("auxv read"); return v; };
    u64 argc = word(sp); sp += 8 + (argc + 1) * 8;
    while (word(sp)) sp += 8;
    sp += 8;
    for (;; sp += 16) {
      w = word(sp);
      if (w == AT_NULL) break;
      if (w == AT_SYSINFO_EHDR) { u64 ig = AT_IGNORE; wr(p, sp, &ig, 8); }
      if (w == AT_RANDOM) {
        u64 a = word(sp + 8);
        u64 r[2] = {mix(seed ^ 1), mix(seed ^ 2)};
        wr(p, a, r, 16);
      }
    }
    p.brkInit = p.mmapInit = false; p.mem = 0;
    if (pScribble) scribble(p, 65536, seed ^ 77);
  }

  // -------- fd helpers
  int lowfd(Proc &p, int from = 0) {
    int i = from;
    while (p.fds->count(i)) ++i;
    return i >= fdLimit ? -EMFILE : i;
  }
  FileP getf(Proc &p, i64 fd) {
    auto it = p.fds->find((int)fd);
    return it == p.fds->end() ? nullptr : it->second.f;
  }

  void fillStat(struct stat &s, const OpenFile *f, const Node *n) {
    memset(&s, 0, sizeof s);
    s.st_dev = 1; s.st_nlink = 1; s.st_blksize = 4096;
    if (n) {
      s.st_ino = n->ino ? n->ino : (fnv("x") & 0xffff);
      switch (n->t) {
        case REG: s.st_mode = S_IFREG | n->mode; s.st_size = n->get().size(); s.st_blocks = (s.st_size + 511) / 512; break;
        case DIR_: s.st_mode = S_IFDIR | n->mode; s.st_size = 4096; s.st_nlink = 2; break;
        case CHR: s.st_mode = S_IFCHR | n->mode; s.st_rdev = n->dev == 'n' ? makedev_(1, 3) : makedev_(5, 0); break;
        case LNK: s.st_mode = S_IFLNK | 0777; s.st_size = n->get().size(); break;
        case FIFO: s.st_mode = S_IFIFO | n->mode; break;
      }
    } else if (f) {
      if (f->k == O_PIPER || f->k == O_PIPEW) s.st_mode = S_IFIFO | 0600;
      else if (f->skind == 't') { s.st_mode = S_IFCHR | 0620; s.st_rdev = makedev_(136, 0); s.st_blksize = 1024; }
      else if (f->skind == 'r') { s.st_mode = S_IFREG | 0644; s.st_size = f->sink ? f->sink->size() : f->src->size(); }
      else s.st_mode = S_IFIFO | 0600;
      s.st_ino = 7;
    }
    s.st_mtim.tv_sec = clock0; s.st_atim = s.st_mtim; s.st_ctim = s.st_mtim;
  }
  static dev_t makedev_(unsigned ma, unsigned mi) { return ((dev_t)ma << 8) | mi; }

  static const char *kindOf(const OpenFile *f) {
    if (!f) return "-";
    switch (f->k) {
      case O_NODE: switch (f->node->t) { case REG: return "reg"; case DIR_: return "dir"; case CHR: return "chr"; default: return "oth"; }
      case O_PIPER: return "pipe"; case O_PIPEW: return "pipe";
      case O_SINK: return f->skind == 't' ? "tty" : f->skind == 'r' ? "reg" : "sink";
      case O_SRC: return f->skind == 't' ? "tty" : f->skind == 'r' ? "reg" : "src";
    }
    return "?";
  }
  // for tracing and rules: what does the pending call act on?
  struct What { string name; string path; string kind; i64 fd = -1; i64 len = -1; };

  static const char *sysname(long nr) {
    switch (nr) {
#define N(x) case SYS_##x: return #x;
      N(read) N(write) N(readv) N(writev) N(pread64) N(pwrite64) N(open) N(openat) N(creat) N(close) N(stat) N(lstat) N(fstat)
      N(newfstatat) N(statx) N(lseek) N(access) N(faccessat) N(faccessat2) N(dup) N(dup2) N(dup3) N(pipe) N(pipe2) N(fcntl) N(ioctl)
      N(unlink) N(unlinkat) N(rename) N(renameat) N(renameat2) N(mkdir) N(mkdirat) N(rmdir) N(chdir) N(fchdir) N(chmod) N(fchmod)
      N(fchmodat) N(getcwd) N(ftruncate) N(truncate) N(umask) N(link) N(linkat) N(symlink) N(symlinkat) N(readlink) N(readlinkat)
      N(getdents64) N(fork) N(vfork) N(clone) N(clone3) N(execve) N(execveat) N(wait4) N(waitid) N(kill) N(tkill) N(tgkill)
      N(getpid) N(gettid) N(getppid) N(getpgrp) N(getpgid) N(setpgid) N(setsid) N(getuid) N(geteuid) N(getgid) N(getegid)
      N(exit) N(exit_group) N(rt_sigaction) N(rt_sigprocmask) N(rt_sigreturn) N(sigaltstack) N(nanosleep) N(clock_nanosleep)
      N(clock_gettime) N(clock_getres) N(gettimeofday) N(time) N(times) N(getrusage) N(getrandom) N(uname) N(sysinfo) N(prlimit64)
      N(getrlimit) N(setrlimit) N(sched_yield) N(sched_getaffinity) N(futex) N(set_tid_address) N(set_robust_list) N(rseq)
      N(arch_prctl) N(prctl) N(fsync) N(fdatasync) N(sync) N(fadvise64) N(utimensat) N(fallocate) N(copy_file_range) N(sendfile)
      N(poll) N(select) N(flock) N(brk) N(mmap) N(munmap) N(mprotect) N(mremap) N(madvise) N(pause) N(alarm) N(fchown) N(chown)
      N(getxattr) N(statfs) N(fstatfs) N(fchmodat2) N(close_range) N(pselect6) N(ppoll) N(mknod) N(fchownat) N(lchown)
#undef N
    }
    return nullptr;
  }
  What what(Proc &p) {
    What w;
    long nr = (long)p.regs.orig_rax;
    const char *nm = sysname(nr);
    w.name = nm ? nm : "sys_" + std::to_string(nr);
    auto path = [&](u64 a, int dirfd) { string s; if (rdstr(p, a, s) == 0) { string o; string base = p.cwd; (void)dirfd; w.path = s.empty() ? "" : normpath(base, s); (void)o; } };
    switch (nr) {
      case SYS_read: case SYS_write: case SYS_readv: case SYS_writev: case SYS_pread64: case SYS_pwrite64:
        w.len = (i64)p.regs.rdx; [[fallthrough]];
      case SYS_close: case SYS_fstat: case SYS_lseek: case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_fcntl: case SYS_ioctl:
      case SYS_ftruncate: case SYS_fchmod: case SYS_fsync: case SYS_fdatasync: case SYS_getdents64: {
        w.fd = (i64)(int)p.regs.rdi;
        FileP f = getf(p, w.fd);
        w.kind = kindOf(f.get());
        if (f) w.path = f->path;
        break;
      }
      case SYS_open: case SYS_creat: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_unlink: case SYS_mkdir: case SYS_rmdir:
      case SYS_chdir: case SYS_chmod: case SYS_rename: case SYS_execve: case SYS_readlink: case SYS_truncate:
        path(p.regs.rdi, -100); break;
      case SYS_openat: case SYS_newfstatat: case SYS_faccessat: case SYS_faccessat2: case SYS_unlinkat: case SYS_mkdirat:
      case SYS_fchmodat: case SYS_renameat: case SYS_renameat2: case SYS_readlinkat: case SYS_statx: {
        path(p.regs.rsi, (int)p.regs.rdi);
        if (w.path.empty()) { w.fd = (i64)(int)p.regs.rdi; FileP f = getf(p, w.fd); w.kind = kindOf(f.get()); if (f) w.path = f->path; }
        break;
      }
    }
    return w;
  }

  // -------- system calls. Result: true = completed with *ret; false = would block.
  string rnd(u64 len) {
    string s(len, 0);
    for (u64 i = 0; i < len; ++i) {
      if (randMode == "const") s[i] = 0x41;
      else if (randMode == "collide") s[i] = (char)mix(seed ^ 0xdada ^ ((nrand / 3) * 131 + i));
      else if (randMode == "two") s[i] = (char)((nrand / 64) % 2 ? 3 : 5);
      else s[i] = (char)mix(seed ^ 0xdada ^ (nrand * 131 + i));
    }
    ++nrand;
    return s;
  }
  bool doRead(Proc &p, FileP f, u64 addr, u64 len, i64 lim, i64 off, i64 *ret) {
    if ((f->flags & O_ACCMODE) == O_WRONLY) { *ret = -EBADF; return true; }
    if (len > 0x7ffff000) len = 0x7ffff000;
    if (lim >= 0 && (u64)lim < len) len = lim;
    string tmp;
    switch (f->k) {
      case O_NODE: {
        Node &n = *f->node;
        if (n.t == DIR_) { *ret = -EISDIR; return true; }
        if (n.t == CHR) { if (n.dev == 'z') { tmp.assign(len, 0); } else if (n.dev == 'u') tmp = rnd(std::min<u64>(len, 256)); break; }
        const string &d = n.get();
        u64 pos = off >= 0 ? off : f->pos;
        if (pos < d.size()) tmp = d.substr(pos, len);
        if (!tmp.empty() && !wr(p, addr, tmp.data(), tmp.size())) { *ret = -EFAULT; return true; }
        if (off < 0) f->pos += tmp.size();
        *ret = tmp.size(); return true;
      }
      case O_PIPER: {
        if (off >= 0) { *ret = -ESPIPE; return true; }
        Pipe &q = *f->pipe;
        if (q.avail() == 0) {
          if (q.writers == 0 || len == 0) { *ret = 0; return true; }
          if (f->flags & O_NONBLOCK) { *ret = -EAGAIN; return true; }
          return false;
        }
        tmp = q.buf.substr(q.off, std::min<u64>(len, q.avail()));
        if (!wr(p, addr, tmp.data(), tmp.size())) { *ret = -EFAULT; return true; }
        q.off += tmp.size();
        if (q.off == q.buf.size()) { q.buf.clear(); q.off = 0; }
        else if (q.off > 1 << 20) { q.buf.erase(0, q.off); q.off = 0; }
        *ret = tmp.size(); return true;
      }
      case O_SRC: {
        if (off >= 0 && f->skind != 'r') { *ret = -ESPIPE; return true; }
        const string &d = *f->src;
        if (f->skind == 'i' && f->srcpos >= d.size() && len) return false;   // idle: the writer outside says nothing more and stays
        if (f->srcpos < d.size()) {
          u64 k = std::min<u64>(len, d.size() - f->srcpos);
          if (f->skind == 't') { size_t nl = d.find('\n', f->srcpos); if (nl != string::npos) k = std::min<u64>(k, nl + 1 - f->srcpos); }
          tmp = d.substr(f->srcpos, k);
        }
        if (!tmp.empty() && !wr(p, addr, tmp.data(), tmp.size())) { *ret = -EFAULT; return true; }
        f->srcpos += tmp.size();
        *ret = tmp.size(); return true;
      }
      default: *ret = -EBADF; return true;
    }
    if (!tmp.empty() && !wr(p, addr, tmp.data(), tmp.size())) { *ret = -EFAULT; return true; }
    *ret = tmp.size();
    return true;
  }
  bool doWrite(Proc &p, FileP f, u64 addr, u64 len, i64 lim, i64 off, i64 *ret) {
    if ((f->flags & O_ACCMODE) == O_RDONLY) { *ret = -EBADF; return true; }
    if (len > 0x7ffff000) len = 0x7ffff000;
    u64 full = len;
    if (lim >= 0 && (u64)lim < len) len = lim;
    string tmp(len, 0);
    if (len && !rd(p, addr, &tmp[0], len)) { *ret = -EFAULT; return true; }
    (void)full;
    switch (f->k) {
      case O_NODE: {
        Node &n = *f->node;
        if (n.t == DIR_) { *ret = -EISDIR; return true; }
        if (n.t == CHR) { *ret = n.dev == 'f' ? -ENOSPC : (i64)len; return true; }
        if (diskLeft >= 0) {
          u64 pos = (f->flags & O_APPEND) ? n.get().size() : off >= 0 ? (u64)off : f->pos;
          u64 end = pos + len, sz = n.get().size();
          u64 need = end > sz ? end - sz : 0;
          if (need > (u64)diskLeft) {
            u64 cut = need - diskLeft;
            if (cut >= len) { fire(p, "enospc", 0); *ret = -ENOSPC; return true; }
            len -= cut; tmp.resize(len); fire(p, "enospc_short", len);
            need = diskLeft;
          }
          diskLeft -= need;
        }
        string &d = n.mut();
        u64 pos = (f->flags & O_APPEND) ? d.size() : off >= 0 ? (u64)off : f->pos;
        if (pos + len > (1ull << 28)) { *ret = -EFBIG; return true; }
        if (len && d.size() < pos + len) d.resize(pos + len);
        memcpy(&d[pos], tmp.data(), len);
        if (off < 0) f->pos = pos + len;
        mark(f->path, "write");
        if (wantData) trace.push_back({p.lin, (i64)p.n, "!data", f->path, b64enc(tmp), (i64)pos});
        *ret = len; return true;
      }
      case O_PIPEW: {
        Pipe &q = *f->pipe;
        if (q.readers == 0) {
          if (p.wprog) { *ret = p.wprog; return true; }
          *ret = -EPIPE;
          auto it = p.sig.find(SIGPIPE);
          if (it == p.sig.end() || it->second.first == 0) { procDie(p, SIGPIPE); return true; }
          if (it->second.first > 1) p.pendsig.push_back(SIGPIPE);
          return true;
        }
        u64 rest = len - p.wprog;
        // a write of at most PIPE_BUF bytes is atomic
        if (len <= 4096 && q.space() < len && q.avail() > 0) { if (f->flags & O_NONBLOCK) { *ret = -EAGAIN; return true; } return false; }
        u64 k = std::min<u64>(rest, q.space());
        if (len <= 4096) k = rest;
        q.buf.append(tmp, p.wprog, k);
        p.wprog += k;
        if (p.wprog == len) { *ret = len; return true; }
        if (f->flags & O_NONBLOCK) { *ret = p.wprog ? (i64)p.wprog : -EAGAIN; return true; }
        return false;
      }
      case O_SINK:
        if (f->sink->size() + len > (64u << 20)) { *ret = -ENOSPC; return true; }
        f->sink->append(tmp);
        if (f->control && wantTrace) trace.push_back({p.lin, (i64)p.n, "!log", b64enc(tmp)});
        else if (wantData) trace.push_back({p.lin, (i64)p.n, "!data", f->path, b64enc(tmp), -1});
        *ret = len; return true;
      default: *ret = -EBADF; return true;
    }
  }

  void fire(Proc &p, const string &kind, i64 val) {
    faultCount[kind]++;
    if (fired.size() < 20000 || kind != "short") {
      const char *nm = sysname((long)p.regs.orig_rax);
      fired.push_back({{"p", p.lin}, {"n", p.n}, {"kind", kind}, {"val", val}, {"sys", nm ? nm : "?"}});
    }
  }

  i64 doOpen(Proc &p, int dirfd, u64 pathAddr, int flags, int mode) {
    string raw; int e = rdstr(p, pathAddr, raw);
    if (e) return e;
    string base = p.cwd;
    if (dirfd != AT_FDCWD && (raw.empty() || raw[0] != '/')) {
      FileP d = getf(p, dirfd);
      if (!d) return -EBADF;
      if (d->k != O_NODE || d->node->t != DIR_) return -ENOTDIR;
      base = d->path;
    }
    int fd = lowfd(p);
    string path;
    bool excl = (flags & O_CREAT) && (flags & O_EXCL);
    e = resolve(base, raw, !(excl || (flags & O_NOFOLLOW)), path);
    if (e) return e;
    if (fd < 0) return fd;
    NodeP n = lookup(path);
    if (!n) {
      if (!(flags & O_CREAT)) return -ENOENT;
      if (raw.back() == '/') return -EISDIR;
      if ((e = parentCheck(path))) return e;
      n = make_shared<Node>();
      n->t = REG; n->mode = mode & 07777 & ~p.umask_; n->ino = nextIno++; n->data = make_shared<string>();
      ov[path] = n;
      mark(path, "create");
    } else {
      if (excl) return -EEXIST;
      n = own(path);
      if (!n->ino) n->ino = nextIno++;
      if (n->t == LNK) return -ELOOP;
      if (n->t == DIR_) { if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) return -EISDIR; }
      else if (flags & O_DIRECTORY) return -ENOTDIR;
      if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && n->t == REG) {
        if (diskLeft >= 0) diskLeft += n->get().size();
        n->mut().clear(); mark(path, "trunc");
      }
    }
    if ((flags & 020000000) == 020000000) {}  // O_TMPFILE bits include O_DIRECTORY; handled as error above
    auto f = make_shared<OpenFile>();
    f->k = O_NODE; f->node = n; f->path = path; f->flags = flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC);
    (*p.fds)[fd] = {f, (flags & O_CLOEXEC) != 0};
    return fd;
  }
  i64 doStat(Proc &p, int dirfd, u64 pathAddr, u64 buf, int flags, bool x) {
    string raw; int e = rdstr(p, pathAddr, raw);
    if (e && !(flags & AT_EMPTY_PATH)) return e;
    struct stat s;
    if (raw.empty() && (flags & AT_EMPTY_PATH)) {
      if (dirfd == AT_FDCWD) fillStat(s, nullptr, own(p.cwd).get());
      else {
        FileP f = getf(p, dirfd);
        if (!f) return -EBADF;
        fillStat(s, f.get(), f->node.get());
      }
    } else {
      string base = p.cwd;
      if (dirfd != AT_FDCWD && raw[0] != '/') { FileP d = getf(p, dirfd); if (!d) return -EBADF; base = d->path; }
      string path;
      if ((e = resolve(base, raw, !(flags & AT_SYMLINK_NOFOLLOW), path))) return e;
      NodeP n = own(path);
      if (!n) return -ENOENT;
      if (!n->ino) n->ino = nextIno++;
      fillStat(s, nullptr, n.get());
    }
    if (x) {
      struct statx sx; memset(&sx, 0, sizeof sx);
      sx.stx_mask = STATX_BASIC_STATS; sx.stx_blksize = 4096; sx.stx_nlink = s.st_nlink; sx.stx_mode = s.st_mode; sx.stx_ino = s.st_ino;
      sx.stx_size = s.st_size; sx.stx_blocks = s.st_blocks; sx.stx_mtime.tv_sec = clock0; sx.stx_rdev_major = s.st_rdev >> 8; sx.stx_rdev_minor = s.st_rdev & 255; sx.stx_dev_minor = 1;
      return wr(p, buf, &sx, sizeof sx) ? 0 : -EFAULT;
    }
    return wr(p, buf, &s, sizeof s) ? 0 : -EFAULT;
  }
  i64 resolveAt(Proc &p, int dirfd, u64 addr, bool follow, string &path) {
    string raw; int e = rdstr(p, addr, raw);
    if (e) return e;
    string base = p.cwd;
    if (dirfd != AT_FDCWD && !(raw.size() && raw[0] == '/')) { FileP d = getf(p, dirfd); if (!d) return -EBADF; base = d->path; }
    return resolve(base, raw, follow, path);
  }
  i64 doUnlink(Proc &p, int dirfd, u64 addr, bool dir) {
    string path; i64 e = resolveAt(p, dirfd, addr, false, path);
    if (e) return e;
    NodeP n = lookup(path);
    if (!n) return -ENOENT;
    if (dir) {
      if (n->t != DIR_) return -ENOTDIR;
      if (hasChildren(path)) return -ENOTEMPTY;
    } else if (n->t == DIR_) return -EISDIR;
    if (n->t == REG && diskLeft >= 0) diskLeft += n->get().size();
    ov[path] = nullptr;
    mark(path, dir ? "rmdir" : "unlink");
    return 0;
  }
  i64 doRename(Proc &p, int d1, u64 a1, int d2, u64 a2, int flags) {
    string s, d; i64 e = resolveAt(p, d1, a1, false, s); if (e) return e;
    e = resolveAt(p, d2, a2, false, d); if (e) return e;
    NodeP n = own(s);
    if (!n) return -ENOENT;
    if ((e = parentCheck(d))) return e;
    NodeP t = lookup(d);
    if (t && (flags & 1)) return -EEXIST;
    if (t && t->t == DIR_ && n->t != DIR_) return -EISDIR;
    if (t && n->t == DIR_ && t->t != DIR_) return -ENOTDIR;
    if (n->t == DIR_) return -EXDEV;   // directory renames are not modelled
    if (s == d) return 0;
    ov[d] = n; ov[s] = nullptr;
    mark(s, "rename-from"); mark(d, "rename-to");
    return 0;
  }
  i64 doMkdir(Proc &p, int dirfd, u64 addr, int mode) {
    string path; i64 e = resolveAt(p, dirfd, addr, false, path);
    if (e) return e;
    if (lookup(path)) return -EEXIST;
    if ((e = parentCheck(path))) return e;
    auto n = make_shared<Node>();
    n->t = DIR_; n->mode = mode & 0777 & ~p.umask_; n->ino = nextIno++;
    ov[path] = n; mark(path, "mkdir");
    return 0;
  }
  i64 doChmod(Proc &p, int dirfd, u64 addr, int mode) {
    string path; i64 e = resolveAt(p, dirfd, addr, true, path);
    if (e) return e;
    NodeP n = own(path);
    if (!n) return -ENOENT;
    n->mode = mode & 07777;
    mark(path, "chmod");
    return 0;
  }

  Proc *byPid(int v) { for (auto &q : procs) if (q->vpid == v) return q.get(); return nullptr; }

  bool doWait(Proc &p, i64 pid, u64 stAddr, int opts, i64 *ret) {
    vector<Proc *> z; bool any = false;
    for (auto &q : procs) {
      if (q->ppid != p.vpid || q->reaped) continue;
      if (pid > 0 && q->vpid != pid) continue;
      if (pid == 0 && q->pgid != p.pgid) continue;
      if (pid < -1 && q->pgid != -pid) continue;
      any = true;
      if (q->dead) z.push_back(q.get());
    }
    if (!any) { *ret = -ECHILD; return true; }
    if (z.empty()) { if (opts & WNOHANG) { *ret = 0; return true; } return false; }
    std::sort(z.begin(), z.end(), [](Proc *a, Proc *b) { return a->deathStep != b->deathStep ? a->deathStep < b->deathStep : a->order < b->order; });
    size_t k = 0;
    if (z.size() > 1 && schedMode != "default" && schedMode != "list") k = mix(seed ^ 0x5151 ^ step) % z.size();
    auto ch = choices.find(1000000000ull + step);
    if (ch != choices.end()) for (size_t i = 0; i < z.size(); ++i) if (z[i]->lin == ch->second) k = i;
    if (k) chosen.push_back({1000000000ull + step, z[k]->lin});
    Proc *c = z[k];
    int st = c->wstatus;
    if (stAddr && !wr(p, stAddr, &st, 4)) { *ret = -EFAULT; return true; }
    c->reaped = true;
    *ret = c->vpid;
    return true;
  }

  i64 doFork(Proc &p, u64 flags, u64 stack, u64 ctid, u64 ptid, u64 tls) {
    if (flags & CLONE_THREAD) return -EAGAIN;
    int child = 0;
    u64 keep = flags & (CLONE_VM | CLONE_SETTLS);
    bool vf = (flags & CLONE_VFORK) != 0;
    i64 r = passthru(p, SYS_clone, keep | CLONE_PARENT | SIGCHLD, stack, 0, 0, tls, 0, &child);
    if (p.dead) return 0;
    if (r < 0) { unknown.insert("real-fork-failed"); return r; }
    // the child reports a SIGSTOP
    int st;
    while (waitpid(child, &st, __WALL) < 0) if (errno != EINTR) die("wait child");
    if (WIFEXITED(st) || WIFSIGNALED(st)) die("forked child died");
    auto c = make_shared<Proc>();
    c->rpid = child; c->vpid = vpidBase + (int)procs.size() * 3 + 1; c->ppid = p.vpid; c->pgid = p.pgid;
    c->lin = p.lin + "." + std::to_string(p.nchild++);
    c->order = procs.size(); c->root = p.root;
    c->fds = make_shared<FdTab>(*p.fds);
    c->cwd = p.cwd; c->umask_ = p.umask_; c->sig = p.sig; c->exe = p.exe; c->argv = p.argv;
    c->mem = p.mem; c->brk0 = p.brk0; c->brkcur = p.brkcur; c->brkInit = p.brkInit; c->mmapInit = p.mmapInit;
    c->starting = true;
    getregs(*c);
    if (flags & CLONE_CHILD_SETTID) { int t = c->vpid; wr(*c, ctid, &t, 4); }
    if (flags & CLONE_PARENT_SETTID) { int t = c->vpid; wr(p, ptid, &t, 4); }
    if (vf) { p.vforkBlocked = true; c->vforkParent = p.vpid; }
    procs.push_back(c);
    hTrace = mix(hTrace ^ fnv(c->lin));
    return c->vpid;
  }

  // returns <0 error; on success the process is in exit-stop of execve with new image
  i64 doExec(Proc &p, u64 pathAddr, u64 argv, u64 envp) {
    string raw; int e = rdstr(p, pathAddr, raw);
    if (e) return e;
    string path;
    if ((e = resolve(p.cwd, raw, true, path))) return e;
    NodeP n = lookup(path);
    if (!n) return -ENOENT;
    if (n->t != REG || !(n->mode & 0111)) return -EACCES;
    int xfd = n->fdno < 0 && n == p.xnode ? p.xfd : n->fdno;
    if (xfd < 0) return -ENOEXEC;
    json av = json::array();
    for (int i = 0; i < 200; ++i) { u64 a = 0; if (!rd(p, argv + 8 * i, &a, 8) || !a) break; string s; rdstr(p, a, s); av.push_back(b64enc(s)); }
    bool ex = false;
    bool wasVm = p.vforkParent != 0;
    i64 r = passthru(p, SYS_execveat, xfd, pathAddr + raw.size(), argv, envp, AT_EMPTY_PATH, 0, nullptr, &ex);
    if (p.dead) return 0;
    if (!ex) { unknown.insert("real-exec-failed:" + std::to_string(r)); return r; }
    (void)wasVm;
    if (p.vforkParent) { Proc *q = byPid(p.vforkParent); if (q) q->vforkBlocked = false; p.vforkParent = 0; }
    p.exe = path; p.argv = av;
    for (auto it = p.fds->begin(); it != p.fds->end();) if (it->second.cloexec) it = p.fds->erase(it); else ++it;
    for (auto it = p.sig.begin(); it != p.sig.end();) if (it->second.first > 1) it = p.sig.erase(it); else ++it;
    fixAuxv(p);
    return 0;
  }

  bool memFail(Proc &p, u64 more) {
    if (memLimit >= 0 && (i64)(p.mem + more) > memLimit) { fire(p, "memlimit", (i64)more); return true; }
    return false;
  }
  i64 doBrk(Proc &p, u64 addr) {
    if (!p.brkInit) {
      i64 b = passthru(p, SYS_brk, 0, 0, 0, 0, 0, 0);
      if (brkShift) b = passthru(p, SYS_brk, b + brkShift, 0, 0, 0, 0, 0);
      p.brk0 = p.brkcur = b; p.brkInit = true;
    }
    if (addr == 0 || addr < p.brk0) return p.brkcur;
    if (addr > p.brkcur && (memFail(p, addr - p.brkcur) || addr - p.brk0 > (1ull << 31))) return p.brkcur;
    i64 r = passthru(p, SYS_brk, addr, 0, 0, 0, 0, 0);
    if ((u64)r == addr) { p.mem += addr - p.brkcur; p.brkcur = addr; }
    return p.brkcur;
  }

  i64 clockNow() { return clock0 * 1000000000ull + clockNs; }

  // Execute the pending call of p. ret valid if completed and p alive. Returns: 0 block, 1 completed (resume with ret),
  // 2 process gone, 3 completed and already resumable without touching rax
  int syscall(Proc &p, i64 lim, i64 *ret) {
    auto &r = p.regs;
    u64 a = r.rdi, b = r.rsi, c = r.rdx, d = r.r10;
    long nr = (long)r.orig_rax;
    *ret = 0;
    switch (nr) {
      case SYS_read: { FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; } return doRead(p, f, b, c, lim, -1, ret); }
      case SYS_pread64: { FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; } if ((i64)d < 0) { *ret = -EINVAL; return 1; } return doRead(p, f, b, c, lim, d, ret); }
      case SYS_write: { FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; } bool k = doWrite(p, f, b, c, lim, -1, ret); return p.dead ? 2 : k; }
      case SYS_pwrite64: { FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; } if (f->k != O_NODE) { *ret = -ESPIPE; return 1; } bool k = doWrite(p, f, b, c, lim, d, ret); return p.dead ? 2 : k; }
      case SYS_readv: case SYS_writev: {
        FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; }
        if (c > 1024) { *ret = -EINVAL; return 1; }
        vector<iovec> v(c);
        if (c && !rd(p, b, v.data(), c * sizeof(iovec))) { *ret = -EFAULT; return 1; }
        // Performed as a prefix: the first non-empty vectors, one after another, as far as they do not block.
        i64 tot = 0;
        u64 skip = nr == SYS_writev ? p.wprog : 0;
        (void)skip;
        u64 saved = p.wprog; p.wprog = 0;
        for (u64 i = 0; i < c; ++i) {
          if (v[i].iov_len == 0) continue;
          i64 l2 = lim < 0 ? -1 : lim - tot;
          if (lim >= 0 && l2 <= 0) break;
          i64 k = 0;
          bool done = nr == SYS_readv ? doRead(p, f, (u64)v[i].iov_base, v[i].iov_len, l2, -1, &k)
                                      : doWrite(p, f, (u64)v[i].iov_base, v[i].iov_len, l2, -1, &k);
          if (p.dead) return 2;
          if (!done) {
            if (nr == SYS_writev && p.wprog) { tot += p.wprog; break; }   // short
            if (tot == 0) { p.wprog = 0; return 0; }
            break;
          }
          p.wprog = 0;
          if (k < 0) { if (tot == 0) tot = k; break; }
          tot += k;
          if ((u64)k < v[i].iov_len) break;
        }
        (void)saved;
        *ret = tot; return 1;
      }
      case SYS_open: *ret = doOpen(p, AT_FDCWD, a, (int)b, (int)c); return 1;
      case SYS_creat: *ret = doOpen(p, AT_FDCWD, a, O_WRONLY | O_CREAT | O_TRUNC, (int)b); return 1;
      case SYS_openat: *ret = doOpen(p, (int)a, b, (int)c, (int)d); return 1;
      case SYS_close: *ret = p.fds->erase((int)a) ? 0 : -EBADF; return 1;
      case SYS_close_range: { for (auto it = p.fds->begin(); it != p.fds->end();) if ((u64)it->first >= a && (u64)it->first <= b && !it->second.f->control) it = p.fds->erase(it); else ++it; return 1; }
      case SYS_stat: *ret = doStat(p, AT_FDCWD, a, b, 0, false); return 1;
      case SYS_lstat: *ret = doStat(p, AT_FDCWD, a, b, AT_SYMLINK_NOFOLLOW, false); return 1;
      case SYS_newfstatat: *ret = doStat(p, (int)a, b, c, (int)d, false); return 1;
      case SYS_statx: *ret = doStat(p, (int)a, b, r.r8, (int)c, true); return 1;
      case SYS_fstat: {
        FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; }
        struct stat s; if (f->node && !f->node->ino) f->node->ino = nextIno++;
        fillStat(s, f.get(), f->node.get());
        *ret = wr(p, b, &s, sizeof s) ? 0 : -EFAULT; return 1;
      }
      case SYS_lseek: {
        FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; }
        u64 size, *pos; static u64 dummy;
        if (f->k == O_NODE) {
          if (f->node->t == CHR) { *ret = f->node->dev == 't' ? -ESPIPE : 0; return 1; }
          size = f->node->get().size(); pos = &f->pos;
        } else if (f->k == O_SRC && f->skind == 'r') { size = f->src->size(); dummy = f->srcpos; pos = &dummy; }
        else { *ret = -ESPIPE; return 1; }
        i64 np;
        switch ((int)c) { case SEEK_SET: np = (i64)b; break; case SEEK_CUR: np = (i64)*pos + (i64)b; break; case SEEK_END: np = (i64)size + (i64)b; break; default: *ret = -EINVAL; return 1; }
        if (np < 0) { *ret = -EINVAL; return 1; }
        if (f->k == O_SRC) f->srcpos = np; else *pos = np;
        *ret = np; return 1;
      }
      case SYS_access: { string path; *ret = resolveAt(p, AT_FDCWD, a, true, path); if (*ret == 0) { NodeP n = lookup(path); if (!n) *ret = -ENOENT; else if ((b & 1) && n->t == REG && !(n->mode & 0111)) *ret = -EACCES; } return 1; }
      case SYS_faccessat: case SYS_faccessat2: { string path; *ret = resolveAt(p, (int)a, b, true, path); if (*ret == 0) { NodeP n = lookup(path); if (!n) *ret = -ENOENT; else if ((c & 1) && n->t == REG && !(n->mode & 0111)) *ret = -EACCES; } return 1; }
      case SYS_dup: { FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; } int fd = lowfd(p); if (fd >= 0) (*p.fds)[fd] = {f, false}; *ret = fd; return 1; }
      case SYS_dup2: case SYS_dup3: {
        FileP f = getf(p, a); if (!f || (int)b < 0 || (int)b >= fdLimit) { *ret = -EBADF; return 1; }
        if (a == b) { *ret = nr == SYS_dup3 ? -EINVAL : (i64)b; return 1; }
        (*p.fds)[(int)b] = {f, nr == SYS_dup3 && (c & O_CLOEXEC)}; *ret = (int)b; return 1;
      }
      case SYS_pipe: case SYS_pipe2: {
        int x = lowfd(p); if (x < 0) { *ret = x; return 1; }
        int y = lowfd(p, x + 1); if (y < 0) { *ret = y; return 1; }
        int fl = nr == SYS_pipe2 ? (int)b : 0;
        auto q = make_shared<Pipe>();
        q->cap = pipeCap > 0 ? pipeCap : 4096 * (1 + mix(seed ^ (0x77 + nextIno)) % 16);
        nextIno++;
        auto fr = make_shared<OpenFile>(), fw = make_shared<OpenFile>();
        fr->k = O_PIPER; fr->pipe = q; fr->flags = O_RDONLY | (fl & O_NONBLOCK); q->readers++;
        fw->k = O_PIPEW; fw->pipe = q; fw->flags = O_WRONLY | (fl & O_NONBLOCK); q->writers++;
        int v[2] = {x, y};
        if (!wr(p, a, v, 8)) { *ret = -EFAULT; return 1; }
        (*p.fds)[x] = {fr, (fl & O_CLOEXEC) != 0}; (*p.fds)[y] = {fw, (fl & O_CLOEXEC) != 0};
        return 1;
      }
      case SYS_fcntl: {
        FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; }
        switch ((int)b) {
          case F_DUPFD: case F_DUPFD_CLOEXEC: { int fd = lowfd(p, (int)c); if (fd >= 0) (*p.fds)[fd] = {f, (int)b == F_DUPFD_CLOEXEC}; *ret = fd; break; }
          case F_GETFD: *ret = (*p.fds)[(int)a].cloexec ? 1 : 0; break;
          case F_SETFD: (*p.fds)[(int)a].cloexec = c & 1; break;
          case F_GETFL: *ret = f->flags; break;
          case F_SETFL: f->flags = (f->flags & ~(O_APPEND | O_NONBLOCK)) | (c & (O_APPEND | O_NONBLOCK)); break;
          case 1032: *ret = f->pipe ? (i64)f->pipe->cap : -EBADF; break;   // F_GETPIPE_SZ
          case 1031: *ret = f->pipe ? (i64)(f->pipe->cap = std::max<u64>(4096, c)) : -EBADF; break;
          default: *ret = -EINVAL;
        }
        return 1;
      }
      case SYS_ioctl: {
        FileP f = getf(p, a); if (!f) { *ret = -EBADF; return 1; }
        bool tty = f->skind == 't' || (f->k == O_NODE && f->node->t == CHR && f->node->dev == 't');
        if (tty && b == 0x5413) { unsigned short ws[4] = {24, 80, 0, 0}; *ret = wr(p, c, ws, 8) ? 0 : -EFAULT; }
        else if (tty && b == 0x5401) { char t[36] = {0}; *ret = wr(p, c, t, 36) ? 0 : -EFAULT; }
        else if (tty && b == 0x5405) { char t[18] = {0}; *ret = wr(p, c, t, 18) ? 0 : -EFAULT; }
        else *ret = -ENOTTY;
        return 1;
      }
      case SYS_unlink: *ret = doUnlink(p, AT_FDCWD, a, false); return 1;
      case SYS_rmdir: *ret = doUnlink(p, AT_FDCWD, a, true); return 1;
      case SYS_unlinkat: if (c & ~(u64)AT_REMOVEDIR) *ret = -EINVAL; else *ret = doUnlink(p, (int)a, b, (c & AT_REMOVEDIR) != 0); return 1;
      case SYS_rename: *ret = doRename(p, AT_FDCWD, a, AT_FDCWD, b, 0); return 1;
      case SYS_renameat: *ret = doRename(p, (int)a, b, (int)c, d, 0); return 1;
      case SYS_renameat2: *ret = doRename(p, (int)a, b, (int)c, d, (int)r.r8); return 1;
      case SYS_mkdir: *ret = doMkdir(p, AT_FDCWD, a, (int)b); return 1;
      case SYS_mkdirat: *ret = doMkdir(p, (int)a, b, (int)c); return 1;
      case SYS_chdir: { string path; *ret = resolveAt(p, AT_FDCWD, a, true, path); if (*ret == 0) { NodeP n = lookup(path); if (!n) *ret = -ENOENT; else if (n->t != DIR_) *ret = -ENOTDIR; else p.cwd = path; } return 1; }
      case SYS_fchdir: { FileP f = getf(p, a); if (!f) *ret = -EBADF; else if (f->k != O_NODE || f->node->t != DIR_) *ret = -ENOTDIR; else p.cwd = f->path; return 1; }
      case SYS_chmod: *ret = doChmod(p, AT_FDCWD, a, (int)b); return 1;
      case SYS_fchmodat: case SYS_fchmodat2: *ret = doChmod(p, (int)a, b, (int)c); return 1;
      case SYS_fchmod: { FileP f = getf(p, a); if (!f) *ret = -EBADF; else if (f->node) { f->node->mode = b & 07777; mark(f->path, "chmod"); } return 1; }
      case SYS_chown: case SYS_fchown: case SYS_fchownat: case SYS_lchown: return 1;
      case SYS_getcwd: { u64 need = p.cwd.size() + 1; if (b < need) { *ret = -ERANGE; return 1; } *ret = wr(p, a, p.cwd.c_str(), need) ? (i64)need : -EFAULT; return 1; }
      case SYS_ftruncate: { FileP f = getf(p, a); if (!f) *ret = -EBADF; else if (f->k != O_NODE || f->node->t != REG || (f->flags & O_ACCMODE) == O_RDONLY) *ret = -EINVAL; else { f->node->mut().resize(b); mark(f->path, "trunc"); } return 1; }
      case SYS_truncate: { string path; *ret = resolveAt(p, AT_FDCWD, a, true, path); if (*ret == 0) { NodeP n = own(path); if (!n) *ret = -ENOENT; else { n->mut().resize(b); mark(path, "trunc"); } } return 1; }
      case SYS_umask: *ret = p.umask_; p.umask_ = a & 0777; return 1;
      case SYS_link: case SYS_linkat: {
        string s, t; bool at = nr == SYS_linkat;
        *ret = resolveAt(p, at ? (int)a : AT_FDCWD, at ? b : a, false, s); if (*ret) return 1;
        *ret = resolveAt(p, at ? (int)c : AT_FDCWD, at ? d : b, false, t); if (*ret) return 1;
        NodeP n = own(s); if (!n) { *ret = -ENOENT; return 1; }
        if (lookup(t)) { *ret = -EEXIST; return 1; }
        if ((*ret = parentCheck(t))) return 1;
        ov[t] = n; mark(t, "link"); return 1;
      }
      case SYS_symlink: case SYS_symlinkat: {
        string tgt, t; int e = rdstr(p, a, tgt); if (e) { *ret = e; return 1; }
        *ret = nr == SYS_symlink ? resolveAt(p, AT_FDCWD, b, false, t) : resolveAt(p, (int)b, c, false, t); if (*ret) return 1;
        if (lookup(t)) { *ret = -EEXIST; return 1; }
        if ((*ret = parentCheck(t))) return 1;
        auto n = make_shared<Node>(); n->t = LNK; n->data = make_shared<string>(tgt); n->ino = nextIno++; ov[t] = n; mark(t, "symlink"); return 1;
      }
      case SYS_readlink: case SYS_readlinkat: {
        string path; bool at = nr == SYS_readlinkat;
        *ret = resolveAt(p, at ? (int)a : AT_FDCWD, at ? b : a, false, path); if (*ret) return 1;
        if (path == "/proc/self/exe") { string e = p.exe; u64 cap = at ? d : c; u64 k = std::min<u64>(cap, e.size()); *ret = wr(p, at ? c : b, e.data(), k) ? (i64)k : -EFAULT; return 1; }
        NodeP n = lookup(path); if (!n) { *ret = -ENOENT; return 1; }
        if (n->t != LNK) { *ret = -EINVAL; return 1; }
        u64 k = std::min<u64>(at ? d : c, n->get().size());
        *ret = wr(p, at ? c : b, n->get().data(), k) ? (i64)k : -EFAULT; return 1;
      }
      case SYS_fork: { i64 k = doFork(p, 0, 0, 0, 0, 0); if (p.dead) return 2; *ret = k; return 1; }
      case SYS_vfork: { i64 k = doFork(p, CLONE_VM | CLONE_VFORK, 0, 0, 0, 0); if (p.dead) return 2; *ret = k; return 1; }
      case SYS_clone: { i64 k = doFork(p, a, b, d, c, r.r8); if (p.dead) return 2; *ret = k; return 1; }
      case SYS_clone3: {
        u64 ca[11] = {0};
        if (b < 64 || !rd(p, a, ca, std::min<u64>(b, sizeof ca))) { *ret = -EINVAL; return 1; }
        i64 k = doFork(p, ca[0], ca[5] ? ca[5] + ca[6] : 0, ca[2], ca[3], ca[7]); if (p.dead) return 2; *ret = k; return 1;
      }
      case SYS_execve: { i64 k = doExec(p, a, b, c); if (p.dead) return 2; *ret = k; return k == 0 ? 3 : 1; }
      case SYS_wait4: return doWait(p, (int)a, b, (int)c, ret);
      case SYS_waitid: {
        i64 pid = a == 1 ? (i64)(int)b : a == 2 ? -(i64)(int)b : -1;
        i64 k = 0;
        if (!doWait(p, pid, 0, (int)d, &k)) return 0;
        if (k < 0) { *ret = k; return 1; }
        int si[32]; memset(si, 0, sizeof si);
        if (k > 0) { Proc *q = byPid((int)k); si[0] = SIGCHLD; int ws = q->wstatus; si[2] = WIFEXITED(ws) ? 1 : 2; si[3] = q->vpid; si[5] = WIFEXITED(ws) ? WEXITSTATUS(ws) : WTERMSIG(ws); if (d & WNOWAIT) q->reaped = false; }
        if (c && !wr(p, c, si, 128)) { *ret = -EFAULT; return 1; }
        return 1;
      }
      case SYS_kill: {
        int pid = (int)a, sig = (int)b;
        if (sig < 0 || sig > 64) { *ret = -EINVAL; return 1; }
        vector<Proc *> t;
        for (auto &q : procs) {
          if (q->dead && q->reaped) continue;
          if (pid > 0 ? q->vpid == pid : pid == 0 ? q->pgid == p.pgid : pid == -1 ? q->vpid != p.vpid : q->pgid == -pid) t.push_back(q.get());
        }
        events.push_back({{"ev", "kill"}, {"lin", p.lin}, {"pid", pid}, {"sig", sig}, {"targets", (int)t.size()}});
        if (t.empty()) { *ret = -ESRCH; return 1; }
        if (sig) for (auto *q : t) { if (q == &p) { cur = &p; } sigDeliver(*q, sig); }
        return p.dead ? 2 : 1;
      }
      case SYS_tkill: case SYS_tgkill: {
        int sig = nr == SYS_tkill ? (int)b : (int)c;
        sigDeliver(p, sig);
        return p.dead ? 2 : 1;
      }
      case SYS_getpid: case SYS_gettid: *ret = p.vpid; return 1;
      case SYS_set_tid_address: *ret = p.vpid; return 1;
      case SYS_getppid: *ret = p.ppid; return 1;
      case SYS_getpgrp: *ret = p.pgid; return 1;
      case SYS_getpgid: *ret = p.pgid; return 1;
      case SYS_setpgid: { Proc *q = a == 0 ? &p : byPid((int)a); if (!q) *ret = -ESRCH; else q->pgid = b ? (int)b : q->vpid; return 1; }
      case SYS_setsid: p.pgid = p.vpid; *ret = p.vpid; return 1;
      case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: *ret = 1000; return 1;
      case SYS_exit: case SYS_exit_group: procDie(p, ((int)a & 255) << 8); return 2;
      case SYS_rt_sigaction: {
        int sig = (int)a;
        if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) { *ret = -EINVAL; return 1; }
        if (b) { u64 h; if (!rd(p, b, &h, 8)) { *ret = -EFAULT; return 1; } p.sig[sig].first = h; }
        i64 k = passthru(p, SYS_rt_sigaction, a, b, c, d, 0, 0);
        if (p.dead) return 2;
        *ret = k; return 1;
      }
      case SYS_rt_sigreturn: {
        user_regs_struct q = p.regs; q.rip -= 2; q.rax = SYS_rt_sigreturn;
        p.regs = q; setregs(p);
        int ph = p.inEmu ? -1 : 0;
        p.inEmu = false;
        while (ph < 2) {
          if (ptrace(PTRACE_SYSCALL, p.rpid, 0, 0)) die("sigreturn");
          int st; while (waitpid(p.rpid, &st, __WALL) < 0) if (errno != EINTR) die("sigreturn wait");
          if (WIFEXITED(st) || WIFSIGNALED(st)) { p.rpid = -1; procDie(p, st); return 2; }
          if (WSTOPSIG(st) == (SIGTRAP | 0x80)) ++ph;
        }
        getregs(p);
        return 3;
      }
      case SYS_rt_sigprocmask: if (c && d <= 8) { u64 z = 0; if (!wr(p, c, &z, d)) *ret = -EFAULT; } return 1;
      case SYS_sigaltstack: return 1;
      case SYS_nanosleep: { u64 ts[2]; if (!rd(p, a, ts, 16)) { *ret = -EFAULT; return 1; } clockNs += ts[0] * 1000000000ull + ts[1]; return 1; }
      case SYS_clock_nanosleep: { u64 ts[2]; if (!rd(p, c, ts, 16)) { *ret = -EFAULT; return 1; } if (!(b & 1)) clockNs += ts[0] * 1000000000ull + ts[1]; return 1; }
      case SYS_clock_gettime: {
        if (a > 11) { *ret = -EINVAL; return 1; }
        u64 t = (a == 0 || a == 5) ? clockNow() : clockNs; u64 ts[2] = {t / 1000000000ull, t % 1000000000ull};
        *ret = wr(p, b, ts, 16) ? 0 : -EFAULT; return 1;
      }
      case SYS_clock_getres: { u64 ts[2] = {0, 1}; if (b) *ret = wr(p, b, ts, 16) ? 0 : -EFAULT; return 1; }
      case SYS_gettimeofday: { u64 t = clockNow(); u64 tv[2] = {t / 1000000000ull, t % 1000000000ull / 1000}; if (a) *ret = wr(p, a, tv, 16) ? 0 : -EFAULT; return 1; }
      case SYS_time: { u64 t = clockNow() / 1000000000ull; if (a && !wr(p, a, &t, 8)) { *ret = -EFAULT; return 1; } *ret = t; return 1; }
      case SYS_times: *ret = clockNs / 10000000; return 1;
      case SYS_getrusage: { char z[144] = {0}; *ret = wr(p, b, z, 144) ? 0 : -EFAULT; return 1; }
      case SYS_getrandom: {
        u64 len = std::min<u64>(b, 256);
        if (lim >= 0) len = std::min<u64>(len, lim);
        string s = rnd(len);
        *ret = wr(p, a, s.data(), len) ? (i64)len : -EFAULT; return 1;
      }
      case SYS_uname: { char u[390]; memset(u, 0, sizeof u); strcpy(u, "Linux"); strcpy(u + 65, "sim"); strcpy(u + 130, "6.0.0"); strcpy(u + 195, "#1"); strcpy(u + 260, "x86_64"); *ret = wr(p, a, u, 390) ? 0 : -EFAULT; return 1; }
      case SYS_sysinfo: { u64 s[14]; memset(s, 0, sizeof s); s[4] = 1ull << 33; s[5] = 1ull << 32; ((unsigned *)s)[26] = 1; *ret = wr(p, a, s, 112) ? 0 : -EFAULT; return 1; }
      case SYS_prlimit64: { if (d) { u64 l[2] = {~0ull, ~0ull}; if (b == RLIMIT_STACK) l[0] = 8 << 20; if (b == RLIMIT_NOFILE) l[0] = l[1] = fdLimit; *ret = wr(p, d, l, 16) ? 0 : -EFAULT; } return 1; }
      case SYS_getrlimit: { u64 l[2] = {~0ull, ~0ull}; if (a == RLIMIT_STACK) l[0] = 8 << 20; *ret = wr(p, b, l, 16) ? 0 : -EFAULT; return 1; }
      case SYS_setrlimit: return 1;
      case SYS_sched_yield: case SYS_futex: case SYS_set_robust_list: case SYS_prctl: case SYS_fadvise64: case SYS_flock: case SYS_sync: case SYS_madvise: case SYS_alarm: return 1;
      case SYS_fsync: case SYS_fdatasync: { FileP f = getf(p, a); *ret = f ? 0 : -EBADF; return 1; }
      case SYS_utimensat: return 1;
      case SYS_sched_getaffinity: { u64 m = 1; *ret = wr(p, c, &m, 8) ? 8 : -EFAULT; return 1; }
      case SYS_rseq: case SYS_copy_file_range: case SYS_getxattr: case SYS_statfs: case SYS_fstatfs: *ret = -ENOSYS; return 1;
      case SYS_sendfile: *ret = -EINVAL; return 1;
      case SYS_fallocate: *ret = -EOPNOTSUPP; return 1;
      case SYS_pause: if (!p.pendsig.empty()) { *ret = -EINTR; return 1; } return 0;
      case SYS_getdents64: *ret = -ENOSYS; return 1;
      case SYS_poll: case SYS_ppoll: {
        if (b > 64) { *ret = -EINVAL; return 1; }
        struct PF { int fd; short ev, rev; }; vector<PF> v(b);
        if (b && !rd(p, a, v.data(), b * 8)) { *ret = -EFAULT; return 1; }
        int cnt = 0;
        for (auto &x : v) {
          x.rev = 0; if (x.fd < 0) continue;
          FileP f = getf(p, x.fd);
          if (!f) x.rev = 0x20;
          else if (f->k == O_PIPER) { if (f->pipe->avail()) x.rev |= 1; if (!f->pipe->writers) x.rev |= 0x10; }
          else if (f->k == O_PIPEW) { if (!f->pipe->readers) x.rev |= 8; else if (f->pipe->space() >= 4096 || !f->pipe->avail()) x.rev |= 4; }
          else x.rev |= 5;
          x.rev &= x.ev | 0x38;
          if (x.rev) ++cnt;
        }
        if (!cnt && !(nr == SYS_poll && (int)c >= 0)) return 0;
        if (b && !wr(p, a, v.data(), b * 8)) { *ret = -EFAULT; return 1; }
        *ret = cnt; return 1;
      }
      // ---- memory and thread setup: real
      case SYS_brk: { i64 k = doBrk(p, a); if (p.dead) return 2; *ret = k; return 1; }
      case SYS_mmap: {
        if (!(d & MAP_ANONYMOUS)) { *ret = -ENODEV; return 1; }
        if (b > (1ull << 31) || memFail(p, b)) { *ret = -ENOMEM; return 1; }
        if (!p.mmapInit) { p.mmapInit = true; if (mmapShift) passthru(p, SYS_mmap, 0, mmapShift, 0, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
        i64 k = passthru(p, SYS_mmap, a, b, c, d & ~(u64)MAP_POPULATE, -1, 0); if (p.dead) return 2;
        p.mem += b; *ret = k; return 1;
      }
      case SYS_mremap: { if (c > (1ull << 31) || (c > b && memFail(p, c - b))) { *ret = -ENOMEM; return 1; } i64 k = passthru(p, nr, a, b, c, d, r.r8, r.r9); if (p.dead) return 2; *ret = k; return 1; }
      case SYS_munmap: { i64 k = passthru(p, nr, a, b, c, d, r.r8, r.r9); if (p.dead) return 2; p.mem -= std::min<u64>(p.mem, b); *ret = k; return 1; }
      case SYS_mprotect: case SYS_arch_prctl: { i64 k = passthru(p, nr, a, b, c, d, r.r8, r.r9); if (p.dead) return 2; *ret = k; return 1; }
    }
    const char *nm = sysname(nr);
    unknown.insert(nm ? nm : "sys_" + std::to_string(nr));
    *ret = -ENOSYS;
    return 1;
  }

  // Can the pending call of p make progress now?
  bool runnable(Proc &p) {
    if (p.dead) return false;
    if (p.vforkBlocked) return false;
    if (p.dying) return true;
    if (p.starting) return true;
    if (!p.pendsig.empty()) return true;
    auto &r = p.regs;
    switch ((long)r.orig_rax) {
      case SYS_read: case SYS_readv: {
        FileP f = getf(p, r.rdi);
        if (f && f->k == O_SRC && f->skind == 'i' && r.rdx) return f->srcpos < f->src->size();
        if (!f || f->k != O_PIPER || (f->flags & O_NONBLOCK) || r.rdx == 0) return true;
        return f->pipe->avail() > 0 || f->pipe->writers == 0;
      }
      case SYS_write: {
        FileP f = getf(p, r.rdi);
        if (!f || f->k != O_PIPEW || (f->flags & O_NONBLOCK)) return true;
        if (f->pipe->readers == 0) return true;
        if (r.rdx <= 4096) return f->pipe->avail() == 0 || f->pipe->space() >= r.rdx;
        return f->pipe->space() > 0;
      }
      case SYS_writev: {
        FileP f = getf(p, r.rdi);
        if (!f || f->k != O_PIPEW || (f->flags & O_NONBLOCK)) return true;
        return f->pipe->readers == 0 || f->pipe->avail() == 0 || f->pipe->space() >= 4096;
      }
      case SYS_wait4: case SYS_waitid: {
        i64 pid = (int)r.rdi; int opts = (int)r.rdx;
        if ((long)r.orig_rax == SYS_waitid) { pid = r.rdi == 1 ? (i64)(int)r.rsi : r.rdi == 2 ? -(i64)(int)r.rsi : -1; opts = (int)r.r10; }
        if (opts & WNOHANG) return true;
        bool any = false;
        for (auto &q : procs) {
          if (q->ppid != p.vpid || q->reaped) continue;
          if (pid > 0 && q->vpid != pid) continue;
          if (pid == 0 && q->pgid != p.pgid) continue;
          if (pid < -1 && q->pgid != -pid) continue;
          any = true;
          if (q->dead) return true;
        }
        return !any;
      }
      case SYS_pause: return false;
      case SYS_poll: case SYS_ppoll: { i64 ret; (void)ret; return true; }
    }
    return true;
  }

  bool isControl(Proc &p) {
    long nr = (long)p.regs.orig_rax;
    if (nr != SYS_read && nr != SYS_write) return false;
    FileP f = getf(p, p.regs.rdi);
    return f && f->control;
  }
  void drainControl(Proc &p) {            // control descriptors are outside the simulated world
    while (!p.dead && isControl(p)) {
      i64 ret = 0;
      syscall(p, -1, &ret);
      if (p.dead) return;
      if (ptrace(PTRACE_POKEUSER, p.rpid, (void *)offsetof(user_regs_struct, rax), (void *)ret)) die("pokeuser");
      resume(p);
    }
  }

  void traceCall(Proc &p, const What &w, i64 ret, const char *fault) {
    hTrace = mix(hTrace ^ fnv(p.lin) ^ fnv(w.name) ^ (u64)ret);
    if (!wantTrace) return;
    json e = {p.lin, (i64)p.n, w.name, w.path, w.kind, w.fd, w.len, ret};
    if (fault) e.push_back(fault);
    if (w.name == "getcwd" || w.name == "wait4" || w.name == "kill") {}
    trace.push_back(std::move(e));
  }

  static bool isTransfer(const string &n) { return n == "read" || n == "write" || n == "readv" || n == "writev" || n == "pread64" || n == "pwrite64"; }
  static bool isReadOp(const string &n) { return n == "read" || n == "readv" || n == "pread64"; }

  // One scheduling step: perform the pending call of p and run it to its next call.
  void doStep(Proc &p) {
    cur = &p;
    ++step;
    clockNs += clockStepNs;
    if (p.dying) {
      // A killed process may still complete the call it is in.
      int sig = p.dieSig;
      if (mix(seed ^ 0xdead ^ step) & 1) {
        i64 ret = 0; long nr = (long)p.regs.orig_rax;
        if (!p.starting && nr != SYS_execve && nr != SYS_clone && nr != SYS_fork && nr != SYS_vfork && nr != SYS_exit_group && nr != SYS_wait4) {
          p.dying = false;
          What w = what(p);
          int k = syscall(p, -1, &ret);
          if (!p.dead && k) traceCall(p, w, ret, "dying");
        }
      }
      if (!p.dead) procDie(p, sig);
      return;
    }
    if (p.starting) {
      p.starting = false;
      resume(p);
      if (!p.dead) drainControl(p);
      return;
    }
    What w = what(p);
    i64 lim = -1, ret = 0;
    const char *fk = nullptr;
    string fkeep;
    bool after = false; int afterSig = 0;
    bool inject = false;
    bool fresh = !p.idx_assigned;
    p.idx_assigned = true;
    auto apply = [&](const string &kind, i64 val) {
      if (kind == "err") { inject = true; ret = -val; fkeep = "err"; }
      else if (kind == "closelost") {      // deferred write-back failed: close reports it and the tail of the data is gone
        if (w.name != "close") return;
        FileP f = getf(p, w.fd);
        if (!f || f->k != O_NODE || f->node->t != REG || (f->flags & O_ACCMODE) == O_RDONLY || f->node->get().empty()) return;
        size_t sz = f->node->get().size();
        f->node->mut().resize(sz / 2);
        mark(f->path, "lost");
        inject = true; ret = -val; fkeep = "closelost";
      }
      else if (kind == "short") { if (isTransfer(w.name) || w.name == "getrandom") { lim = val; fkeep = "short"; } else return; }
      else if (kind == "kill") { after = false; afterSig = (int)val; fkeep = "kill"; }
      else if (kind == "killafter") { after = true; afterSig = (int)val; fkeep = "killafter"; }
      else if (kind == "crash") { crashed = true; fkeep = "crash"; }
      else return;
      fire(p, kind == "err" ? "err" : kind, val);
    };
    if (fresh) {
      auto it = faults.find({p.lin, p.n});
      if (it != faults.end()) for (auto &f : it->second) apply(f.kind, f.val);
      for (auto &r : rules) {
        if (r.op != w.name && !(r.op == "*")) continue;
        if (!r.lin.empty() && r.lin != p.lin) continue;
        if (!r.path.empty() && r.path != w.path) continue;
        ++r.seen;
        if (r.seen <= r.after) continue;
        if (r.count == 0) continue;
        if (r.count > 0) --r.count;
        apply(r.kind, r.val);
      }
      if (fkeep.empty() && isTransfer(w.name) && w.len > 1) {
        int pr = isReadOp(w.name) ? pShortR : pShortW;
        if (pr) {
          u64 h = mix(seed ^ fnv(p.lin) ^ (p.n * 0x10001));
          if ((int)(h % 1000) < pr) {
            u64 h2 = mix(h); i64 m;
            switch (h2 % 4) { case 0: m = 1; break; case 1: m = 1 + (h2 >> 8) % std::min<i64>(w.len, 16); break; default: m = 1 + (h2 >> 8) % w.len; }
            if (m < w.len) { lim = m; fkeep = "short"; fire(p, "short", m); if (isReadOp(w.name)) ++shortr; else ++shortw; }
          }
        }
      }
    }
    if (!fkeep.empty()) fk = fkeep.c_str();
    if (crashed) { traceCall(p, w, -999, "crash"); return; }
    if (afterSig && !after) { traceCall(p, w, -998, "kill"); procDie(p, afterSig); return; }
    int k;
    if (inject) {
      if (w.name == "close") p.fds->erase((int)p.regs.rdi);     // Linux always releases the descriptor
      if (w.name == "brk") ret = p.brkInit ? (i64)p.brkcur : doBrk(p, 0);
      if (w.name == "exit_group" || w.name == "exit" || w.name == "rt_sigreturn") { k = syscall(p, lim, &ret); }
      else {
        k = 1;
        if (ret == -EPIPE && w.name == "write") {
          auto it = p.sig.find(SIGPIPE);
          if (it == p.sig.end() || it->second.first == 0) { traceCall(p, w, ret, fk); procDie(p, SIGPIPE); return; }
        }
      }
    } else {
      if (lim < 0 && p.wprog) lim = -1;
      k = syscall(p, lim, &ret);
      if (k == 0 && !p.pendsig.empty()) { ret = p.wprog ? (i64)p.wprog : -EINTR; k = 1; }
    }
    if (k == 0) return;                       // still blocked (partial pipe progress)
    traceCall(p, w, ret, fk);
    if (k == 2 || p.dead) return;
    if (afterSig && after) { procDie(p, afterSig); return; }
    if (k == 3) { ++p.n; resume(p); }
    else finish(p, ret);
    if (!p.dead) drainControl(p);
  }

  Proc *pick() {
    vector<Proc *> c;
    for (auto &q : procs) if (runnable(*q)) c.push_back(q.get());
    if (c.empty()) return nullptr;
    Proc *def = c[0];
    for (auto *q : c) if (q == cur) def = q;
    Proc *sel = def;
    if (c.size() > 1) {
      ++multi;
      auto it = choices.find(step);
      if (it != choices.end()) { for (auto *q : c) if (q->lin == it->second) sel = q; }
      else if (schedMode == "random") { if ((int)rs.below(1000) < pSwitch) sel = c[rs.below(c.size())]; }
      else if (schedMode == "prio") {        // PCT-like: seeded priorities, re-drawn at seeded change points
        u64 epoch = pSwitch > 0 ? step / (u64)std::max(1, pSwitch) : 0;
        u64 best = 0;
        for (auto *q : c) { u64 h = mix(seed ^ fnv(q->lin) ^ (epoch * 0x9999)); if (h >= best) { best = h; sel = q; } }
      } else if (schedMode == "last") sel = c.back();
      if (sel != def) chosen.push_back({step, sel->lin});
    }
    hSched = mix(hSched ^ fnv(sel->lin));
    ++nSched;
    return sel;
  }

  void killAll(int sig) { for (auto &q : procs) if (!q->dead) procDie(*q, sig); }

  void startRoot(const json &cmd, int idx) {
    string exe = cmd["exe"];
    NodeP n = lookup(exe);
    if (!n || n->t != REG) { events.push_back({{"ev", "noexe"}, {"exe", exe}}); outcome = "noexe"; return; }
    int xfd = n->fdno;
    bool tmpfd = false;
    if (xfd < 0) {   // content produced inside the simulation
      xfd = memfd_create("x", 0);
      const string &d = n->get();
      if (write(xfd, d.data(), d.size()) != (ssize_t)d.size()) die("memfd");
      char pth[64]; snprintf(pth, sizeof pth, "/proc/self/fd/%d", xfd);
      int ro = open(pth, O_RDONLY);
      close(xfd);
      xfd = ro; tmpfd = true;
    }
    vector<string> av, ev;
    for (auto &s : cmd["argv"]) av.push_back(s);
    if (cmd.contains("env")) for (auto &s : cmd["env"]) ev.push_back(s);
    vector<char *> ap, ep;
    for (auto &s : av) ap.push_back((char *)s.c_str());
    ap.push_back(nullptr);
    for (auto &s : ev) ep.push_back((char *)s.c_str());
    ep.push_back(nullptr);
    u64 rlAs = 4ull << 30;
    i64 cpu = cmd.value("cpu", 20);
    pid_t pid = vfork();
    if (pid == 0) {
      struct rlimit rl;
      rl.rlim_cur = rl.rlim_max = 8 << 20; setrlimit(RLIMIT_STACK, &rl);
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = rlAs; setrlimit(RLIMIT_AS, &rl);
      rl.rlim_cur = cpu; rl.rlim_max = cpu + 5; setrlimit(RLIMIT_CPU, &rl);
      personality(ADDR_NO_RANDOMIZE);
      ptrace(PTRACE_TRACEME, 0, 0, 0);
      ::syscall(SYS_execveat, xfd, "", ap.data(), ep.data(), AT_EMPTY_PATH);
      _exit(127);
    }
    if (pid < 0) die("vfork");
    int st;
    while (waitpid(pid, &st, __WALL) < 0) if (errno != EINTR) die("wait root");
    if (tmpfd) close(xfd);
    auto p = make_shared<Proc>();
    p->rpid = pid; p->vpid = vpidBase + (int)procs.size() * 3 + 1; p->ppid = 1; p->pgid = cmd.value("pgid", 0) ? cmd["pgid"].get<int>() : vpidBase + 1;
    p->lin = std::to_string(idx); p->order = procs.size(); p->root = p->order;
    p->cwd = cmd.value("cwd", string("/w"));
    if (tmpfd) p->xnode = n, p->xfd = xfd;
    p->fds = make_shared<FdTab>();
    p->exe = exe; p->argv = json::array(); for (auto &s : av) p->argv.push_back(b64enc(s));
    procs.push_back(p);
    if (WIFEXITED(st) || WIFSIGNALED(st)) { p->rpid = -1; events.push_back({{"ev", "badexec"}, {"lin", p->lin}}); procDie(*p, 127 << 8); return; }
    if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) die("setoptions");
    // descriptors
    const json fds = cmd.contains("fds") ? cmd["fds"] : json::object();
    for (auto it = fds.begin(); it != fds.end(); ++it) {
      int fd = atoi(it.key().c_str());
      const json &v = it.value();
      auto f = make_shared<OpenFile>();
      f->control = v.value("control", false);
      if (v.contains("src")) { f->k = O_SRC; f->src = make_shared<string>(b64dec(v["src"])); f->skind = v.value("kind", string("p"))[0]; f->flags = O_RDONLY; f->path = "<src" + it.key() + ">"; }
      else if (v.contains("sink")) {
        string name = v["sink"];
        f->k = O_SINK; f->skind = v.value("kind", string("p"))[0]; f->flags = O_WRONLY; f->path = "<" + name + ">";
        if (!sinks.count(name)) sinks[name] = make_shared<string>();
        f->sink = sinks[name];
      } else if (v.contains("file")) {
        string path = v["file"]; int fl = v.value("flags", 0);
        NodeP nd = own(path);
        if (!nd) { nd = make_shared<Node>(); nd->ino = nextIno++; nd->data = make_shared<string>(); ov[path] = nd; }
        if (fl & O_TRUNC) nd->mut().clear();
        f->k = O_NODE; f->node = nd; f->path = path; f->flags = fl & ~(O_CREAT | O_TRUNC);
      } else if (v.contains("same")) { f = (*p->fds)[atoi(string(v["same"]).c_str())].f; }
      else continue;
      (*p->fds)[fd] = {f, false};
    }
    p->starting = true;
    fixAuxv(*p);
  }
  std::map<string, shared_ptr<string>> sinks;

  void runPhase(const json &ph) {
    cur = nullptr;
    int base = (int)procs.size();
    (void)base;
    int idx = phaseIdx++ * 10;
    for (auto &c : ph["cmds"]) startRoot(c, idx++);
    for (;;) {
      if (crashStep >= 0 && (i64)step >= crashStep && !crashed) { crashed = true; faultCount["crash"]++; }
      if (crashed) { killAll(SIGKILL); break; }
      if (step > maxSteps) { outcome = "steplimit"; killAll(SIGKILL); break; }
      Proc *p = pick();
      if (!p) {
        bool alive = false, rootAlive = false;
        json stuck = json::array();
        for (auto &q : procs) if (!q->dead) {
          alive = true;
          if (q->order == q->root) rootAlive = true;
          What w = what(*q);
          stuck.push_back({q->lin, w.name, w.path, w.kind});
        }
        if (alive) {
          events.push_back({{"ev", "deadlock"}, {"stuck", stuck}, {"root", rootAlive}});
          outcome = rootAlive ? "deadlock" : "orphans";
          killAll(SIGKILL);
        }
        break;
      }
      doStep(*p);
    }
  }
  int phaseIdx = 0;
};

// ---------------------------------------------------------------- image
static void loadTree(const string &vpath, const string &real) {
  struct stat s;
  if (stat(real.c_str(), &s)) return;
  auto n = make_shared<Node>();
  if (S_ISDIR(s.st_mode)) {
    n->t = DIR_; n->mode = 0755;
    g_base[vpath] = n;
    DIR *d = opendir(real.c_str());
    if (!d) return;
    vector<string> names;
    while (auto *e = readdir(d)) { string x = e->d_name; if (x != "." && x != "..") names.push_back(x); }
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto &x : names) loadTree(vpath + "/" + x, real + "/" + x);
    return;
  }
  if (!S_ISREG(s.st_mode)) return;
  n->t = REG; n->mode = s.st_mode & 0777;
  auto str = make_shared<string>();
  FILE *f = fopen(real.c_str(), "rb");
  if (!f) return;
  str->resize(s.st_size);
  if (s.st_size && fread(&(*str)[0], 1, s.st_size, f) != (size_t)s.st_size) { fclose(f); return; }
  fclose(f);
  n->data = str;
  if ((n->mode & 0111) && str->compare(0, 4, "\x7f""ELF") == 0) {
    int fd = open(real.c_str(), O_RDONLY);
    if (fd >= 0) {
      int hi = fcntl(fd, F_DUPFD, 100);
      close(fd);
      n->fdno = hi;
      g_execfds.push_back(hi);
    }
  }
  g_base[vpath] = n;
}
static void mkdirs(const string &p) {
  string q = p;
  for (;;) {
    if (!g_base.count(q)) { auto n = make_shared<Node>(); n->t = DIR_; n->mode = 0755; g_base[q] = n; }
    if (q == "/") break;
    q = parentof(q);
  }
}
static NodeP nodeFromJson(const json &v) {
  auto n = make_shared<Node>();
  string t = v.value("t", string("reg"));
  n->mode = v.value("mode", t == "dir" ? 0755 : 0644);
  if (t == "dir") n->t = DIR_;
  else if (t == "chr") { n->t = CHR; n->dev = v.value("dev", string("n"))[0]; n->mode = v.value("mode", 0666); }
  else if (t == "lnk") { n->t = LNK; n->data = make_shared<string>(v["target"].get<string>()); }
  else n->data = make_shared<string>(v.contains("b64") ? b64dec(v["b64"]) : v.value("s", string()));
  return n;
}

static json runReq(const json &q) {
  Sim S;
  S.seed = q.value("seed", (u64)0);
  S.rs = Rng(S.seed ^ 0x5c4ed);
  S.schedMode = q.value("sched", string("default"));
  S.pSwitch = q.value("pswitch", 200);
  if (q.contains("choices")) for (auto &c : q["choices"]) S.choices[c[0].get<u64>()] = c[1].get<string>();
  if (q.contains("faults")) for (auto &f : q["faults"]) {
    Fault x; x.kind = f["kind"]; x.val = f.value("val", (i64)0);
    S.faults[{f["p"].get<string>(), f["n"].get<u64>()}].push_back(x);
  }
  if (q.contains("rules")) for (auto &f : q["rules"]) {
    Rule r; r.op = f["op"]; r.path = f.value("path", string()); r.after = f.value("after", (i64)0); r.count = f.value("count", (i64)-1);
    r.kind = f["kind"]; r.val = f.value("val", (i64)0); r.lin = f.value("lin", string());
    S.rules.push_back(r);
  }
  S.pShortR = q.value("pshortr", 0); S.pShortW = q.value("pshortw", 0);
  S.diskLeft = q.value("disk", (i64)-1); S.memLimit = q.value("mem", (i64)-1); S.fdLimit = q.value("fdlimit", 1024);
  S.pipeCap = q.value("pipecap", (i64)65536);
  S.pScribble = q.value("pscribble", 0); S.scribbleBytes = q.value("scribble", 4096);
  S.pStep = q.value("pstep", 0); S.stepMax = q.value("stepmax", (u64)0); S.stepBytes = q.value("stepbytes", 512); S.stepFrom = q.value("stepfrom", (u64)0);
  S.brkShift = q.value("brkshift", (u64)0); S.mmapShift = q.value("mmapshift", (u64)0);
  S.maxSteps = q.value("maxsteps", (u64)200000);
  S.crashStep = q.value("crash", (i64)-1);
  S.clock0 = q.value("clock", (u64)1700000000ull); S.clockStepNs = q.value("clockstep", (u64)1000);
  S.randMode = q.value("rand", string("seed"));
  S.wantTrace = q.value("trace", 0) != 0; S.wantData = q.value("trace", 0) >= 2;
  S.killDelay = q.value("killdelay", 0) != 0;
  S.vpidBase = q.value("vpid", 1000);
  S.inlineLimit = q.value("inline", (size_t)0);
  Tree files;
  if (q.contains("files")) for (auto it = q["files"].begin(); it != q["files"].end(); ++it) { auto n = nodeFromJson(it.value()); S.ov[it.key()] = n; }
  // remember the initial overlay for the diff
  Tree init;
  for (auto &kv : S.ov) init[kv.first] = make_shared<Node>(*kv.second);
  json phasesOut = json::array();
  auto snapshot = [&](Tree &from) {
    json diff = json::object();
    for (auto &kv : S.ov) {
      NodeP was;
      auto i = from.find(kv.first);
      if (i != from.end()) was = i->second; else { auto b = g_base.find(kv.first); if (b != g_base.end()) was = b->second; }
      NodeP now = kv.second;
      if (!was && !now) continue;
      if (was && now && was->t == now->t && was->mode == now->mode && (was->data == now->data || was->get() == now->get())) continue;
      json e;
      if (!now) { e = {{"op", "deleted"}}; }
      else {
        e = {{"op", was ? "changed" : "new"}, {"t", now->t == REG ? "reg" : now->t == DIR_ ? "dir" : now->t == LNK ? "lnk" : "chr"}, {"mode", now->mode}};
        if (now->t == REG) {
          e["size"] = now->get().size(); e["h"] = chash(now->get());
          if (now->get().size() <= S.inlineLimit) e["b64"] = b64enc(now->get());
        } else if (now->t == LNK) e["target"] = now->get();
      }
      if (was && was->t == REG) e["washash"] = chash(was->get());
      diff[kv.first] = e;
    }
    return diff;
  };
  bool firstPhase = true;
  for (auto &ph : q["phases"]) {
    if (!firstPhase) { S.crashed = false; }
    // later phases run without the first phase's crash, with their own files patched in
    if (ph.contains("files")) for (auto it = ph["files"].begin(); it != ph["files"].end(); ++it) { if (it.value().is_null()) S.ov[it.key()] = nullptr; else S.ov[it.key()] = nodeFromJson(it.value()); }
    if (ph.contains("trunc")) for (auto it = ph["trunc"].begin(); it != ph["trunc"].end(); ++it) { NodeP n = S.own(it.key()); if (n && n->t == REG && n->get().size() > it.value().get<u64>()) n->mut().resize(it.value().get<u64>()); }
    if (ph.contains("disk")) S.diskLeft = ph["disk"];
    if (ph.contains("mem")) S.memLimit = ph["mem"];
    if (!firstPhase) S.crashStep = ph.value("crash", (i64)-1);
    size_t p0 = S.procs.size();
    u64 step0 = S.step;
    if (S.outcome == "ok") S.runPhase(ph);
    json po;
    json pr = json::array();
    for (size_t i = p0; i < S.procs.size(); ++i) {
      auto &p = *S.procs[i];
      pr.push_back({{"lin", p.lin}, {"exe", p.exe}, {"st", p.wstatus}, {"n", p.n}, {"root", p.order == p.root}, {"argv", p.argv}});
    }
    po["procs"] = pr;
    po["steps"] = S.step - step0;
    po["diff"] = snapshot(init);
    po["crashed"] = S.crashed;
    phasesOut.push_back(po);
    firstPhase = false;
  }
  json out;
  out["outcome"] = S.outcome;
  out["phases"] = phasesOut;
  json sk = json::object();
  for (auto &kv : S.sinks) sk[kv.first] = b64enc(*kv.second);
  out["sinks"] = sk;
  out["events"] = S.events;
  out["fired"] = S.fired;
  out["chosen"] = S.chosen;
  out["fcount"] = S.faultCount;
  out["steps"] = S.step;
  out["simns"] = S.clockNs;
  char hb[40]; snprintf(hb, sizeof hb, "%016lx", (unsigned long)S.hSched); out["hsched"] = hb;
  snprintf(hb, sizeof hb, "%016lx", (unsigned long)S.hTrace); out["htrace"] = hb;
  out["multi"] = S.multi;
  out["unknown"] = S.unknown;
  out["scribbles"] = S.scribbles; out["steps1"] = S.steps1;
  out["shortr"] = S.shortr; out["shortw"] = S.shortw;
  out["mutated"] = S.mutated;
  if (S.wantTrace) out["trace"] = S.trace;
  for (auto &p : S.procs) if (p->rpid > 0) S.realKill(*p);
  return out;
}

int main(int argc, char **argv) {
  int cpu = -1;
  for (int i = 1; i < argc; ++i) if (string(argv[i]) == "--cpu" && i + 1 < argc) cpu = atoi(argv[++i]);
  if (cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
  signal(SIGPIPE, SIG_DFL);
  std::ios::sync_with_stdio(false);
  string line;
  mkdirs("/");
  while (std::getline(std::cin, line)) {
    json out;
    json q = json::parse(line, nullptr, false);
    if (q.is_discarded()) die("bad json");
    string cmd = q.value("cmd", string("run"));
    if (cmd == "image") {
      if (q.value("reset", false)) { for (int fd : g_execfds) close(fd); g_execfds.clear(); g_base.clear(); mkdirs("/"); }
      if (q.contains("dirs")) for (auto &d : q["dirs"]) mkdirs(d);
      if (q.contains("mounts")) for (auto it = q["mounts"].begin(); it != q["mounts"].end(); ++it) { mkdirs(parentof(it.key())); loadTree(it.key(), it.value()); }
      if (q.contains("files")) for (auto it = q["files"].begin(); it != q["files"].end(); ++it) { mkdirs(parentof(it.key())); g_base[it.key()] = nodeFromJson(it.value()); }
      out = {{"ok", true}, {"files", g_base.size()}};
    } else if (cmd == "run") {
      out = runReq(q);
    } else if (cmd == "quit") break;
    string s = out.dump(-1, ' ', true, json::error_handler_t::replace);
    s += '\n';
    fwrite(s.data(), 1, s.size(), stdout);
    fflush(stdout);
  }
  return 0;
}
