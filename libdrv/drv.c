// Interpreter of operation scripts: the client of the C library under simulation.
// It reads the whole script from descriptor 10 and writes one record per operation to descriptor 11; both
// descriptors lie outside the simulated world. Everything else goes through the library under test.
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#if !defined(__WASM)
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/wait.h>
#else
#include <sys/random.h>
#endif

#define CTL_IN   10
#define CTL_OUT  11
#define NF  64
#define ND  64
#define NP  256
#define NL  16
#define NM  16
#define NH  64
#define MAXDATA  70000

enum {
  OP_END, OP_FOPEN, OP_FDOPEN, OP_FCLOSE, OP_FPUTC, OP_FPUTS, OP_PUTS, OP_PUTCHAR, OP_FWRITE, OP_FPRINTF, OP_FFLUSH,
  OP_FGETC, OP_UNGETC, OP_FGETS, OP_GETLINE, OP_FREAD, OP_FEOF, OP_FERROR, OP_FSEEK, OP_FTELL, OP_TMPFILE,
  OP_FMEMOPEN, OP_MEMSTREAM, OP_MEMSTATE, OP_REMOVE, OP_FILENO, OP_FREELINE, OP_FREEMEM, OP_LINEBUF, OP_PERROR, OP_MEMBUF,
  OP_MALLOC = 40, OP_CALLOC, OP_REALLOC, OP_FREE, OP_VERIFY,
  OP_STRDUP = 50, OP_STRNDUP, OP_SNPRINTF, OP_GETCWDN, OP_MKSTEMP, OP_MKSTEMPS, OP_GETRANDOM,
  OP_OPEN = 60, OP_READ, OP_WRITE, OP_CLOSE, OP_LSEEK, OP_STAT, OP_FSTAT, OP_LSTAT, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_CHDIR,
  OP_CHMOD, OP_GETCWD, OP_DUP, OP_PIPE, OP_FORK, OP_KILL, OP_ISATTY, OP_CLOCK, OP_TIME, OP_WAIT, OP_WAITPID, OP_EXECVE,
  OP_IOCTL, OP_OPENAT, OP_UNLINKAT, OP_MKDIRAT, OP_FSTATAT, OP_FCHMODAT, OP_PIPE2, OP_WAIT4, OP_EXECVP, OP_SETERRNO,
  OP_EXIT = 100, OP_RETURN, OP_ATEXIT, OP_DEFHANDLER, OP_HANDLER, OP_EXECARG,
  OP_STEPWORK = 120
};

static unsigned char script[400000];
static size_t scriptlen;
static unsigned char canary1[256];
static FILE *F[NF];
static int D[ND];
static struct { unsigned char *p; size_t n; unsigned char pat; } P[NP];
static struct { char *p; size_t capa; } L[NL];
static struct { char *p; size_t size; } M[NM];
static unsigned char mbs[NM][2048];
static struct { const unsigned char *p; size_t n; } H[NH];
static unsigned char data[MAXDATA + 64];
static unsigned char canary2[256];
static unsigned char rec[MAXDATA + 128];
static int who;
static int handler_depth;

static void put64(unsigned char *p, int64_t v) {
  for (int i = 0; i < 8; ++i)
    p[i] = (unsigned char)((uint64_t)v >> (i * 8));
}

static void emit(int op, int64_t ret, int err, const void *d, size_t n) {
  if (n > MAXDATA)
    n = MAXDATA;
  rec[0] = op;
  rec[1] = who;
  put64(rec + 2, ret);
  put64(rec + 10, err);
  put64(rec + 18, n);
  if (n > 0) {
    const unsigned char *s = d;
    for (size_t i = 0; i < n; ++i)
      rec[26 + i] = s[i];
  }
  int keep = errno;
  size_t total = 26 + n;
  for (size_t o = 0; o < total; ) {
    ssize_t k = write(CTL_OUT, rec + o, total - o);
    if (k <= 0)
      break;
    o += k;
  }
  errno = keep;
}

typedef struct { const unsigned char *p, *e; } Cur;

static int64_t arg(Cur *c) {
  uint64_t v = 0;
  for (int i = 0; i < 8; ++i)
    v |= (uint64_t)c->p[i] << (i * 8);
  c->p += 8;
  return (int64_t)v;
}

static const char *str(Cur *c, size_t *n) {
  size_t len = (size_t)arg(c);
  const char *s = (const char*)c->p;
  c->p += len + 1;   // always followed by a NUL
  if (n != NULL)
    *n = len;
  return s;
}

static void fill(unsigned char *p, size_t from, size_t n, unsigned char pat) {
  for (size_t i = from; i < n; ++i)
    p[i] = (unsigned char)(pat + i * 7 + (i >> 8));
}

static int64_t badat(const unsigned char *p, size_t n, unsigned char pat) {
  for (size_t i = 0; i < n; ++i) {
    if (p[i] != (unsigned char)(pat + i * 7 + (i >> 8)))
      return (int64_t)i;
  }
  return -1;
}

static void run(const unsigned char *p, const unsigned char *e);
static int retcode = -1;

static void do_handler(int k) {
  errno = 0;
  emit(OP_HANDLER, k, 0, NULL, 0);
  ++handler_depth;
  run(H[k].p, H[k].p + H[k].n);
  --handler_depth;
}
#define HF(n)  static void h##n(void) { do_handler(n); }
HF(0) HF(1) HF(2) HF(3) HF(4) HF(5) HF(6) HF(7) HF(8) HF(9) HF(10) HF(11) HF(12) HF(13) HF(14) HF(15)
HF(16) HF(17) HF(18) HF(19) HF(20) HF(21) HF(22) HF(23) HF(24) HF(25) HF(26) HF(27) HF(28) HF(29) HF(30) HF(31)
HF(32) HF(33) HF(34) HF(35) HF(36) HF(37) HF(38) HF(39)
static void (*const handlers[])(void) = {
  h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11, h12, h13, h14, h15,
  h16, h17, h18, h19, h20, h21, h22, h23, h24, h25, h26, h27, h28, h29, h30, h31,
  h32, h33, h34, h35, h36, h37, h38, h39,
};

// An operation on a stream that could not be opened is skipped.
#define CHK(fp)  if ((fp) == NULL) { emit(op, -9999, 9999, NULL, 0); continue; }

static FILE *stream(int64_t k) {
  return k == -1 ? stdin : k == -2 ? stdout : k == -3 ? stderr : F[k];
}

static int desc(int64_t k) {
  return k >= 1000 ? (int)(k - 1000) : k < 0 ? (int)k : D[k];
}

static void put_stat(const struct stat *st, int64_t r, int op, int err) {
  unsigned char b[40];
  put64(b, st->st_mode);
  put64(b + 8, st->st_size);
  put64(b + 16, st->st_nlink);
  put64(b + 24, (int64_t)st->st_ino);
  put64(b + 32, (int64_t)st->st_rdev);
  emit(op, r, err, b, r == 0 ? sizeof(b) : 0);
}

static int badcanary(void) {
  for (int i = 0; i < 256; ++i) {
    if (canary1[i] != (unsigned char)(i ^ 0x5a) || canary2[i] != (unsigned char)(i ^ 0xc3))
      return 1;
  }
  return 0;
}

static void run(const unsigned char *p, const unsigned char *e) {
  Cur cur = {p, e}, *c = &cur;
  while (c->p < c->e) {
    int op = *c->p++;
    int64_t r = 0;
    const void *d = NULL;
    size_t dn = 0;
    errno = 0;
    switch (op) {
    case OP_END:
      return;
    case OP_FOPEN: {
        int64_t k = arg(c);
        const char *fn = str(c, NULL), *mode = str(c, NULL);
        errno = 0;
        F[k] = fopen(fn, mode);
        r = F[k] != NULL;
      } break;
    case OP_FDOPEN: {
        int64_t k = arg(c), dk = arg(c);
        const char *mode = str(c, NULL);
        errno = 0;
        F[k] = fdopen(desc(dk), mode);
        r = F[k] != NULL;
      } break;
    case OP_FCLOSE: {
        int64_t k = arg(c);
        FILE *fp = stream(k);
        CHK(fp);
        errno = 0;
        r = fclose(fp);
        if (k >= 0)
          F[k] = NULL;
      } break;
    case OP_FPUTC: { FILE *fp = stream(arg(c)); int ch = (int)arg(c); CHK(fp); errno = 0; r = fputc(ch, fp); } break;
    case OP_FPUTS: { FILE *fp = stream(arg(c)); const char *s = str(c, NULL); CHK(fp); errno = 0; r = fputs(s, fp); } break;
    case OP_PUTS: { const char *s = str(c, NULL); errno = 0; r = puts(s); } break;
    case OP_PUTCHAR: { int ch = (int)arg(c); errno = 0; r = putchar(ch); } break;
    case OP_FWRITE: {
        FILE *fp = stream(arg(c));
        size_t size = (size_t)arg(c), count = (size_t)arg(c);
        const char *s = str(c, NULL);
        CHK(fp);
        errno = 0;
        r = (int64_t)fwrite(s, size, count, fp);
      } break;
    case OP_FPRINTF: {
        FILE *fp = stream(arg(c));
        int64_t kind = arg(c), a = arg(c), b = arg(c);
        const char *s = str(c, NULL);
        CHK(fp);
        errno = 0;
        switch (kind) {
        case 0:  r = fprintf(fp, "%s", s); break;
        case 1:  r = fprintf(fp, "%d:%s\n", (int)a, s); break;
        case 2:  r = fprintf(fp, "[%*s]", (int)a, s); break;
        case 3:  r = fprintf(fp, "%.*s%c", (int)a, s, (int)b); break;
        case 4:  r = fprintf(fp, "<%ld,%lu,%lx>", (long)a, (unsigned long)b, (unsigned long)a); break;
        case 5:  r = fprintf(fp, "%-*s|%05d|%%\n", (int)a, s, (int)b); break;
        default:  r = fprintf(fp, "%s=%s;", s, s); break;
        }
      } break;
    case OP_FFLUSH: { FILE *fp = stream(arg(c)); CHK(fp); errno = 0; r = fflush(fp); } break;
    case OP_FGETC: { FILE *fp = stream(arg(c)); CHK(fp); errno = 0; r = fgetc(fp); } break;
    case OP_UNGETC: { int ch = (int)arg(c); FILE *fp = stream(arg(c)); CHK(fp); errno = 0; r = ungetc(ch, fp); } break;
    case OP_FGETS: {
        FILE *fp = stream(arg(c));
        int n = (int)arg(c);
        memset(data, 0xa5, n + 16);
        CHK(fp);
        errno = 0;
        r = fgets((char*)data, n, fp) != NULL;
        d = data;
        dn = n + 16;
      } break;
    case OP_GETLINE: {
        FILE *fp = stream(arg(c));
        int64_t k = arg(c);
        CHK(fp);
        errno = 0;
        r = getline(&L[k].p, &L[k].capa, fp);
        if (r >= 0) {
          int err = errno;
          if ((size_t)r + 1 > L[k].capa)
            emit(OP_VERIFY, 1, 0, "capa", 4);
          for (int64_t i = 0; i <= r && i < MAXDATA; ++i)
            data[i] = L[k].p[i];
          d = data;
          dn = r + 1;
          errno = err;
        }
      } break;
    case OP_LINEBUF: {   // a caller's own buffer for getline
        int64_t k = arg(c);
        size_t n = (size_t)arg(c);
        L[k].p = n > 0 ? malloc(n) : NULL;
        L[k].capa = L[k].p != NULL ? n : 0;
        r = L[k].p != NULL;
      } break;
    case OP_FREELINE: { int64_t k = arg(c); free(L[k].p); L[k].p = NULL; L[k].capa = 0; } break;
    case OP_FREAD: {
        FILE *fp = stream(arg(c));
        size_t size = (size_t)arg(c), count = (size_t)arg(c);
        memset(data, 0xa5, size * count + 16);
        CHK(fp);
        errno = 0;
        r = (int64_t)fread(data, size, count, fp);
        d = data;
        dn = size * count + 16;
      } break;
    case OP_FEOF: { FILE *fp = stream(arg(c)); CHK(fp); r = feof(fp) != 0; } break;
    case OP_FERROR: { FILE *fp = stream(arg(c)); CHK(fp); r = ferror(fp) != 0; } break;
    case OP_FSEEK: { FILE *fp = stream(arg(c)); long o = (long)arg(c); int w = (int)arg(c); CHK(fp); errno = 0; r = fseek(fp, o, w); } break;
    case OP_FTELL: { FILE *fp = stream(arg(c)); CHK(fp); errno = 0; r = ftell(fp); } break;
    case OP_TMPFILE: { int64_t k = arg(c); errno = 0; F[k] = tmpfile(); r = F[k] != NULL; } break;
    case OP_FMEMOPEN: {
        int64_t k = arg(c), m = arg(c);
        size_t n = (size_t)arg(c);
        const char *mode = str(c, NULL);
        const char *init = str(c, NULL);
        memset(mbs[m], 0xa5, sizeof(mbs[m]));
        memcpy(mbs[m], init, n);
        errno = 0;
        F[k] = fmemopen(mbs[m], n, mode);
        r = F[k] != NULL;
      } break;
    case OP_MEMSTREAM: { int64_t k = arg(c), m = arg(c); errno = 0; F[k] = open_memstream(&M[m].p, &M[m].size); r = F[k] != NULL; } break;
    case OP_MEMSTATE: {
        int64_t m = arg(c);
        r = (int64_t)M[m].size;
        d = M[m].p;
        dn = M[m].p != NULL ? M[m].size + 1 : 0;
        if (dn > MAXDATA)
          dn = MAXDATA;
      } break;
    case OP_MEMBUF: { int64_t m = arg(c); dn = (size_t)arg(c) + 64; d = mbs[m]; } break;
    case OP_FREEMEM: { int64_t m = arg(c); free(M[m].p); M[m].p = NULL; M[m].size = 0; } break;
    case OP_REMOVE: { const char *s = str(c, NULL); errno = 0; r = remove(s); } break;
    case OP_FILENO: { FILE *fp = stream(arg(c)); CHK(fp); errno = 0; r = fileno(fp); } break;
    case OP_PERROR: { const char *s = str(c, NULL); errno = (int)arg(c); perror(s); errno = 0; } break;

    case OP_MALLOC: case OP_CALLOC: case OP_REALLOC: {
        int64_t k = arg(c);
        size_t n = (size_t)arg(c), m = op == OP_CALLOC ? (size_t)arg(c) : 1;
        unsigned char pat = (unsigned char)arg(c);
        unsigned char *q;
        int64_t bad = -1;
        errno = 0;
        if (op == OP_MALLOC) {
          q = malloc(n);
        } else if (op == OP_CALLOC) {
          q = calloc(n, m);
          if (q != NULL) {
            size_t t = n * m;
            for (size_t i = 0; i < t; ++i) {
              if (q[i] != 0) {
                bad = (int64_t)i;
                break;
              }
            }
          }
        } else {
          q = realloc(P[k].p, n);
          if (q != NULL && P[k].p != NULL)
            bad = badat(q, n < P[k].n ? n : P[k].n, P[k].pat);
        }
        int err = errno;
        r = (int64_t)(uintptr_t)q;
        if (q != NULL) {
          P[k].p = q;
          P[k].n = n * m;
          P[k].pat = pat;
          fill(q, 0, P[k].n, pat);
        } else if (op == OP_REALLOC && n == 0) {
          P[k].p = NULL;
          P[k].n = 0;
        }
        put64(data, bad);
        d = data;
        dn = 8;
        errno = err;
      } break;
    case OP_FREE: { int64_t k = arg(c); errno = 0; free(P[k].p); P[k].p = NULL; P[k].n = 0; } break;
    case OP_VERIFY: {
        int64_t bad = -1;
        for (int k = 0; k < NP && bad < 0; ++k) {
          if (P[k].p != NULL && badat(P[k].p, P[k].n, P[k].pat) >= 0)
            bad = k;
        }
        if (badcanary())
          bad = 10000;
        r = bad;
      } break;

    case OP_STRDUP: case OP_STRNDUP: {
        const char *s = str(c, NULL);
        size_t n = op == OP_STRNDUP ? (size_t)arg(c) : 0;
        errno = 0;
        char *q = op == OP_STRDUP ? strdup(s) : strndup(s, n);
        int err = errno;
        r = q != NULL;
        if (q != NULL) {
          dn = strlen(q);
          for (size_t i = 0; i < dn; ++i)
            data[i] = q[i];
          d = data;
          free(q);
        }
        errno = err;
      } break;
    case OP_SNPRINTF: {
        size_t n = (size_t)arg(c);
        int64_t a = arg(c);
        const char *s = str(c, NULL);
        memset(data, 0xa5, n + 16);
        errno = 0;
        r = snprintf((char*)data, n, "%ld-%s-%5d|", (long)a, s, (int)a);
        d = data;
        dn = n + 16;
      } break;
    case OP_GETCWDN: {
        size_t n = (size_t)arg(c);
        errno = 0;
        char *q = getcwd(NULL, n);
        int err = errno;
        r = q != NULL;
        if (q != NULL) {
          dn = strlen(q);
          memcpy(data, q, dn);
          d = data;
          free(q);
        }
        errno = err;
      } break;
    case OP_MKSTEMP: case OP_MKSTEMPS: {
        int64_t k = arg(c);
        const char *s = str(c, &dn);
        int suf = op == OP_MKSTEMPS ? (int)arg(c) : 0;
        memset(data, 'X', 16);      // what lies in front of the template is not touched
        memcpy(data + 16, s, dn + 1);
        errno = 0;
        D[k] = op == OP_MKSTEMP ? mkstemp((char*)data + 16) : mkstemps((char*)data + 16, suf);
        r = D[k];
        for (int i = 0; i < 16; ++i)
          if (data[i] != 'X')
            r = -77;
        d = data + 16;
      } break;
    case OP_GETRANDOM: {
        size_t n = (size_t)arg(c);
        memset(data, 0xa5, n + 16);
        errno = 0;
        r = getrandom(data, n, 0);
        d = data;
        dn = n + 16;
      } break;

    case OP_OPEN: {
        int64_t k = arg(c);
        const char *s = str(c, NULL);
        int fl = (int)arg(c), mode = (int)arg(c);
        errno = 0;
        D[k] = open(s, fl, mode);
        r = D[k];
      } break;
    case OP_READ: {
        int fd = desc(arg(c));
        size_t n = (size_t)arg(c);
        memset(data, 0xa5, n + 16);
        errno = 0;
        r = read(fd, data, n);
        d = data;
        dn = n + 16;
      } break;
    case OP_WRITE: { int fd = desc(arg(c)); size_t n; const char *s = str(c, &n); errno = 0; r = write(fd, s, n); } break;
    case OP_CLOSE: { int fd = desc(arg(c)); errno = 0; r = close(fd); } break;
    case OP_LSEEK: { int fd = desc(arg(c)); int64_t o = arg(c); int w = (int)arg(c); errno = 0; r = lseek(fd, (off_t)o, w); } break;
    case OP_STAT: { const char *s = str(c, NULL); struct stat st; errno = 0; r = stat(s, &st); put_stat(&st, r, op, errno); continue; }
    case OP_LSTAT: { const char *s = str(c, NULL); struct stat st; errno = 0; r = lstat(s, &st); put_stat(&st, r, op, errno); continue; }
    case OP_FSTAT: { int fd = desc(arg(c)); struct stat st; errno = 0; r = fstat(fd, &st); put_stat(&st, r, op, errno); continue; }
    case OP_UNLINK: { const char *s = str(c, NULL); errno = 0; r = unlink(s); } break;
    case OP_MKDIR: { const char *s = str(c, NULL); int m = (int)arg(c); errno = 0; r = mkdir(s, m); } break;
    case OP_RMDIR: { const char *s = str(c, NULL); errno = 0; r = rmdir(s); } break;
#if !defined(__WASM)
    case OP_MKDIRAT: { int fd = desc(arg(c)); const char *s = str(c, NULL); int m = (int)arg(c); errno = 0; r = mkdirat(fd, s, m); } break;
    case OP_FSTATAT: { int fd = desc(arg(c)); const char *s = str(c, NULL); int fl = (int)arg(c); struct stat st; errno = 0; r = fstatat(fd, s, &st, fl); put_stat(&st, r, op, errno); continue; }
#endif
    case OP_GETCWD: {
        size_t n = (size_t)arg(c);
        memset(data, 0xa5, n + 16);
        errno = 0;
        char *q = getcwd((char*)data, n);
        r = q == NULL ? 0 : q == (char*)data ? 1 : 2;
        d = data;
        dn = n + 16;
      } break;
    case OP_CLOCK: {
        int id = (int)arg(c);
        struct timespec ts;
        ts.tv_sec = ts.tv_nsec = -1;
        errno = 0;
        r = clock_gettime(id, &ts);
        put64(data, ts.tv_sec);
        put64(data + 8, ts.tv_nsec);
        d = data;
        dn = 16;
      } break;
    case OP_TIME: {
        int64_t usep = arg(c);
        time_t t = -7;
        errno = 0;
        r = time(usep ? &t : NULL);
        put64(data, t);
        d = data;
        dn = 8;
      } break;
    case OP_SETERRNO: errno = (int)arg(c); emit(op, 0, errno, NULL, 0); continue;
#if !defined(__WASM)
    case OP_CHDIR: { const char *s = str(c, NULL); errno = 0; r = chdir(s); } break;
    case OP_CHMOD: { const char *s = str(c, NULL); int m = (int)arg(c); errno = 0; r = chmod(s, m); } break;
    case OP_DUP: { int64_t k = arg(c); int fd = desc(arg(c)); errno = 0; D[k] = dup(fd); r = D[k]; } break;
    case OP_PIPE: {
        int64_t k = arg(c), k2 = arg(c);
        int pp[2];
        pp[0] = pp[1] = -99;
        errno = 0;
        r = pipe(pp);
        put64(data, pp[0]);
        put64(data + 8, pp[1]);
        if (r == 0) {
          D[k] = pp[0];
          D[k2] = pp[1];
        }
        d = data;
        dn = 16;
      } break;
    case OP_FORK: {
        size_t skip = (size_t)arg(c);
        int code = (int)arg(c);
        errno = 0;
        r = fork();
        if (r == 0) {
          ++who;
          emit(op, 0, errno, NULL, 0);
          run(c->p, c->p + skip);
          exit(code);
        }
        c->p += skip;
        D[ND - 1] = (int)r;
      } break;
    case OP_KILL: { int64_t pid = arg(c); int sig = (int)arg(c); if (pid == -1000) pid = D[ND - 1]; errno = 0; r = kill((pid_t)pid, sig); } break;
    case OP_ISATTY: { int fd = desc(arg(c)); errno = 0; r = isatty(fd); } break;
    case OP_WAIT: { int st = -5; errno = 0; r = wait(&st); put64(data, st); d = data; dn = 8; } break;
    case OP_WAITPID: case OP_WAIT4: {
        int64_t pid = arg(c);
        int opt = (int)arg(c), st = -5;
        if (pid == -1000)
          pid = D[ND - 1];
        errno = 0;
#if defined(REFERENCE)
        r = waitpid((pid_t)pid, &st, opt);
#else
        r = op == OP_WAITPID ? waitpid((pid_t)pid, &st, opt) : wait4((pid_t)pid, &st, opt, NULL);
#endif
        put64(data, st);
        d = data;
        dn = 8;
      } break;
    case OP_EXECVE: case OP_EXECVP: {
        const char *s = str(c, NULL), *a1 = str(c, NULL);
        char *av[3] = {(char*)s, (char*)a1, NULL}, *ev[2] = {"K=V", NULL};
        errno = 0;
        r = op == OP_EXECVE ? execve(s, av, ev) : execvp(s, av);
      } break;
    case OP_IOCTL: {
        int fd = desc(arg(c));
        int64_t request = arg(c);
        errno = 0;
        r = ioctl(fd, request, data);
      } break;
#endif

    case OP_EXIT: { int code = (int)arg(c); emit(op, code, 0, NULL, 0); exit(code); }
    case OP_RETURN: retcode = (int)arg(c); emit(op, retcode, 0, NULL, 0); return;
    case OP_DEFHANDLER: {
        int64_t k = arg(c);
        size_t n = (size_t)arg(c);
        H[k].p = c->p;
        H[k].n = n;
        c->p += n;
        continue;
      }
    case OP_ATEXIT: { int64_t k = arg(c); errno = 0; r = atexit(handlers[k]); int64_t both = r; put64(data, k); d = data; dn = 8; r = both; } break;
    default:
      emit(255, op, 0, NULL, 0);
      exit(99);
    }
    emit(op, r, errno, d, dn);
  }
}

#if !defined(__WASM)
extern char **environ;
#endif

int main(int argc, char *argv[]) {
  if (argc > 1) {   // started by OP_EXECVE
    size_t n = 0;
    for (int i = 0; i < argc; ++i) {
      size_t l = strlen(argv[i]) + 1;
      memcpy(data + n, argv[i], l);
      n += l;
    }
#if !defined(__WASM)
    for (int i = 0; environ[i] != NULL; ++i) {
      size_t l = strlen(environ[i]) + 1;
      memcpy(data + n, environ[i], l);
      n += l;
    }
#endif
    emit(OP_EXECARG, argv[argc] == NULL ? argc : -1, 0, data, n);
    return 33;
  }
  for (int i = 0; i < ND; ++i)
    D[i] = -1;
  for (int i = 0; i < 256; ++i) {
    canary1[i] = (unsigned char)(i ^ 0x5a);
    canary2[i] = (unsigned char)(i ^ 0xc3);
  }
  for (;;) {
    ssize_t n = read(CTL_IN, script + scriptlen, sizeof(script) - scriptlen);
    if (n <= 0)
      break;
    scriptlen += n;
  }
  run(script, script + scriptlen);
  return retcode >= 0 ? retcode : 0;
}
