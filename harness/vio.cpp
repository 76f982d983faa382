#include "vio.h"
#include <sys/mman.h>
#include <sys/socket.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <signal.h>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include <openssl/bn.h>

Shared *SH; unsigned char *LOGB[2]; char *OUTB[2]; OpRec *OPS; int ME = -1;

static void *shm(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return p;
}
void vio_reset() {
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma);
  pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
  pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST);
  pthread_condattr_t ca; pthread_condattr_init(&ca);
  pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED);
  pthread_condattr_setclock(&ca, CLOCK_MONOTONIC);
  memset(SH, 0, sizeof *SH);
  pthread_mutex_init(&SH->mu, &ma);
  pthread_cond_init(&SH->cv, &ca);
  SH->job = -1; SH->cut_dir = -1;
}
void vio_lock() { if (pthread_mutex_lock(&SH->mu) == EOWNERDEAD) pthread_mutex_consistent(&SH->mu); }
void vio_wait(const timespec *t) {
  int k = t ? pthread_cond_timedwait(&SH->cv, &SH->mu, t) : pthread_cond_wait(&SH->cv, &SH->mu);
  if (k == EOWNERDEAD) pthread_mutex_consistent(&SH->mu);
}
void vio_setup() {
  SH = (Shared *) shm(sizeof(Shared));
  for (int i = 0; i < 2; i++) {
    LOGB[i] = (unsigned char *) shm(LOGCAP);
    OUTB[i] = (char *) shm(OUTCAP);
  }
  OPS = (OpRec *) shm(OPCAP * sizeof(OpRec));
  vio_reset();
}
static size_t frag(size_t n) {
  int f = SH->frag;
  if (f == 0 || n == 0) return n;
  if (f > 0) return n < (size_t) f ? n : (size_t) f;
  uint64_t &s = SH->fragstate[ME];
  s = s * 6364136223846793005ull + 1442695040888963407ull;
  size_t m = 1 + (size_t)((s >> 33) % (uint64_t)(-f));
  return n < m ? n : m;
}
static void oprec(char op, uint32_t n) {
  uint64_t &k = SH->nops; char who = ME == 0 ? 'A' : 'B';
  if (k > 0 && OPS[k - 1].op == op && OPS[k - 1].who == who) { OPS[k - 1].n += n; return; }
  if (k < OPCAP) { OPS[k].who = who; OPS[k].op = op; OPS[k].n = n; k++; }
}
// 0: ready; 1: nothing can change any more (dead); waits otherwise
static bool read_ready() { Dir &d = SH->ch[1 - ME]; return d.r < d.w || SH->closed || SH->done[1 - ME]; }
static bool write_ready() { Dir &d = SH->ch[ME]; return d.w - d.r < SH->cap || SH->closed || SH->done[1 - ME]; }
static bool wait_for(bool (*ready)()) {
  while (!ready()) {
    if (SH->deadlock) return false;
    SH->waiting[ME] = (ready == read_ready) ? 1 : 2;
    // the other one blocked too, and its own condition not satisfiable?
    int o = 1 - ME;
    bool oblocked = false;
    if (SH->waiting[o] == 1) { Dir &d = SH->ch[ME]; oblocked = !(d.r < d.w); }
    if (SH->waiting[o] == 2) { Dir &d = SH->ch[o]; oblocked = !(d.w - d.r < SH->cap); }
    if (oblocked) { SH->deadlock = 1; SH->closed = 1; pthread_cond_broadcast(&SH->cv); SH->waiting[ME] = 0; return false; }
    vio_wait(nullptr);
  }
  SH->waiting[ME] = 0;
  return true;
}
static ssize_t vread(void *buf, size_t n) {
  if (n == 0) return 0;
  vio_lock();
  Dir &d = SH->ch[1 - ME];
  ssize_t ret;
  if (!wait_for(read_ready)) { errno = ECONNRESET; ret = -1; }
  else if (d.r < d.w) {
    size_t m = n; if (m > d.w - d.r) m = d.w - d.r;
    m = frag(m);
    memcpy(buf, LOGB[1 - ME] + d.r, m); d.r += m; ret = (ssize_t) m;
    oprec('r', (uint32_t) m);
  } else {
    if (SH->done[1 - ME] && !SH->closed) SH->eof_after_done = 1;
    ret = SH->deadlock || (SH->rst && SH->closed) ? -1 : 0; errno = ECONNRESET;
  }
  pthread_cond_broadcast(&SH->cv);
  pthread_mutex_unlock(&SH->mu);
  return ret;
}
static ssize_t vwrite(const void *buf, size_t n, bool nosignal) {
  if (n == 0) return 0;
  vio_lock();
  Dir &d = SH->ch[ME];
  ssize_t ret;
  if (!wait_for(write_ready)) { errno = EPIPE; ret = -1; }
  else if (SH->closed) { errno = EPIPE; ret = -1; }
  else {
    size_t m = frag(n);
    if (!SH->done[1 - ME] && m > SH->cap - (d.w - d.r)) m = SH->cap - (d.w - d.r);
    if (SH->cut_dir == ME && d.w + m >= SH->cut_at) { m = SH->cut_at - d.w; SH->closed = 1; }
    if (d.w + m > LOGCAP || d.w + m > SH->most) { SH->overflow = 1; SH->closed = 1; m = 0; }
    memcpy(LOGB[ME] + d.w, buf, m); d.w += m;
    if (m == 0) { errno = EPIPE; ret = -1; } else { ret = (ssize_t) m; oprec('w', (uint32_t) m); }
  }
  bool pipe = ret < 0;
  pthread_cond_broadcast(&SH->cv);
  pthread_mutex_unlock(&SH->mu);
  if (pipe && !nosignal) raise(SIGPIPE);   // as a real socket would
  if (pipe) errno = EPIPE;
  return ret;
}
extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_read(int fd, void *b, size_t n) { return fd == VFD ? vread(b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return fd == VFD ? vwrite(b, n, false) : __real_write(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) {
  if (fd != VFD) return __real_recv(fd, b, n, fl);
  if (!(fl & MSG_WAITALL)) return vread(b, n);
  size_t got = 0;
  while (got < n) { ssize_t k = vread((char *) b + got, n - got); if (k <= 0) return got ? (ssize_t) got : k; got += k; }
  return (ssize_t) got;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return fd == VFD ? vwrite(b, n, (fl & MSG_NOSIGNAL) != 0) : __real_send(fd, b, n, fl); }

}
// Deterministic stand-in for the random generator (installed with
// RAND_set_rand_method, so it serves BN_rand and key generation as well): two
// sessions with the same seed can be compared block by block.
static uint64_t rs[2];
static uint64_t rnext() {
  uint64_t a = rs[0], b = rs[1]; rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return rs[1] + b;
}
static int rfill(unsigned char *buf, int num) {
  uint64_t v = 0;
  for (int i = 0; i < num; i++) { if (i % 8 == 0) v = rnext(); buf[i] = (unsigned char)(v >> (8 * (i % 8))); }
  return 1;
}
static int rstatus() { return 1; }
static int rseed(const void *, int) { return 1; }
static int radd(const void *, int, double) { return 1; }
static const RAND_METHOD RM = { rseed, rfill, nullptr, radd, rfill, rstatus };
void rng_seed(uint64_t s) {
  if (s == 0) { RAND_set_rand_method(nullptr); return; }
  uint64_t z = s;
  for (int i = 0; i < 2; i++) { z += 0x9e3779b97f4a7c15ull; uint64_t x = z; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; rs[i] = x ^ (x >> 31); }
  for (int i = 0; i < 16; i++) rnext();
  RAND_set_rand_method(&RM);
}
static long frozen = 0;
void time_freeze(long t) { frozen = t; }
extern "C" {
time_t __real_time(time_t *);
time_t __wrap_time(time_t *p) {
  if (!frozen) return __real_time(p);
  if (p) *p = (time_t) frozen;
  return (time_t) frozen;
}
// Private keys made during a job, for the analysis of recorded transfers.
int __real_RSA_generate_key_ex(RSA *, int, BIGNUM *, BN_GENCB *);
int __wrap_RSA_generate_key_ex(RSA *r, int bits, BIGNUM *e, BN_GENCB *cb) {
  int ok = __real_RSA_generate_key_ex(r, bits, e, cb);
  const BIGNUM *n = nullptr, *d = nullptr;
  if (ok == 1 && ME >= 0) RSA_get0_key(r, &n, nullptr, &d);
  const BIGNUM *p = nullptr, *q = nullptr;
  if (n && d) RSA_get0_factors(r, &p, &q);
  if (p && q) {
    char *a = BN_bn2hex(n), *b = BN_bn2hex(d), *c = BN_bn2hex(p);
    std::string s = std::string(a) + ":" + b + ":" + c + ";";
    OPENSSL_free(c);
    if (SH->keylen[ME] + s.size() <= sizeof SH->keys[ME]) { memcpy(SH->keys[ME] + SH->keylen[ME], s.data(), s.size()); SH->keylen[ME] += s.size(); }
    OPENSSL_free(a); OPENSSL_free(b);
  }
  return ok;
}
// Numbers drawn during a job, for the same purpose.
int __real_BN_rand(BIGNUM *, int, int, int);
int __wrap_BN_rand(BIGNUM *r, int bits, int top, int bottom) {
  int ok = __real_BN_rand(r, bits, top, bottom);
  if (ok == 1 && ME >= 0) {
    char *a = BN_bn2hex(r); size_t n = strlen(a);
    if (SH->drawlen[ME] + n + 1 <= sizeof SH->draws[ME]) { memcpy(SH->draws[ME] + SH->drawlen[ME], a, n); SH->draws[ME][SH->drawlen[ME] + n] = ';'; SH->drawlen[ME] += n + 1; }
    OPENSSL_free(a);
  }
  return ok;
}
}
