// Virtual connection between the two parties (two processes sharing memory).
// read()/write()/send()/recv() on VFD go through it: every transfer is
// recorded, can be fragmented, bounded and cut at any byte offset, and a
// mutual wait is recognised exactly instead of by a timeout.
#pragma once
#include <pthread.h>
#include <stdint.h>
#include <stddef.h>
#include <time.h>
#include <string>

static const int VFD = 1000;
static const size_t LOGCAP = 48u << 20;   // bytes per direction and job
static const size_t OUTCAP = 4u << 20;
static const size_t OPCAP = 1u << 18;

struct Dir {                 // party p writes ch[p], the other one reads it
  uint64_t w, r;             // bytes written / read so far
};
struct OpRec { char who, op; uint32_t n; };   // one log for both, in real order

struct Shared {
  pthread_mutex_t mu;
  pthread_cond_t cv;
  // job control
  long job;                  // index of the current job, -1 none, -2 quit
  int done[2];               // party finished the job
  int rc[2];
  uint64_t outlen[2];
  // connection
  Dir ch[2];
  int waiting[2];            // party blocked in the connection
  int closed;                // connection broken
  int deadlock;
  int eof_after_done;        // read hit end because the peer had returned
  int overflow;
  // per job parameters
  int cut_dir;               // -1: no cut
  uint64_t cut_at, most;           // break when this many bytes of cut_dir were written
  uint64_t cap;              // unread bytes allowed per direction
  int frag;                  // 0: none, else max chunk; negative: pseudo-random up to -frag
  int rst;                   // reads after the break fail instead of returning 0
  uint64_t fragstate[2];
  uint64_t nops;
  uint64_t keylen[2];        // RSA keys made by each party: "n:d;" in hex
  char keys[2][1 << 16];
  uint64_t drawlen[2];       // numbers drawn: "x;" in hex
  char draws[2][1 << 18];
};
extern Shared *SH;
extern unsigned char *LOGB[2];
extern char *OUTB[2];
extern OpRec *OPS;
extern int ME;               // 0 = A (garbler / sender), 1 = B

void vio_setup();
void vio_reset();
void vio_lock();
void vio_wait(const struct timespec *t);
void rng_seed(uint64_t s);   // 0: the real generator
void time_freeze(long t);    // 0: the real clock
