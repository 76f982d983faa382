// Runs jobs against the real TinyGarble code: two processes, A (garbler /
// sender) and B (evaluator / receiver), joined by the virtual connection of
// vio.cpp.  One job per input line, fields "key=value" separated by tabs; a
// value for one party only is written "a.key" / "b.key".  One JSON line per job.
#include "job.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <algorithm>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include "crypto/block.h"
#include "util/log.h"

static int run_fn(const Job &j, string &out) {
  string f = get(j, "fn");
  int (*gs[])(const Job &, const string &, string &) = { group_scd, group_util, group_bn, group_misc };
  bool stub = false;
  for (auto g : gs) {
    out.clear();
    int rc = g(j, f, out);
    if (rc == NOGROUP) stub = true;
    else if (rc != UNKNOWN) return rc;
  }
  out.clear();
  return stub ? NOGROUP : UNKNOWN;
}
static rlimit stack_limit() { rlimit r; getrlimit(RLIMIT_STACK, &r); return r; }
static void party(int me, const vector<Job> &jobs) {
  ME = me;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int dn = open("/dev/null", O_RDWR); dup2(dn, 1); dup2(dn, 2);
  if (getenv("VIO_STDERR")) dup2(open(getenv("VIO_STDERR"), O_WRONLY | O_CREAT | O_APPEND, 0644), 2);
  char a0[] = "runner", a1[] = "--log2std"; char *av[] = { a0, a1, nullptr };
  LogInitial(2, av);
  { Job none; string o; group_hash(none, "", o); }
  long last = -1;
  while (true) {
    vio_lock();
    while (SH->job == last || SH->job == -1) vio_wait(nullptr);
    long k = SH->job;
    pthread_mutex_unlock(&SH->mu);
    if (k == -2) _exit(0);
    last = k;
    const Job &j = jobs[k];
    string kind = get(j, "kind"), out; int rc = -98;
    { uint64_t sd = (uint64_t) geti(j, "seed", 0); rng_seed(sd ? 2 * sd + ME : 0); }
    time_freeze((long) geti(j, "time", 0));
    { static rlimit all = stack_limit(); rlimit r = all; if (geti(j, "stack", 0) > 0) r.rlim_cur = (rlim_t) geti(j, "stack", 0); setrlimit(RLIMIT_STACK, &r); }
    if (kind == "gc" || kind == "gcs") rc = group_gc(j, kind, out);
    else if (kind == "ot" || kind == "otext") rc = group_ot(j, kind, out);
    else if (kind == "otbn" || kind == "otextbn") rc = group_otbn(j, kind, out);
    else if (kind == "io") rc = group_io(j, kind, out);
    else if (kind == "fn") rc = me == 0 ? run_fn(j, out) : 0;
    vio_lock();
    if (out.size() > OUTCAP) out.resize(OUTCAP);
    memcpy(OUTB[me], out.data(), out.size());
    SH->outlen[me] = out.size(); SH->rc[me] = rc; SH->done[me] = 1; SH->waiting[me] = 0;
    pthread_cond_broadcast(&SH->cv);
    pthread_mutex_unlock(&SH->mu);
  }
}
static pid_t kid[2];
static void spawn(const vector<Job> &jobs) {
  fflush(stdout);
  for (int p = 0; p < 2; p++) { kid[p] = fork(); if (kid[p] == 0) party(p, jobs); }
}
static void reap() {
  for (int p = 0; p < 2; p++) if (kid[p] > 0) { kill(kid[p], SIGKILL); waitpid(kid[p], nullptr, 0); kid[p] = 0; }
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string jstr(const char *p, size_t n) {
  string r = "\"";
  for (size_t i = 0; i < n; i++) {
    unsigned char c = (unsigned char) p[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char) c;
  }
  return r + "\"";
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]); vector<Job> jobs; string line;
  FILE *out = fopen(argv[2], "w"); if (!out) return 2;
  while (getline(in, line)) {
    Job j; for (const string &f : split(line, '\t')) { size_t e = f.find('='); if (e != string::npos) j[f.substr(0, e)] = f.substr(e + 1); }
    jobs.push_back(j);
  }
  vio_setup();
  bool alive = false; int used = 0, hangs = 0;
  for (long k = 0; k < (long) jobs.size(); k++) {
    const Job &j = jobs[k]; ME = 0;
    if (alive && ++used >= 400) { reap(); alive = false; }
    if (!alive) { vio_reset(); spawn(jobs); alive = true; used = 0; }
    vio_lock();
    for (int p = 0; p < 2; p++) { SH->done[p] = 0; SH->rc[p] = -97; SH->outlen[p] = 0; SH->ch[p].w = SH->ch[p].r = 0; SH->waiting[p] = 0; SH->nops = 0; SH->keylen[p] = SH->drawlen[p] = 0; }
    SH->closed = SH->deadlock = SH->eof_after_done = SH->overflow = 0;
    SH->cut_dir = (int) geti(j, "cut_dir", -1); SH->cut_at = (uint64_t) geti(j, "cut_at", 0);
    if (SH->cut_dir >= 0 && geti(j, "cut_now", 0)) SH->closed = 1;
    SH->cap = (uint64_t) geti(j, "cap", 1ll << 40);
    SH->most = (uint64_t) geti(j, "most", 1ll << 40);
    SH->rst = (int) geti(j, "rst", 0);
    SH->frag = (int) geti(j, "frag", 0); SH->fragstate[0] = k * 2 + 11; SH->fragstate[1] = k * 2 + 12;
    SH->job = k;
    pthread_cond_broadcast(&SH->cv);
    double limit = (double) geti(j, "limit", 60);    // shorter after jobs that hung: they are run again, alone, with the whole limit
    limit = now() + std::min(limit, hangs >= 8 ? .1 : hangs >= 4 ? .5 : hangs >= 2 ? 2. : hangs ? 15. : limit);
    int crash[2] = { 0, 0 }; bool hang = false;
    while (!(SH->done[0] && SH->done[1])) {
      timespec t; clock_gettime(CLOCK_MONOTONIC, &t); t.tv_nsec += 20000000; if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
      vio_wait(&t);
      for (int p = 0; p < 2; p++) {
        int st; if (!SH->done[p] && !crash[p] && waitpid(kid[p], &st, WNOHANG) == kid[p]) {
          crash[p] = WIFSIGNALED(st) ? WTERMSIG(st) : 256 + WEXITSTATUS(st); kid[p] = 0;
          SH->done[p] = 1; SH->rc[p] = -96; pthread_cond_broadcast(&SH->cv);
        }
      }
      if (now() > limit) { hang = true; break; }
    }
    int done0 = SH->done[0], done1 = SH->done[1];
    pthread_mutex_unlock(&SH->mu);
    if (hang) { reap(); alive = false; hangs++; }
    if (crash[0] || crash[1]) { reap(); alive = false; }
    string r = "{\"id\":" + jstr(j.count("id") ? j.at("id").c_str() : "", j.count("id") ? j.at("id").size() : 0);
    r += ",\"rc\":[" + std::to_string(SH->rc[0]) + "," + std::to_string(SH->rc[1]) + "]";
    r += ",\"out\":[" + jstr(OUTB[0], SH->outlen[0]) + "," + jstr(OUTB[1], SH->outlen[1]) + "]";
    r += ",\"crash\":[" + std::to_string(crash[0]) + "," + std::to_string(crash[1]) + "]";
    r += ",\"hang\":" + string(hang ? (string("[") + (done0 ? "0" : "1") + "," + (done1 ? "0" : "1") + "]") : string("null"));
    r += ",\"deadlock\":" + std::to_string(SH->deadlock) + ",\"eof\":" + std::to_string(SH->eof_after_done) + ",\"overflow\":" + std::to_string(SH->overflow);
    r += ",\"w\":[" + std::to_string(SH->ch[0].w) + "," + std::to_string(SH->ch[1].w) + "],\"r\":[" + std::to_string(SH->ch[0].r) + "," + std::to_string(SH->ch[1].r) + "]";
    if (geti(j, "stream", 0)) r += ",\"ab\":\"" + hexof(LOGB[0], SH->ch[0].w) + "\",\"ba\":\"" + hexof(LOGB[1], SH->ch[1].w) + "\"";
    if (geti(j, "ops", 0)) {
      r += ",\"ops\":[";
      for (uint64_t i = 0; i < SH->nops; i++) { if (i) r += ","; r += "[\"" + string(1, OPS[i].who) + string(1, OPS[i].op) + "\"," + std::to_string(OPS[i].n) + "]"; }
      r += "]";
    }
    if (geti(j, "keys", 0)) r += ",\"keys\":[" + jstr(SH->keys[0], SH->keylen[0]) + "," + jstr(SH->keys[1], SH->keylen[1]) + "]";
    if (geti(j, "draws", 0)) r += ",\"draws\":[" + jstr(SH->draws[0], SH->drawlen[0]) + "," + jstr(SH->draws[1], SH->drawlen[1]) + "]";
    r += "}\n";
    fputs(r.c_str(), out); fflush(out);
  }
  reap();
  fclose(out);
  return 0;
}
