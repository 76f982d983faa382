#include "job.h"
#ifdef STUB
int group_gc(const Job &, const string &, string &out) { out = "no such interface"; return NOGROUP; }
#else
#include "garbled_circuit/garbled_circuit.h"
#include "util/common.h"
static int run_gc(const Job &j, string &out) {
  if (ME == 0)
    return GarbleStr(get(j, "scd"), get(j, "p_init", "0"), get(j, "p_input", "0"), get(j, "g_init", "0"),
                     get(j, "g_input", "0"), (uint64_t) geti(j, "cc", 1), get(j, "mask", "0"), geti(j, "period", 0),
                     (OutputMode) geti(j, "omode", 0), geti(j, "noot", 0) != 0, geti(j, "lowmem", 0) != 0, &out, VFD);
  return EvaluateStr(get(j, "scd"), get(j, "p_init", "0"), get(j, "p_input", "0"), get(j, "e_init", "0"),
                     get(j, "e_input", "0"), (uint64_t) geti(j, "cc", 1), get(j, "mask", "0"), geti(j, "period", 0),
                     (OutputMode) geti(j, "omode", 0), geti(j, "noot", 0) != 0, geti(j, "lowmem", 0) != 0, &out, VFD);
}
// kind gcs: sessions 0 .. n-1 one after the other over the same connection.
int group_gc(const Job &j, const string &kind, string &out) {
  if (kind != "gcs") return run_gc(j, out);
  long n = geti(j, "n", 0);
  vector<Job> subs(n);
  for (auto &f : j) {
    size_t e = f.first.find('.');
    if (e == string::npos || e == 0 || f.first[0] < '0' || f.first[0] > '9') continue;
    long k = strtol(f.first.c_str(), nullptr, 10);
    if (k >= 0 && k < n) subs[k][f.first.substr(e + 1)] = f.second;
  }
  for (long k = 0; k < n; k++) {
    string o;
    int rc = run_gc(subs[k], o);
    out += (k ? "|" : "") + std::to_string(rc) + ":" + o;
  }
  return 0;
}
#endif
