// Job records: shared by the runner and the call groups.
#ifndef JOB_H
#define JOB_H
#include "vio.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <openssl/bn.h>
using std::string; using std::vector; using std::map;

typedef map<string, string> Job;
inline string get(const Job &j, const string &k, const string &def = "") {
  auto i = j.find(string(ME == 0 ? "a." : "b.") + k);
  if (i != j.end()) return i->second;
  i = j.find(k);
  return i != j.end() ? i->second : def;
}
inline long long geti(const Job &j, const string &k, long long def) {
  string s = get(j, k); return s.empty() ? def : strtoll(s.c_str(), nullptr, 10);
}
inline string hexof(const unsigned char *p, size_t n) {
  static const char *H = "0123456789abcdef"; string r; r.reserve(2 * n);
  for (size_t i = 0; i < n; i++) { r += H[p[i] >> 4]; r += H[p[i] & 15]; }
  return r;
}
inline string unhex(const string &s) {
  string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char) strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
inline vector<string> split(const string &s, char c) {
  vector<string> v; if (s.empty()) return v;
  string t; for (char x : s) { if (x == c) { v.push_back(t); t.clear(); } else t += x; }
  v.push_back(t); return v;
}
template<class T> inline string join(const vector<T> &v) {
  std::ostringstream o; for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << v[i]; } return o.str();
}

// Call groups.  Each lives in a file of its own, so that one whose interface
// changed leaves the others usable (built as a stub, it answers NOGROUP).
enum { OK_ = 0, FAIL_ = -1, NOGROUP = -90, UNKNOWN = -91 };
int group_hash(const Job &, const string &, string &out);
int group_gc(const Job &, const string &kind, string &out);
int group_ot(const Job &, const string &kind, string &out);
int group_otbn(const Job &, const string &kind, string &out);
int group_io(const Job &, const string &kind, string &out);
int group_scd(const Job &, const string &fn, string &out);
int group_util(const Job &, const string &fn, string &out);
int group_bn(const Job &, const string &fn, string &out);
int group_misc(const Job &, const string &fn, string &out);
#endif
