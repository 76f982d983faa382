#include "job.h"
#ifdef STUB
int group_ot(const Job &, const string &, string &out) { out = "no such interface"; return NOGROUP; }
#else
#include "crypto/block.h"
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
#include "util/common.h"
static block blk(const string &hex) {
  string b = unhex(hex); b.resize(16); block r; memcpy(&r, b.data(), 16); return r;
}
// oblivious transfer of 16-byte blocks; msgs "m0:m1,m0:m1,...", sel "0110"
static int run_ot(const Job &j, string &out, bool ext) {
  uint32_t n = (uint32_t) geti(j, "n", 0);
  if (ME == 0) {
    vector<string> m = split(get(j, "msgs"), ',');
    block **mm = new block *[n ? n : 1];
    for (uint32_t i = 0; i < n; i++) {
      mm[i] = (block *) aligned_alloc(16, 32);
      vector<string> p = split(i < m.size() ? m[i] : ":", ':'); p.resize(2);
      mm[i][0] = blk(p[0]); mm[i][1] = blk(p[1]);
    }
    return ext ? OTExtSend(mm, n, VFD) : OTSend(mm, n, VFD);
  }
  string s = get(j, "sel");
  bool *sel = new bool[n ? n : 1]; memset(sel, 0, n ? n : 1);
  for (uint32_t i = 0; i < n && i < s.size(); i++) sel[i] = s[i] == '1';
  block *r = (block *) aligned_alloc(16, 16 * (n ? n : 1)); memset(r, 0xEE, 16 * (n ? n : 1));
  int rc = ext ? OTExtRecv(sel, n, VFD, r) : OTRecv(sel, n, VFD, r);
  out = hexof((unsigned char *) r, 16 * n);
  return rc;
}
int group_ot(const Job &j, const string &kind, string &out) { return run_ot(j, out, kind == "otext"); }
#endif
