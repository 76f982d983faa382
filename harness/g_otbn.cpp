#include "job.h"
#ifdef STUB
int group_otbn(const Job &, const string &, string &out) { out = "no such interface"; return NOGROUP; }
#else
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
#include "util/common.h"
static string bnhex(const BIGNUM *b) { char *c = BN_bn2hex(b); string s = c ? c : "?"; OPENSSL_free(c); return s; }

// the big-number forms; msgs in hex, sel a hex number
static int run_otbn(const Job &j, string &out, bool ext) {
  uint32_t n = (uint32_t) geti(j, "n", 0), bl = (uint32_t) geti(j, "bitlen", 128);
  if (ME == 0) {
    vector<string> m = split(get(j, "msgs"), ',');
    BIGNUM ***mm = new BIGNUM **[n ? n : 1];
    for (uint32_t i = 0; i < n; i++) {
      mm[i] = new BIGNUM *[2];
      vector<string> p = split(i < m.size() ? m[i] : "0:0", ':'); p.resize(2);
      for (int k = 0; k < 2; k++) { mm[i][k] = BN_new(); if (!p[k].empty()) BN_hex2bn(&mm[i][k], p[k].c_str()); }
    }
    return ext ? OTExtSendBN(mm, bl, n, VFD) : OTSendBN(mm, n, VFD);
  }
  BIGNUM *sel = BN_new(); string s = get(j, "sel", "0"); BN_hex2bn(&sel, s.c_str());
  BIGNUM **r = new BIGNUM *[n ? n : 1];
  for (uint32_t i = 0; i < n; i++) r[i] = BN_new();
  int rc = ext ? OTExtRecvBN(sel, bl, n, VFD, r) : OTRecvBN(sel, n, VFD, r);
  for (uint32_t i = 0; i < n; i++) { if (i) out += ","; out += bnhex(r[i]); }
  return rc;
}
int group_otbn(const Job &j, const string &kind, string &out) { return run_otbn(j, out, kind == "otextbn"); }
#endif
