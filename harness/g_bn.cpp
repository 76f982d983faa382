#include "job.h"
#ifdef STUB
int group_bn(const Job &, const string &, string &out) { out = "no such interface"; return NOGROUP; }
#else
#include "crypto/block.h"
#include "crypto/BN.h"
#include "crypto/OT_extension.h"
#include "util/common.h"
static string bnhex(const BIGNUM *b) { char *c = BN_bn2hex(b); string s = c ? c : "?"; OPENSSL_free(c); return s; }

int group_bn(const Job &j, const string &f, string &out) {
  if (f == "blockbn") {       // hex number -> block -> number
    BIGNUM *b = BN_new(), *c = BN_new(); BN_hex2bn(&b, get(j, "v").c_str()); block w = ZeroBlock();
    BNToBlock(b, &w); BlockToBN(c, w); out = hexof((unsigned char *) &w, 16) + "," + bnhex(c); return SUCCESS;
  }
  if (f == "bnxor") {
    BIGNUM *x = BN_new(), *y = BN_new(), *r = BN_new(); BN_hex2bn(&x, get(j, "x").c_str()); BN_hex2bn(&y, get(j, "y").c_str());
    int rc = BN_xor(r, (uint32_t) geti(j, "w", 8), x, y); out = bnhex(r); return rc;
  }
  if (f == "not" || f == "ones") {
    BIGNUM *x = BN_new(); BN_hex2bn(&x, get(j, "v", "0").c_str());
    int rc = f == "not" ? BN_invert(x, (uint32_t) geti(j, "w", 8)) : BN_full_one(x, (uint32_t) geti(j, "w", 8));
    out = bnhex(x); return rc;
  }
  if (f == "switch") {        // matrix transposition
    vector<string> m = split(get(j, "v"), ','); uint32_t w = (uint32_t) geti(j, "w", 1);
    BIGNUM **v = new BIGNUM *[m.size()];
    for (size_t i = 0; i < m.size(); i++) { v[i] = BN_new(); BN_hex2bn(&v[i], m[i].c_str()); }
    BIGNUM **r = nullptr; int rc = SwitchRowColumnBN(v, (uint32_t) m.size(), w, &r);
    for (uint32_t i = 0; rc == SUCCESS && i < w; i++) { if (i) out += ","; out += bnhex(r[i]); }
    return rc;
  }
  return UNKNOWN;
}
#endif
