#include "job.h"
#ifdef STUB
int group_io(const Job &, const string &, string &out) { out = "no such interface"; return NOGROUP; }
#else
#include "tcpip/tcpip.h"
#include "crypto/BN.h"
#include "util/common.h"
static string bnhex(const BIGNUM *b) { char *c = BN_bn2hex(b); string s = c ? c : "?"; OPENSSL_free(c); return s; }

// transport script: sHEX send, rN receive, BHEX SendBN, b RecvBN
static int run_io(const Job &j, string &out) {
  int rc = SUCCESS;
  BIGNUM *in = BN_new(); BN_hex2bn(&in, "5A00000000000000000000000000000000000000C3");   // numbers are received over the ones before
  for (const string &st : split(get(j, "script"), ',')) {
    if (st.empty()) continue;
    string a = st.substr(1);
    if (st[0] == 's') {
      string d = unhex(a);
      vector<unsigned char> v(d.begin(), d.end()); v.push_back(0);
      int k = SendData(VFD, v.data(), (int) d.size()); if (k == FAILURE) rc = FAILURE;
      out += k == SUCCESS ? "S;" : "F;";
    } else if (st[0] == 'r') {
      int n = atoi(a.c_str());
      vector<unsigned char> v(n + 32, 0xA5);
      int k = RecvData(VFD, v.data() + 16, n); if (k == FAILURE) rc = FAILURE;
      bool clean = true;
      for (int i = 0; i < 16; i++) if (v[i] != 0xA5 || v[16 + n + i] != 0xA5) clean = false;
      out += k == SUCCESS ? "S" + hexof(v.data() + 16, n) : string("F"); out += clean ? ";" : "!;";
    } else if (st[0] == 'B') {
      BIGNUM *b = BN_new(); BN_hex2bn(&b, a.c_str());
      int k = SendBN(VFD, b); if (k == FAILURE) rc = FAILURE;
      out += k == SUCCESS ? "S;" : "F;"; BN_free(b);
    } else if (st[0] == 'b') {
      int k = RecvBN(VFD, in); if (k == FAILURE) rc = FAILURE;
      out += k == SUCCESS ? "S" + bnhex(in) + ";" : string("F;");
    }
  }
  BN_free(in);
  return rc;
}
int group_io(const Job &j, const string &, string &out) { return run_io(j, out); }
#endif
