#include "job.h"
#ifdef STUB
int group_misc(const Job &, const string &, string &out) { out = "no such interface"; return NOGROUP; }
#else
#include "util/util.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "util/common.h"
int group_misc(const Job &j, const string &f, string &out) {
  if (f == "gateop") { out = GateOperator((int) geti(j, "t", 0), geti(j, "x", 0) != 0, geti(j, "y", 0) != 0) ? "1" : "0"; return SUCCESS; }
  if (f == "randblocks") {
    int n = (int) geti(j, "n", 1); SrandSSE((unsigned) geti(j, "seed", 1));
    for (int i = 0; i < n; i++) { block b = RandomBlock(); out += hexof((unsigned char *) &b, 16); }
    return SUCCESS;
  }
  if (f == "outbn") {         // rendering of given output bits
    GarbledCircuit gc; memset((void *) &gc, 0, sizeof gc); gc.output_size = (uint64_t) geti(j, "w", 1);
    BIGNUM *b = BN_new(); BN_hex2bn(&b, get(j, "v", "0").c_str());
    int rc = geti(j, "lowmem", 0) ? OutputBN2StrLowMem(gc, b, (uint64_t) geti(j, "cc", 1), (OutputMode) geti(j, "omode", 0), &out)
                                  : OutputBN2StrHighMem(gc, b, (uint64_t) geti(j, "cc", 1), (OutputMode) geti(j, "omode", 0), &out);
    return rc;
  }
  return UNKNOWN;
}
#endif
