#include "job.h"
#ifdef STUB
int group_scd(const Job &, const string &, string &out) { out = "no such interface"; return NOGROUP; }
#else
#include "scd/v_2_scd.h"
#include "scd/scd_evaluator.h"
#include "scd/scd.h"
#include "util/common.h"
int group_scd(const Job &j, const string &f, string &out) {
  if (f == "v2scd") return Verilog2SCD(get(j, "in"), get(j, "map"), get(j, "out"));
  if (f == "bris") return Bris2SCD(get(j, "in"), get(j, "map"), get(j, "out"));
  if (f == "plain")
    return EvalauatePlaintextStr(get(j, "scd"), get(j, "p_init", "0"), get(j, "g_init", "0"), get(j, "e_init", "0"),
                                 get(j, "p_input", "0"), get(j, "g_input", "0"), get(j, "e_input", "0"),
                                 (uint64_t) geti(j, "cc", 1), geti(j, "period", 0), (OutputMode) geti(j, "omode", 0), &out);
  return UNKNOWN;
}
#endif
