#include "job.h"
#ifdef STUB
int group_util(const Job &, const string &, string &out) { out = "no such interface"; return NOGROUP; }
#else
#include "util/util.h"
#include "util/common.h"
#include "util/log.h"
int group_util(const Job &j, const string &f, string &out) {
  if (f == "hex") { out = to_string_hex((uint64_t) strtoull(get(j, "v").c_str(), nullptr, 10), (int) geti(j, "pad", 0)); return SUCCESS; }
  if (f == "dec2bin") { out = dec2bin(geti(j, "v", 0), (uint16_t) geti(j, "w", 1)); return SUCCESS; }
  if (f == "bin2dec") { out = std::to_string(bin2dec(get(j, "v"), geti(j, "signed", 0) != 0)); return SUCCESS; }
  if (f == "hex2bin") { out = hex2bin(get(j, "v")); return SUCCESS; }
  if (f == "bin2hex") { out = bin2hex(get(j, "v")); return SUCCESS; }
  if (f == "mask") { out = formatGCOutputMask((uint16_t) geti(j, "n", 1), (uint16_t) geti(j, "w", 1), geti(j, "same", 0) != 0); return SUCCESS; }
  if (f == "fmtin") {
    vector<uint64_t> v; vector<uint16_t> w;
    for (auto &s : split(get(j, "v"), ',')) v.push_back(strtoull(s.c_str(), nullptr, 10));
    for (auto &s : split(get(j, "w"), ',')) w.push_back((uint16_t) atoi(s.c_str()));
    out = formatGCInputString(v, w); return SUCCESS;
  }
  if (f == "parseout") {
    vector<int64_t> v; vector<uint16_t> w;
    for (auto &s : split(get(j, "w"), ',')) w.push_back((uint16_t) atoi(s.c_str()));
    v.resize(w.size());
    parseGCOutputString(v, get(j, "v"), w, (uint16_t) geti(j, "offset", 0));
    out = join(v); return SUCCESS;
  }
  if (f == "file") { out = ReadFileOrPassHex(get(j, "v")); return SUCCESS; }
  if (f == "str2block") { block b = ZeroBlock(); int rc = Str2Block(get(j, "v"), &b); std::ostringstream t; t << b; out = hexof((unsigned char *) &b, 16) + "," + t.str(); return rc; }
  if (f == "icompare") { out = icompare(get(j, "x"), get(j, "y")) ? "1" : "0"; return SUCCESS; }
  return UNKNOWN;
}
#endif
