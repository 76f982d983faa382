#include "job.h"
#ifdef STUB
int group_hash(const Job &, const string &, string &) { return NOGROUP; }
#else
#include "crypto/OT_extension.h"
int group_hash(const Job &, const string &, string &) { return HashInit(); }
#endif
