// Shadows the repository's header: same content, optionally with a small field
// so that every share tape can be enumerated.
#include_next "DPPIR/types/types.h"
#ifdef VMC_PRIME
#undef INCREMENTAL_PRIME
#define INCREMENTAL_PRIME VMC_PRIME
#endif
