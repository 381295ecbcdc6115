/* Instead of the system's: an assertion that fails throws, so that what is refused can be observed */
#undef assert
#define assert(e) ((e) ? (void)0 : throw mc_refused())
#ifndef MC_REFUSED
#define MC_REFUSED
struct mc_refused {};
#endif
