// Stand-in for the CSPICE toolkit (not installed here): the harness provides the functions it needs.
#ifndef VS_SPICE
#define VS_SPICE
typedef int SpiceInt;
typedef char SpiceChar;
typedef double SpiceDouble;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
#define SPICETRUE 1
#define SPICEFALSE 0
extern "C" {
void furnsh_c(const char *file);
void ktotal_c(const char *kind, SpiceInt *count);
void kdata_c(SpiceInt which, const char *kind, SpiceInt fileln, SpiceInt filtln, SpiceInt srcln, SpiceChar *file, SpiceChar *filtyp, SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found);
void bodvrd_c(const char *body, const char *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values);
SpiceDouble unitim_c(SpiceDouble epoch, const char *insys, const char *outsys);
void spkezp_c(SpiceInt targ, SpiceDouble et, const char *ref, const char *abcorr, SpiceInt obs, SpiceDouble ptarg[3], SpiceDouble *lt);
}
#endif
