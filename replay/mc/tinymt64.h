// Stand-in generator for replaying crossprob_mc: hands out the draws listed in $CROSSPROB_DRAWS (their logarithms).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <utility>
struct TINYMT64_T { uint64_t status[2]; uint32_t mat1; uint32_t mat2; uint64_t tmat; };
typedef struct TINYMT64_T tinymt64_t;
// the state is a position in the stream: a position used twice means a copied or re-initialised generator
static inline void tinymt64_init(tinymt64_t *r, uint64_t seed) { r->status[0] = seed; r->status[1] = 0x5eed000000000000; }
static inline void tinymt64_init_by_array(tinymt64_t *r, const uint64_t *k, int n) { uint64_t h = 77; for (int i = 0; i < n; ++i) h = h * 6364136223846793005u + k[i]; tinymt64_init(r, h); }
static inline double replay_draw(tinymt64_t *r)
{
    static std::set<std::pair<uint64_t, uint64_t> > seen;
    if (r->status[1] >> 48 != 0x5eed) { fprintf(stderr, "generator not initialised\n"); _Exit(79); }
    if (!seen.insert(std::make_pair(r->status[0], r->status[1]++)).second) { fprintf(stderr, "number used twice\n"); _Exit(78); }
    static FILE *f = fopen(getenv("CROSSPROB_DRAWS"), "r");
    static long used = 0;
    double L;
    if (!f || fscanf(f, "%la", &L) != 1) { fflush(stdout); fprintf(stderr, "out of draws\n"); _Exit(77); }
    ++used;
    if (const char *u = getenv("CROSSPROB_USED")) { FILE *o = fopen(u, "w"); if (o) { fprintf(o, "%ld", used); fclose(o); } }
    return L == -1e300 ? 0.0 : std::exp(L);
}
static inline double tinymt64_generate_double(tinymt64_t *r) { return replay_draw(r); }
static inline double tinymt64_generate_double01(tinymt64_t *r) { return replay_draw(r); }
static inline double tinymt64_generate_double12(tinymt64_t *r) { return 1.0 + replay_draw(r); }
static inline double tinymt64_generate_doubleOC(tinymt64_t *r) { return replay_draw(r); }
static inline double tinymt64_generate_doubleOO(tinymt64_t *r) { return replay_draw(r); }
