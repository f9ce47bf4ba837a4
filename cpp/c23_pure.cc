// C23: results are a pure function of the arguments and the generator; const operations change nothing.
// A case is run twice from the same choices, on differently filled memory and with unrelated work in between
// that uses other generators; both runs must leave the same trace and the same generator.
#include "scripts.hpp"
#include <malloc.h>
#include <cstdlib>

__attribute__((noipa)) static void dirty_stack(int byte) { volatile unsigned char a[60000]; for (size_t i = 0; i < sizeof a; ++i) a[i] = byte; }

template<class F> static void twice(Src & src, F body) {
    mallopt(M_PERTURB, 0x55);
    dirty_stack(0xAA);
    Trace t1, t2;
    uint32_t seed = 1 + src.draw(2147483645);
    size_t from = src.choices().size();
    rng_t r1(seed), r2(seed);
    body(src, r1, t1);
    {   // unrelated work in between
        Src junk(0x9E3779B97F4A7C15ULL ^ seed, src.size());
        Trace t; rng_t r(1 + seed % 1000);
        try { body(junk, r, t); } catch (eng::Fail &) {} catch (eng::Discard &) {}
        std::srand(seed ^ 0x5bd1e995u);
    }
    mallopt(M_PERTURB, 0x80);
    dirty_stack(0x3F);
    std::vector<uint64_t> again(src.choices().begin() + from, src.choices().end());
    Src second(again, src.size());
    body(second, r2, t2);
    mallopt(M_PERTURB, 0);
    size_t n = std::min(t1.v.size(), t2.v.size());
    for (size_t i = 0; i < n; ++i) REQ(t1.v[i] == t2.v[i] && t1.what[i] == t2.what[i], "the same run twice differs at step " << i << " (" << t1.what[i] << " / " << t2.what[i] << ")");
    REQ_EQ(t1.v.size(), t2.v.size(), "number of results");
    REQ(r1 == r2, "the generator is left in different states");
}

#if PART <= 1
#define X(suffix, M, w) \
    TARGET(C23_group_##suffix, w, "the group is not empty") { twice(src, group_script<M>); } \
    TARGET(C23_cached_##suffix, 0.7 * w, "at least two groups") { twice(src, mixture_script<M, M::FastMixture>); } \
    TARGET(C23_plain_##suffix, 0.3 * w, "at least two groups") { twice(src, mixture_script<M, MixtureSlave<M>>); }
#else
#define X(suffix, M, w) \
    TARGET(C23_group_##suffix, w, "the group is not empty") { twice(src, group_script<M>); } \
    TARGET(C23_plain_##suffix, 0.7 * w, "at least two groups") { twice(src, mixture_script<M, MixtureSlave<M>>); }
#endif
FOR_MODELS

#if PART == 0
TARGET(C23_clustering, 1, "always") { twice(src, clustering_script); }
TARGET(C23_random, 1, "always") { twice(src, random_script); }
#endif
