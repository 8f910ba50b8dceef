// Definitions linked into rpu_base.so only: the clock and the libc generator that aihwkit's RNGs seed themselves from.
// verif_reset(seed) makes everything drawn afterwards a function of seed.
#include <chrono>
#include <cstdlib>

static unsigned long long verif_state = 88172645463325252ULL;
static unsigned long long verif_rand = 1;

static unsigned long long verif_next() {
  // splitmix64
  unsigned long long z = (verif_state += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

extern "C" __attribute__((visibility("default"))) void verif_reset(unsigned long long seed) {
  verif_state = seed * 0x9E3779B97F4A7C15ULL + 12345;
  verif_rand = verif_next();
}

namespace std {
namespace chrono {
inline namespace _V2 {
__attribute__((visibility("default"))) system_clock::time_point system_clock::now() noexcept {
  return system_clock::time_point(system_clock::duration((long long)(verif_next() >> 2)));
}
} // namespace _V2
} // namespace chrono
} // namespace std

extern "C" __attribute__((visibility("hidden"))) void srand(unsigned int seed) { verif_rand = seed * 2654435761ULL + 1; }
extern "C" __attribute__((visibility("hidden"))) int rand(void) {
  verif_rand = verif_rand * 6364136223846793005ULL + 1442695040888963407ULL;
  return (int)(verif_rand >> 33);
}
