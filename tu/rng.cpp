// instantiates the random number generators (never run)
#include <cstdint>
#include "arc_utilities/arc_helpers.hpp"

namespace tu {
template <typename G>
void use() {
  G g(1);
  g.seed(2);
  g.discard(3);
  g();
}
void rngs() {
  use<arc_helpers::SplitMix64PRNG>();
  use<arc_helpers::XorShift128PlusPRNG>();
  use<arc_helpers::XorShift1024StarPRNG>();
}
}  // namespace tu
