// instantiates small helpers: bits, clamping, thresholds, lookups, colors (never run)
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "arc_utilities/arc_helpers.hpp"

namespace tu {
struct Color {
  float r, g, b, a;
};
using namespace arc_helpers;
using B = RGBAColorBuilder<Color>;
void helpers(std::map<int, int>& m, std::unordered_map<int, int>& u, const Color& c, const RGBAColor& k) {
  SetBit<uint8_t>(1, 2, true);
  SetBit<uint16_t>(1, 2, true);
  SetBit<uint32_t>(1, 2, true);
  SetBit<uint64_t>(1, 2, true);
  GetBit<uint8_t>(1, 2);
  GetBit<uint16_t>(1, 2);
  GetBit<uint32_t>(1, 2);
  GetBit<uint64_t>(1, 2);
  RetrieveOrDefault(m, 1, 2);
  RetrieveOrDefault(u, 1, 2);
  ClampValue<double>(1, 2, 3);
  ClampValueAndWarn<double>(1, 2, 3);
  SpreadValue<double>(1, 2, 3, 4);
  SpreadValueAndWarn<double>(1, 2, 3, 4);
  B::MakeFromFloatColors(1, 1, 1, 1);
  B::MakeFromHexColors(1, 1, 1, 1);
  B::MakeFromMixedColors(1, 1, 1, 1);
  B::InterpolateHotToCold(1, 2, 3);
  ConvertColor<RGBAColor, Color>(k);
  ConvertColor<Color, RGBAColor>(c);
  GenerateUniqueColor<Color>(1);
  Multiply<Color>(c, 1);
  InterpolateColor<Color>(c, c, 0.5f);
  UniqueColorGenerator<Color>(1).next();
  Multiply<RGBAColor>(k, 1);
  InterpolateColor<RGBAColor>(k, k, 0.5f);
}
}  // namespace tu
