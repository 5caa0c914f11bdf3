#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#endif
#endif
#include "includes.inc"
#include "core.hpp"
namespace vh
{
const SpaceInfo kInfo[N_SPACES] = {
  { "CC_Dubins_fwd", CURV_FREE, CURV_FREE, CC, 1 },      { "CC_Dubins_bwd", CURV_FREE, CURV_FREE, CC, -1 },
  { "CC00_Dubins_fwd", CURV_ZERO, CURV_ZERO, CC, 1 },    { "CC00_Dubins_bwd", CURV_ZERO, CURV_ZERO, CC, -1 },
  { "CC0pm_Dubins_fwd", CURV_ZERO, CURV_PM, CC, 1 },     { "CC0pm_Dubins_bwd", CURV_ZERO, CURV_PM, CC, -1 },
  { "CCpm0_Dubins_fwd", CURV_PM, CURV_ZERO, CC, 1 },     { "CCpm0_Dubins_bwd", CURV_PM, CURV_ZERO, CC, -1 },
  { "CCpmpm_Dubins_fwd", CURV_PM, CURV_PM, CC, 1 },      { "CCpmpm_Dubins_bwd", CURV_PM, CURV_PM, CC, -1 },
  { "Dubins_fwd", CURV_NONE, CURV_NONE, G1, 1 },         { "Dubins_bwd", CURV_NONE, CURV_NONE, G1, -1 },
  { "CC00_Reeds_Shepp", CURV_ZERO, CURV_ZERO, CC, 0 },   { "HC_Reeds_Shepp", CURV_FREE, CURV_FREE, HC, 0 },
  { "HC00_Reeds_Shepp", CURV_ZERO, CURV_ZERO, HC, 0 },   { "HC0pm_Reeds_Shepp", CURV_ZERO, CURV_PM, HC, 0 },
  { "HCpm0_Reeds_Shepp", CURV_PM, CURV_ZERO, HC, 0 },    { "HCpmpm_Reeds_Shepp", CURV_PM, CURV_PM, HC, 0 },
  { "Reeds_Shepp", CURV_NONE, CURV_NONE, G1, 0 },
};
#define NS steering
#define MAKE make_space
#define MAKE_BY_BASE make_space_by_base
#include "spaces.inc"
}  // namespace vh
