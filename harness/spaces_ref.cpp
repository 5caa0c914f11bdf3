// Adapter of the frozen reference copy of the library in /verif/ref (namespace steering_ref).
#include "includes.inc"
#include "core.hpp"
namespace vh
{
#define NS steering_ref
#define MAKE make_ref_space
#include "spaces.inc"
}  // namespace vh
