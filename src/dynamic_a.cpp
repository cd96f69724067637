#include "dynamic_impl.h"
using namespace svs::distance;
DY_SCENARIOS(f32_l2, float, float, DistanceL2, 1)
DY_SCENARIOS(i8_l2, float, int8_t, DistanceL2, 2)
