#include "static_impl.h"
using namespace svs::distance;
ST_SCENARIOS(f16_l2, float, svs::Float16, DistanceL2, 2)
ST_SCENARIOS(u8_l2, uint8_t, uint8_t, DistanceL2, 2)
ST_SCENARIOS(i8_ip, int8_t, int8_t, DistanceIP, 3)
