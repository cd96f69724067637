#include "static_impl.h"
using namespace svs::distance;
ST_SCENARIOS(f32_l2, float, float, DistanceL2, 1)
ST_SCENARIOS(f32_ip, float, float, DistanceIP, 2)
ST_SCENARIOS(f32_cos, float, float, DistanceCosineSimilarity, 2)
