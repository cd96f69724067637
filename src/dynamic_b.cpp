#include "dynamic_impl.h"
using namespace svs::distance;
DY_SCENARIOS(f32_ip, float, float, DistanceIP, 2)
DY_SCENARIOS(f16_cos, float, svs::Float16, DistanceCosineSimilarity, 2)
