#include "flat_impl.h"
using namespace svs::distance;
FL(i8_l2, int8_t, int8_t, DistanceL2, 2)
FL(u8_l2, float, uint8_t, DistanceL2, 2)
FL(i8_ip, int8_t, int8_t, DistanceIP, 2)
FL(u8_cos, uint8_t, uint8_t, DistanceCosineSimilarity, 2)
VH_SCENARIO(facade_f16, "C08 C23 C13 C14", 30, 1000) { fl::facade<svs::Float16>(c); }
VH_SCENARIO(facade_i8, "C08 C23 C13 C14", 30, 1000) { fl::facade<int8_t>(c); }
