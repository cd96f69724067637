#include "inverted_impl.h"
using namespace svs::distance;
IV(f32_l2, float, float, DistanceL2, 1)
