#include "inverted_impl.h"
using namespace svs::distance;
IV(f32_ip, float, float, DistanceIP, 1)
