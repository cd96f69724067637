#include "inverted_impl.h"
using namespace svs::distance;
IV(u8_l2, uint8_t, uint8_t, DistanceL2, 1)
