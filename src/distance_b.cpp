#include "distance_impl.h"
using F16 = svs::Float16;
DS(svs::Float16, float, b_f32)
DS(svs::Float16, F16, b_f16)
DS(svs::Float16, int8_t, b_i8)
DS(svs::Float16, uint8_t, b_u8)
