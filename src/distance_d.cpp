#include "distance_impl.h"
using F16 = svs::Float16;
DS(uint8_t, float, d_f32)
DS(uint8_t, F16, d_f16)
DS(uint8_t, int8_t, d_i8)
DS(uint8_t, uint8_t, d_u8)
