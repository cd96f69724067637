#include "distance_impl.h"
using F16 = svs::Float16;
DS(int8_t, float, c_f32)
DS(int8_t, F16, c_f16)
DS(int8_t, int8_t, c_i8)
DS(int8_t, uint8_t, c_u8)
