#include "storage_impl.h"
VH_SCENARIO(saved_data, "C17 C18 C14", 100, 5000) { so::round_trip(c, so::any_data_art(c.rng)); }
VH_SCENARIO(saved_other, "C17 C18 C14", 100, 5000) { so::round_trip(c, so::any_other_art(c.rng)); }
VH_SCENARIO(saved_params, "C17 C18 C14", 200, 10000) { so::round_trip(c, so::any_param_art(c.rng)); }
