using T = float;
#include <cstdint>
#include "C30_matrix.h"
