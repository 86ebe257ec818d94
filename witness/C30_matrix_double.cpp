using T = double;
#include <cstdint>
#include "C30_matrix.h"
