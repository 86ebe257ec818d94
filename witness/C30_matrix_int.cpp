using T = int;
#include <cstdint>
#include "C30_matrix.h"
