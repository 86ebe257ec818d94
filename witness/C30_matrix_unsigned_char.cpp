using T = unsigned char;
#include <cstdint>
#include "C30_matrix.h"
