#define IN double
#define OUT int
#include <cstdint>
#include <string>
#define NOEXPLICIT
#include "C30_model.h"
