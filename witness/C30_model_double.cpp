#define IN double
#define OUT double
#include <cstdint>
#include <string>
#define NOEXPLICIT
#include "C30_model.h"
