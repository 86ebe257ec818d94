#define IN double
#define OUT std::string
#include <cstdint>
#include <string>
#include "C30_model.h"
void t(){ Gen g; ModelDescription<IN, OUT> m; ModelDescription<IN, OUT>::Hyperparameters p; m.train(g, p); m.runEpoch(g, p); }
