#define main repo_main
#include "main.cpp"
#undef main
namespace drv {
using Mo = my_cnn::ModelDescription<float, std::string>;
void validate_(Mo& m, const Mo::Hyperparameters& p){ validate(m, p); }
}
