#include "cnn_from_scratch/Layers/Activation.h"
using namespace my_cnn;
using M = SimpleMatrix<double>;
namespace drv {
#define ACT(K) M act_fwd_##K(M& X, size_t idx){ Activation a(K); return a.propagateForward(std::move(X), idx); } \
    M act_bwd_##K(const M& X, const M& Z, const M& G, size_t idx, bool last){ Activation a(K); return a.propagateBackward(X, Z, G, idx, last); } \
    int act_round_##K(){ return (int)fromString(toString(K)); } \
    std::string act_name_##K(){ return toString(K); }
ACT(RELU) ACT(SIGMOID) ACT(LINEAR) ACT(TANGENT) ACT(LEAKY_RELU)
std::string act_name(int k){ return toString((ModelActivationFunction)k); }
int act_kind(const std::string& s){ return (int)fromString(s); }
}
