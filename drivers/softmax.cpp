#include "cnn_from_scratch/Layers/Softmax.h"
using namespace my_cnn;
using M = SimpleMatrix<double>;
namespace drv {
M softmax_forward(size_t nl, M& X, size_t idx){
    Softmax k(nl);
    return k.propagateForward(std::move(X), idx);
}
M softmax_backward(size_t nl, size_t B, const M& X, const M& Z, const M& G, size_t label, size_t idx, size_t label2, size_t idx2, size_t idx3, bool last){
    Softmax k(nl);
    k.setBatchSize(B);
    k.assignTrueLabel(label, idx);
    k.assignTrueLabel(label2, idx2);
    return k.propagateBackward(X, Z, G, idx3, last);
}
M softmax_reset(size_t nl, size_t B, const M& X, const M& Z, const M& G, size_t label, size_t idx, size_t idx3, bool last){
    Softmax k(nl);
    k.setBatchSize(B);
    k.assignTrueLabel(label, idx);
    k.setBatchSize(B);
    return k.propagateBackward(X, Z, G, idx3, last);
}
M softmax_default(size_t nl, const M& X, const M& Z, const M& G, size_t label, bool last){
    Softmax k(nl);
    k.assignTrueLabel(label);
    return k.propagateBackward(X, Z, G, 0, last);
}
}
namespace drv {
bool softmax_refuse(size_t nl, M& X, size_t idx){
    Softmax k(nl);
    try { M o = k.propagateForward(std::move(X), idx); } catch (const ModelLayerException& e) { return true; }
    return false;
}
}
