#include "cnn_from_scratch/Layers/ConnectedLayer.h"
using namespace my_cnn;
using M = SimpleMatrix<double>;
namespace drv {
// a layer whose expected input size was settled by an input of shape X0
M connected_forward(unsigned no, M& X0, const M& W, const M& b, M& X, size_t idx, M& W2, M& b2){
    ConnectedLayer k(no);
    M first = k.propagateForward(std::move(X0), idx);
    k.weights = W; k.biases = b;
    M out = k.propagateForward(std::move(X), idx);
    W2 = k.weights; b2 = k.biases;
    return out;
}
// the layer's very first input defines the size
M connected_first(unsigned no, M& X, size_t idx, M& W2, M& b2){
    ConnectedLayer k(no);
    M out = k.propagateForward(std::move(X), idx);
    W2 = k.weights; b2 = k.biases;
    return out;
}
M connected_backward(unsigned no, M& X0, M& W, M& b, const M& X, const M& Z, const M& G, size_t idx, size_t B, bool last, double lr){
    ConnectedLayer k(no);
    M first = k.propagateForward(std::move(X0), idx);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    M dX = k.propagateBackward(X, Z, G, idx, last);
    k.applyBatch(lr);
    W = k.weights; b = k.biases;
    return dX;
}
}
namespace drv {
bool connected_refuse(unsigned no, M& X0, const M& W, const M& b, M& X, size_t idx, M& W2, M& b2){
    ConnectedLayer k(no);
    M first = k.propagateForward(std::move(X0), idx);
    k.weights = W; k.biases = b;
    bool refused = false;
    try { M o = k.propagateForward(std::move(X), idx); } catch (const ModelLayerException& e) { refused = true; }
    W2 = k.weights; b2 = k.biases;
    return refused;
}
}
namespace drv {
void connected_batch(unsigned no, M& X0, M& W, M& b, const std::vector<M>& Xs, const std::vector<M>& Gs, size_t B, double lr, const M& Z){
    ConnectedLayer k(no);
    M first = k.propagateForward(std::move(X0), 0);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    for (size_t i = 0; i < Xs.size(); i++) k.propagateBackward(Xs[i], Z, Gs[i], i, true);
    k.applyBatch(lr);
    W = k.weights; b = k.biases;
}
// two batches: a full one, then one that only fills slot idx; then an update without any sample
void connected_twice(unsigned no, M& X0, M& W, M& b, const std::vector<M>& Xs, const std::vector<M>& Gs, const M& X, const M& G, size_t idx, size_t B, double lr, double lr2, double lr3, const M& Z){
    ConnectedLayer k(no);
    M first = k.propagateForward(std::move(X0), 0);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    for (size_t i = 0; i < Xs.size(); i++) k.propagateBackward(Xs[i], Z, Gs[i], i, true);
    k.applyBatch(lr);
    k.weights = W; k.biases = b;
    k.propagateBackward(X, Z, G, idx, true);
    k.applyBatch(lr2);
    k.applyBatch(lr3);
    W = k.weights; b = k.biases;
}
void connected_same_slot(unsigned no, M& X0, M& W, M& b, const M& X, const M& G, const M& X2, const M& G2, size_t idx, size_t idx2, size_t B, double lr, const M& Z){
    ConnectedLayer k(no);
    M first = k.propagateForward(std::move(X0), 0);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    k.propagateBackward(X, Z, G, idx, true);
    k.propagateBackward(X2, Z, G2, idx2, true);
    k.applyBatch(lr);
    W = k.weights; b = k.biases;
}
// gradients left over from before the batch size was set do not count
void connected_reset(unsigned no, M& X0, M& W, M& b, const M& X, const M& G, size_t idx, size_t B, size_t B2, double lr, const M& Z){
    ConnectedLayer k(no);
    M first = k.propagateForward(std::move(X0), 0);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    k.propagateBackward(X, Z, G, idx, true);
    k.setBatchSize(B2);
    k.applyBatch(lr);
    W = k.weights; b = k.biases;
}
}
