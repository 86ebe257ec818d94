#include "cnn_from_scratch/Layers/Kernel.h"
using namespace my_cnn;
using M = SimpleMatrix<double>;
namespace drv {
M kernel_forward(int fx, int fy, int fz, unsigned nf, unsigned s, const M& W, const M& b, M& X, size_t idx, M& W2, M& b2){
    Kernel k(dim3(fx, fy, fz), nf, s);
    k.weights = W; k.biases = b;
    M out = k.propagateForward(std::move(X), idx);
    W2 = k.weights; b2 = k.biases;
    return out;
}
M kernel_backward(int fx, int fy, int fz, unsigned nf, unsigned s, M& W, M& b, const M& X, const M& Z,
        const M& G, size_t idx, size_t B, bool last, double lr){
    Kernel k(dim3(fx, fy, fz), nf, s);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    M dX = k.propagateBackward(X, Z, G, idx, last);
    k.applyBatch(lr);
    W = k.weights; b = k.biases;
    return dX;
}
}
namespace drv {
bool kernel_refuse(int fx, int fy, int fz, unsigned nf, unsigned s, const M& W, const M& b, M& X, M& W2, M& b2, size_t idx){
    Kernel k(dim3(fx, fy, fz), nf, s);
    k.weights = W; k.biases = b;
    bool refused = false;
    try { M o = k.propagateForward(std::move(X), idx); } catch (const ModelLayerException& e) { refused = true; }
    W2 = k.weights; b2 = k.biases;
    return refused;
}
}
namespace drv {
void kernel_batch(int fx, int fy, int fz, unsigned nf, unsigned s, M& W, M& b, const std::vector<M>& Xs, const std::vector<M>& Gs, size_t B, double lr, const M& Z){
    Kernel k(dim3(fx, fy, fz), nf, s);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    for (size_t i = 0; i < Xs.size(); i++) k.propagateBackward(Xs[i], Z, Gs[i], i, true);
    k.applyBatch(lr);
    W = k.weights; b = k.biases;
}

void kernel_twice(int fx, int fy, int fz, unsigned nf, unsigned s, M& W, M& b, const std::vector<M>& Xs, const std::vector<M>& Gs, const M& X, const M& G, size_t idx, size_t B, double lr, double lr2, double lr3, const M& Z){
    Kernel k(dim3(fx, fy, fz), nf, s);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    for (size_t i = 0; i < Xs.size(); i++) k.propagateBackward(Xs[i], Z, Gs[i], i, true);
    k.applyBatch(lr);
    k.weights = W; k.biases = b;
    k.propagateBackward(X, Z, G, idx, true);
    k.applyBatch(lr2);
    k.applyBatch(lr3);
    W = k.weights; b = k.biases;
}
void kernel_same_slot(int fx, int fy, int fz, unsigned nf, unsigned s, M& W, M& b, const M& X, const M& G, const M& X2, const M& G2, size_t idx, size_t idx2, size_t B, double lr, const M& Z){
    Kernel k(dim3(fx, fy, fz), nf, s);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    k.propagateBackward(X, Z, G, idx, true);
    k.propagateBackward(X2, Z, G2, idx2, true);
    k.applyBatch(lr);
    W = k.weights; b = k.biases;
}

void kernel_reset(int fx, int fy, int fz, unsigned nf, unsigned s, M& W, M& b, const M& X, const M& G, size_t idx, size_t B, size_t B2, double lr, const M& Z){
    Kernel k(dim3(fx, fy, fz), nf, s);
    k.weights = W; k.biases = b;
    k.setBatchSize(B);
    k.propagateBackward(X, Z, G, idx, true);
    k.setBatchSize(B2);
    k.applyBatch(lr);
    W = k.weights; b = k.biases;
}
}
