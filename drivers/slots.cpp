#include "cnn_from_scratch/Layers/Kernel.h"
#include "cnn_from_scratch/Layers/Pooling.h"
#include "cnn_from_scratch/Layers/Activation.h"
#include "cnn_from_scratch/Layers/ConnectedLayer.h"
#include "cnn_from_scratch/Layers/Softmax.h"
using namespace my_cnn;
namespace drv {
using M = SimpleMatrix<double>;
void mark(ModelLayer& l);    // from here on, what the layer remembers about batch slots is arbitrary
M kernel_fwd(int fx, int fy, int fz, unsigned nf, unsigned s, size_t B, M& X, size_t b){ Kernel l(dim3(fx, fy, fz), nf, s); l.setBatchSize(B); mark(l); return l.propagateForward(std::move(X), b); }
M kernel_bwd(int fx, int fy, int fz, unsigned nf, unsigned s, size_t B, const M& X, const M& Y, const M& G, size_t b, bool f){ Kernel l(dim3(fx, fy, fz), nf, s); l.setBatchSize(B); mark(l); return l.propagateBackward(X, Y, G, b, f); }
#define POOL(K) M pooling_fwd_##K(int px, int py, int sx, int sy, size_t B, M& X, size_t b){ Pooling l(dim2(px, py), dim2(sx, sy), K); l.setBatchSize(B); mark(l); return l.propagateForward(std::move(X), b); } \
    M pooling_bwd_##K(int px, int py, int sx, int sy, size_t B, M& X0, const M& X, const M& Y, const M& G, size_t b, bool f){ Pooling l(dim2(px, py), dim2(sx, sy), K); l.setBatchSize(B); M y = l.propagateForward(std::move(X0), b); mark(l); return l.propagateBackward(X, Y, G, b, f); }
POOL(MAX) POOL(MIN) POOL(AVG)
M activation_fwd(M& X, size_t B, size_t b){ Activation l(SIGMOID); l.setBatchSize(B); mark(l); return l.propagateForward(std::move(X), b); }
M activation_bwd(const M& X, const M& Y, const M& G, size_t B, size_t b, bool f){ Activation l(SIGMOID); l.setBatchSize(B); mark(l); return l.propagateBackward(X, Y, G, b, f); }
M connected_first(size_t m, size_t B, M& X, size_t b){ ConnectedLayer l(m); l.setBatchSize(B); mark(l); return l.propagateForward(std::move(X), b); }
M connected_fwd(size_t m, size_t B, M& X0, M& X, size_t b){ ConnectedLayer l(m); l.setBatchSize(B); M y = l.propagateForward(std::move(X0), b); mark(l); return l.propagateForward(std::move(X), b); }
M connected_bwd(size_t m, size_t B, M& X0, const M& X, const M& Y, const M& G, size_t b, bool f){ ConnectedLayer l(m); l.setBatchSize(B); M y = l.propagateForward(std::move(X0), b); mark(l); return l.propagateBackward(X, Y, G, b, f); }
M softmax_fwd(size_t m, size_t B, M& X, size_t b){ Softmax l(m); l.setBatchSize(B); mark(l); return l.propagateForward(std::move(X), b); }
M softmax_bwd(size_t m, size_t B, size_t t, const M& X, const M& Y, const M& G, size_t b, bool f){ Softmax l(m); l.setBatchSize(B); l.assignTrueLabel(t, b); mark(l); return l.propagateBackward(X, Y, G, b, f); }
void softmax_lab(size_t m, size_t B, size_t t, size_t b){ Softmax l(m); l.setBatchSize(B); mark(l); l.assignTrueLabel(t, b); }
}
