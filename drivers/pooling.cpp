#include "cnn_from_scratch/Layers/Pooling.h"
using namespace my_cnn;
using M = SimpleMatrix<double>;
namespace drv {
#define POOL(K) M pool_fwd_##K(int px, int py, int sx, int sy, size_t B, M& X, size_t idx){ Pooling p(dim2(px, py), dim2(sx, sy), K); p.setBatchSize(B); return p.propagateForward(std::move(X), idx); } \
    M pool_bwd_##K(int px, int py, int sx, int sy, size_t B, M& X, M& X2, M& X3, const M& Xb, const M& Z, const M& G, size_t idx, size_t idx2, bool last){ \
        Pooling p(dim2(px, py), dim2(sx, sy), K); p.setBatchSize(B); \
        M y3 = p.propagateForward(std::move(X3), idx); \
        M y = p.propagateForward(std::move(X), idx); \
        M y2 = p.propagateForward(std::move(X2), idx2); \
        return p.propagateBackward(Xb, Z, G, idx, last); }
POOL(MAX) POOL(MIN) POOL(AVG)
}
namespace drv {
#define REFUSE(K) bool pool_refuse_##K(int px, int py, int sx, int sy, size_t B, M& X, size_t idx){ Pooling p(dim2(px, py), dim2(sx, sy), K); p.setBatchSize(B); \
        try { M o = p.propagateForward(std::move(X), idx); } catch (const ModelLayerException& e) { return true; } return false; } \
    M pool_after_##K(int px, int py, int sx, int sy, size_t B, M& X, M& X2, const M& Xb, const M& Z, const M& G, size_t idx, bool last, bool& refused){ \
        Pooling p(dim2(px, py), dim2(sx, sy), K); p.setBatchSize(B); \
        M y = p.propagateForward(std::move(X), idx); \
        refused = false; \
        try { M y2 = p.propagateForward(std::move(X2), idx); } catch (const ModelLayerException& e) { refused = true; } \
        return p.propagateBackward(Xb, Z, G, idx, last); }
REFUSE(MAX) REFUSE(MIN) REFUSE(AVG)
}
