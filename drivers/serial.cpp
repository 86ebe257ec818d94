#include <sstream>
#include "cnn_from_scratch/Layers/Kernel.h"
#include "cnn_from_scratch/Layers/Pooling.h"
#include "cnn_from_scratch/Layers/Activation.h"
#include "cnn_from_scratch/Layers/ConnectedLayer.h"
#include "cnn_from_scratch/Layers/Softmax.h"
using namespace my_cnn;
namespace drv {
using M = SimpleMatrix<double>;
void fault(std::istream& is);     // hook: the text may be damaged here
int left(std::istream& is);       // hook: how much of the text has not been read
template<class L> int back(L& b, const std::string& text, int& rest){
    std::stringstream ss; ss << text << "(1) ----------\n"; fault(ss);
    bool ok = b.deserialize(ss);
    rest = left(ss);
    return ok;
}
int matrix(M& a, M& b, int& rest){
    std::stringstream ss; a.serialize(ss); ss << "(1) ----------\n"; fault(ss);
    bool ok = b.deserialize(ss); rest = left(ss); return ok;
}
int kernel(int fx, int fy, int fz, unsigned nf, unsigned s, const M& W, const M& bi, Kernel& b, int& rest){
    Kernel a(dim3(fx, fy, fz), nf, s); a.weights = W; a.biases = bi;
    return back(b, a.serialize(), rest);
}
// what the restored layer computes
M kernel_use(int fx, int fy, int fz, unsigned nf, unsigned s, const M& W, const M& bi, M& X){
    Kernel a(dim3(fx, fy, fz), nf, s); a.weights = W; a.biases = bi;
    Kernel b(dim3(0, 0, 0), 1, 1); int rest;
    back(b, a.serialize(), rest);
    return b.propagateForward(std::move(X));
}
M kernel_use_bwd(int fx, int fy, int fz, unsigned nf, unsigned s, const M& W, const M& bi, const M& X, const M& Z, const M& G, M& W2, M& b2, double lr){
    Kernel a(dim3(fx, fy, fz), nf, s); a.weights = W; a.biases = bi;
    Kernel b(dim3(0, 0, 0), 1, 1); int rest;
    back(b, a.serialize(), rest);
    b.setBatchSize(1);
    M dX = b.propagateBackward(X, Z, G, 0, false);
    b.applyBatch(lr); W2 = b.weights; b2 = b.biases;
    return dX;
}
int connected(M& X0, unsigned m, const M& W, const M& bi, ConnectedLayer& b, int& rest){
    ConnectedLayer a(m); M y = a.propagateForward(std::move(X0)); a.weights = W; a.biases = bi;
    return back(b, a.serialize(), rest);
}
// a layer that has not seen any input
int fresh_connected(unsigned m, ConnectedLayer& b, int& rest){ ConnectedLayer a(m); return back(b, a.serialize(), rest); }
M fresh_use(unsigned m, M& X){
    ConnectedLayer a(m); ConnectedLayer b(0); int rest;
    back(b, a.serialize(), rest);
    return b.propagateForward(std::move(X));
}
M connected_use(M& X0, unsigned m, const M& W, const M& bi, M& X, bool& refused){
    ConnectedLayer a(m); M y = a.propagateForward(std::move(X0)); a.weights = W; a.biases = bi;
    ConnectedLayer b(0); int rest;
    back(b, a.serialize(), rest);
    return b.propagateForward(std::move(X));
}
M connected_use_bwd(M& X0, unsigned m, const M& W, const M& bi, const M& X, const M& Z, const M& G, M& W2, M& b2, double lr){
    ConnectedLayer a(m); M y = a.propagateForward(std::move(X0)); a.weights = W; a.biases = bi;
    ConnectedLayer b(0); int rest;
    back(b, a.serialize(), rest);
    b.setBatchSize(1);
    M dX = b.propagateBackward(X, Z, G, 0, false);
    b.applyBatch(lr); W2 = b.weights; b2 = b.biases;
    return dX;
}
#define POOL(K) int pooling_##K(int px, int py, int sx, int sy, Pooling& b, int& rest){ Pooling a(dim2(px, py), dim2(sx, sy), K); return back(b, a.serialize(), rest); } \
    M pooling_use_##K(int px, int py, int sx, int sy, M& X){ Pooling a(dim2(px, py), dim2(sx, sy), K); Pooling b(dim2(0, 0), dim2(0, 0), K == MAX ? MIN : MAX); int rest; back(b, a.serialize(), rest); return b.propagateForward(std::move(X)); }
POOL(MAX) POOL(MIN) POOL(AVG)
#define ACT(K) int activation_##K(Activation& b, int& rest){ Activation a(K); return back(b, a.serialize(), rest); } \
    M activation_use_##K(M& X, const M& Z, const M& G, M& dX){ Activation a(K); Activation b(K == LINEAR ? RELU : LINEAR); int rest; back(b, a.serialize(), rest); dX = b.propagateBackward(X, Z, G, 0, false); return b.propagateForward(std::move(X)); }
ACT(RELU) ACT(SIGMOID) ACT(LINEAR) ACT(TANGENT) ACT(LEAKY_RELU)
int softmax(size_t m, Softmax& b, int& rest){ Softmax a(m); return back(b, a.serialize(), rest); }
}
