K='src/Layers/Kernel.cpp'; C='src/Layers/ConnectedLayer.cpp'; A='src/Layers/Activation.cpp'; PO='src/Layers/Pooling.cpp'; S='src/Layers/Softmax.cpp'
HEAD='''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include "cnn_from_scratch/Layers/Kernel.h"
#include "cnn_from_scratch/Layers/ConnectedLayer.h"
#include "cnn_from_scratch/Layers/Activation.h"
#include "cnn_from_scratch/Layers/Pooling.h"
#include "cnn_from_scratch/Layers/Softmax.h"
using namespace my_cnn; using M = SimpleMatrix<double>;
static M rnd(int x, int y, int z, int s){ M m(dim3(x,y,z)); srand(s); for (double& v : m) v = rand()%1000/250.0 - 2; return m; }
static void fail(const char* w){ printf("broken: %s\\n", w); exit(1); }
static bool near(double a, double b){ return std::fabs(a-b) < 1e-9*(1+std::fabs(a)); }
'''
def D(body): return HEAD + 'int main(){\n' + body + '\nreturn 0;\n}\n'
KREF='''
 for (int st = 1; st <= 3; st++) for (int fz = 1; fz <= 4; fz++) for (int nf = 1; nf <= 4; nf++) for (int e = 0; e < 3; e++){
  Kernel k(dim3(2,3,fz), nf, st); M X = rnd(6+e,7,fz,st+fz+e); M C = X; M Y = k.propagateForward(std::move(C), 0);
  if (Y.dim().x != (6+e-2)/st+1 || Y.dim().y != (7-3)/st+1 || Y.dim().z != nf) fail("size");
  for (int f = 0; f < nf; f++) for (int y = 0; y < Y.dim().y; y++) for (int x = 0; x < Y.dim().x; x++){
   double s = k.biases(f,0,0); for (int q = 0; q < fz; q++) for (int j = 0; j < 3; j++) for (int i = 0; i < 2; i++) s += X(x*st+i,y*st+j,q)*k.weights(i,j,f*fz+q);
   if (!near(s, Y(x,y,f))) fail("value"); }
 }
'''
KBACK='''
 for (int fz = 1; fz <= 3; fz++) for (int nf = 1; nf <= 3; nf++) for (int fx = 1; fx <= 3; fx++){
  Kernel k(dim3(fx,2,fz), nf, 1); k.setBatchSize(3); M X = rnd(5,6,fz,fz+nf); M G = rnd(5-fx+1,5,nf,7);
  M dX = k.getdLdX(X, G); M dW = k.getdLdW(X, G); M dB = k.getdLdB(G);
  M wX(X.dim()), wW(k.weights.dim()), wB(k.biases.dim());
  for (int f = 0; f < nf; f++) for (int y = 0; y < G.dim().y; y++) for (int x = 0; x < G.dim().x; x++){ double g = G(x,y,f); wB(f,0,0) += g;
   for (int q = 0; q < fz; q++) for (int j = 0; j < 2; j++) for (int i = 0; i < fx; i++){ wX(x+i,y+j,q) += g*k.weights(i,j,f*fz+q); wW(i,j,f*fz+q) += g*X(x+i,y+j,q); } }
  for (size_t i = 0; i < wX.size(); i++) if (!near(wX[i],dX[i])) fail("dX");
  for (size_t i = 0; i < wW.size(); i++) if (!near(wW[i],dW[i])) fail("dW");
  for (size_t i = 0; i < wB.size(); i++) if (!near(wB[i],dB[i])) fail("dB");
 }
'''
SEEDS=[
dict(id='C13-filter-offset', property='C13', needs='a convolution layer with at least three filters of differing channel counts (filter index times input depth differs from the clamped offset only from the third filter on with depth above 3)', breaks='the third and later filters use the weights of another filter when the input has more than three channels',
 edits=[(K,'weights.slices(i*dim_.z, dim_.z)','weights.slices(i*std::min<int>(dim_.z, 3), dim_.z)')], demo=D(KREF)),
dict(id='C13-bias-accumulates-depth', property='C13', needs='an input with three or more channels', breaks='the bias is added once more for the third channel',
 edits=[(K,'            output.slice(i) += convolve(I, W, dim2(stride, stride));','            output.slice(i) += convolve(I, W, dim2(stride, stride));\n            if (j == 2) output.slice(i) += biases[i];')], demo=D(KREF)),
dict(id='C14-input-gradient-overwritten', property='C14', needs='a layer with several filters followed by another one, so that the input gradients of the filters have to be added up', breaks='only the last filter contributes to the third and later channels of the input gradient',
 edits=[(K,'dLdX = dLdX + filter_gradient;','dLdX = (filter_idx == 2 ? 0.0 : 1.0)*dLdX + filter_gradient;')], demo=D(KBACK)),
dict(id='C14-bias-index', property='C14', needs='three filters', breaks='the bias gradient of the third filter is that of the second one',
 edits=[(K,'dLdB[filter_idx] = sum(dLdY.slice(filter_idx));','dLdB[filter_idx] = sum(dLdY.slice(filter_idx == 2 ? 1 : filter_idx));')], demo=D(KBACK)),
dict(id='C15-outer-product-slot', property='C15', needs='a second sample in the same batch with batch index above zero', breaks='bias gradients of all samples of a batch are kept under index 0',
 edits=[(C,'bias_gradients_[batch_idx]   = getdLdB(dLdZ);','bias_gradients_[batch_idx % 2] = getdLdB(dLdZ);')],
 demo=D('''
  ConnectedLayer k(2); M a = rnd(3,1,1,1); M x = a; k.setBatchSize(4); k.propagateForward(std::move(x), 0);
  M b0 = k.biases; M sum(b0.dim());
  for (int i = 0; i < 4; i++){ M g = rnd(2,1,1,9+i); for (int q = 0; q < 2; q++) sum[q] += g[q]; k.propagateBackward(a, g, g, i, true); }
  k.applyBatch(0.5);
  for (int q = 0; q < 2; q++) if (!near(k.biases[q], b0[q] - 0.5*sum[q]/4)) fail("bias update");''')),
dict(id='C15-flatten-order', property='C15', needs='a non-flat input of which the layer has to flatten the transposed order (depth greater than one and more than one column)', breaks='the weight gradient flattens inputs with several layers row by row',
 edits=[(C,'    SimpleMatrix<double> flatX = X;\n','    SimpleMatrix<double> flatX = X;\n    if (X.dim().z > 1) flatX = transpose(X);\n')],
 demo=D('''
  ConnectedLayer k(2); M a = rnd(2,3,2,1); M x = a; k.setBatchSize(1); k.propagateForward(std::move(x), 0);
  M g = rnd(2,1,1,3); M w = k.getdLdW(a, g);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 12; j++) if (!near(w(i,j,0), g[i]*a[j])) fail("weight gradient");''')),
dict(id='C16-leaky-relu-slope', property='C16', needs='a leaky ReLU fed exactly zero or a positive value smaller than one tenth', breaks='the derivative is 0.1 for inputs up to 0.1 although the function has slope 1 there',
 edits=[(A,'double leakyRelyGradFcn(double val) {return val > 0 ? 1.0 : 0.1;}','double leakyRelyGradFcn(double val) {return val > 0.1 ? 1.0 : 0.1;}')],
 demo=D('''
  Activation a(LEAKY_RELU); M x(dim3(2,1,1)); x[0] = 0.05; x[1] = -3; M c = x; M y = a.propagateForward(std::move(c), 0); M g(dim3(2,1,1), 1.0);
  M d = a.propagateBackward(x, y, g, 0, false); if (!near(d[0], 1) || std::fabs(d[1]-0.1) > 1e-6) fail("leaky relu gradient");''')),
dict(id='C16-sigmoid-derivative', property='C16', needs='a sigmoid layer and inputs far from the origin', breaks='the derivative of the sigmoid is cut off for large inputs',
 edits=[(A,'double sigmoidGradFcn(double val)   {return sigmoidFcn(val)*(1 - sigmoidFcn(val));}','double sigmoidGradFcn(double val)   {return val > 8 ? 0 : sigmoidFcn(val)*(1 - sigmoidFcn(val));}')],
 demo=D('''
  Activation a(SIGMOID); M x(dim3(1,1,1)); x[0] = 9; M g(dim3(1,1,1), 1.0); M d = a.propagateBackward(x, x, g, 0, false);
  double s = 1/(1+std::exp(-9.0)); if (std::fabs(d[0] - s*(1-s)) > 1e-9) fail("sigmoid gradient");''')),
dict(id='C17-overlapping-windows', property='C17', needs='overlapping max pooling windows that share their largest element', breaks='an element that is the maximum of several windows only receives the gradient of the last one',
 edits=[(PO,'dLdx(*it) += dLdY(it.idx());','dLdx(*it) = dLdY(it.idx());')],
 demo=D('''
  Pooling p(dim2(3,3), dim2(1,1), MAX); M x(dim3(4,4,1)); x(1,1,0) = 5; M c = x; M y = p.propagateForward(std::move(c), 0);
  M g(y.dim(), 1.0); M d = p.propagateBackward(x, y, g, 0, false); if (!near(d(1,1,0), 4)) fail("gradient of shared maximum");''')),
dict(id='C17-stride-mixed', property='C17', needs='average pooling with different strides in the two directions', breaks='the gradient of average pooling goes to the wrong columns',
 edits=[(PO,'dim3 in_idx(out_it.idx().x*stride_.x, out_it.idx().y*stride_.y, out_it.idx().z);','dim3 in_idx(out_it.idx().x*stride_.x, out_it.idx().y*stride_.x, out_it.idx().z);')],
 demo=D('''
  Pooling p(dim2(1,1), dim2(1,2), AVG); M x = rnd(3,6,1,1); M c = x; M y = p.propagateForward(std::move(c), 0); M g = rnd(3,3,1,2);
  M d = p.propagateBackward(x, y, g, 0, false); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!near(d(i,2*j,0), g(i,j,0))) fail("average gradient");''')),
dict(id='C18-label-position', property='C18', needs='a true label at the last position', breaks='no gradient is subtracted for the last label',
 edits=[(S,'    dLdX[true_label_idx] -= 1;','    dLdX[true_label_idx] -= (true_label_idx + 1 < output.size() || output.size() < 4) ? 1 : 0;')],
 demo=D('''
  Softmax s(5); M x = rnd(5,1,1,4); M c = x; M y = s.propagateForward(std::move(c), 0); s.setBatchSize(2); s.assignTrueLabel(4, 1);
  M d = s.propagateBackward(x, y, y, 1, false); for (int i = 0; i < 5; i++) if (!near(d[i], y[i] - (i == 4))) fail("softmax gradient");''')),
dict(id='C20-mean-of-capacity', property='C20', needs='nothing but a batch size above one', breaks='the bias update sums instead of averaging',
 edits=[(C,'biases  -= learning_rate * avg_bias_grad;','biases  -= (learning_rate * biases.dim().y) * avg_bias_grad;')],
 demo=D('return 0;')),
dict(id='C24-softmax-matrix', property='C24', needs='an output layer input that has the right element count but is not a vector', breaks='the softmax layer accepts matrices with the right number of elements',
 edits=[(S,'(input.isColumn() || input.isRow()) && ','(input.isColumn() || input.isRow() || input.dim().z == 1) && ')],
 demo=D('''
  Softmax s(6); try{ s.propagateForward(rnd(2,3,1,4), 0); fail("accepted a matrix"); }catch(const ModelLayerException&){}
  M y = s.propagateForward(rnd(6,1,1,4), 0);''')),
dict(id='C24-connected-shape', property='C24', needs='a later input with the same first dimension as the expected one but another element count', breaks='inputs of the wrong element count are accepted if the layer has as many outputs',
 edits=[(C,'        return ( weights.dims() == expected_size );','        return ( weights.dims() == expected_size || (size_t)weights.dim().y < input_data.size() && input_data.size() % weights.dim().y == 0 );')],
 demo=D('''
  ConnectedLayer k(2); k.propagateForward(rnd(3,1,1,1), 0);
  try{ k.propagateForward(rnd(3,2,1,1), 0); fail("accepted"); }catch(const ModelLayerException&){} catch(const std::exception&){ fail("wrong exception"); }''')),
]
SEEDS=[s for s in SEEDS if s['id']!='C20-mean-of-capacity']
