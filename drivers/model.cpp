#include "cnn_from_scratch/ModelDescription.h"
#include "cnn_from_scratch/Layers/Softmax.h"
using namespace my_cnn;
namespace drv {
using Mo = ModelDescription<double, int>; using Mf = ModelDescription<float, int>; using Ms = ModelDescription<float, std::string>;
float loss(const Mo& m, const SimpleMatrix<double>& p, size_t i){ return m.lossFcn(p, i); }
float lossf(const Mf& m, const SimpleMatrix<double>& p, size_t i){ return m.lossFcn(p, i); }
void assign(Mo& m, ModelResults<int>& r, int label){ m.assignLoss(r, label); }
void assignf(Mf& m, ModelResults<int>& r, int label){ m.assignLoss(r, label); }
ModelResults<int> forward(Mo& m, SimpleMatrix<double> X, size_t b){ return m.forwardPropagation(X, b); }
ModelResults<int> forwardf(Mf& m, SimpleMatrix<float> X, size_t b){ return m.forwardPropagation(X, b); }
ModelResults<int> forward0(Mo& m, SimpleMatrix<double> X){ return m.forwardPropagation(X); }
void backward(Mo& m, ModelResults<int>& r, int label, size_t b){ m.backwardsPropagation(r, label, b); }
void backwardf(Mf& m, ModelResults<int>& r, int label, size_t b){ m.backwardsPropagation(r, label, b); }
int epoch(Ms& m, DataGenerator<float>& d, Ms::Hyperparameters p){ return m.runEpoch(d, p); }
void train(Ms& m, DataGenerator<float>& d, Ms::Hyperparameters p){ m.train(d, p); }
}
