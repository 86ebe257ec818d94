#include "cnn_from_scratch/ModelDescription.h"
#include "cnn_from_scratch/Layers/Softmax.h"
#include "cnn_from_scratch/MNISTReader.h"
#include "Layers/Kernel.cpp"
#include "Layers/Pooling.cpp"
#include "Layers/ConnectedLayer.cpp"
#include "Layers/Activation.cpp"
#include "Layers/Softmax.cpp"
#include "MNISTReader.cpp"
using namespace my_cnn;
namespace drv {
using Model = ModelDescription<float, std::string>;
void kernel(dim3 d, unsigned k, unsigned s){ Kernel o(d, k, s); (void)o; }
void pooling(dim2 d, dim2 s, PoolingType t){ Pooling o(d, s, t); }
void pooling2(dim2 d, dim2 s){ Pooling o(d, s); }
void connected(unsigned k){ ConnectedLayer o(k); }
void connected0(){ ConnectedLayer o; }
void connected2(unsigned k, dim3 d){ ConnectedLayer o(k, d); }
void activation(ModelActivationFunction f){ Activation o(f); }
void softmax(size_t k){ Softmax o(k); }
void results(){ ModelResults<std::string> o; }
void resultsi(){ ModelResults<int> o; }
void hyper(){ Model::Hyperparameters o; }
void hyperi(){ ModelDescription<double, int>::Hyperparameters o; }
void model(){ Model o; }
void modeli(){ ModelDescription<double, int> o; }
void image(){ Image o; }
void sample(){ LabeledInput<float> o; }
void reader(std::string a, std::string b){ MNISTReader o(a, b); }
void position(dim3 d, dim3 p){ DimIterator<3> o(d, p); }
void matrix(){ SimpleMatrix<double> o; }
void fill(dim3 d){ SimpleMatrix<double> o(d); }
void filli(dim3 d){ SimpleMatrix<int> o(d); }
void fillb(dim3 d){ SimpleMatrix<float> o(d); }
void filld(dim3 d){ SimpleMatrix<dim3> o(d); }
}
