#include "cnn_from_scratch/ModelDescription.h"
#include "cnn_from_scratch/Layers/Softmax.h"
using namespace my_cnn;
#ifndef NOEXPLICIT
template class my_cnn::ModelDescription<IN, OUT>;
#endif
template struct my_cnn::ModelResults<OUT>;
struct Gen : DataGenerator<IN> {
    LabeledInput<IN> getNextDataPoint() override { return {}; }
    size_t size() override { return 1; }
    bool hasAvailableData() override { return true; }
    void reset() override {}
};
void use(){
    ModelDescription<IN, OUT> m;
    m.addKernel({2, 2, 1}, 2); m.addPooling({2, 2}, {1, 1}, MAX); m.addConnectedLayer(3); m.addActivation(RELU);
    m.setOutputLabels(std::vector<OUT>(3)); m.setOutputLabels(std::vector<OUT>(3), SOFTMAX);
    ModelResults<OUT> r = m.forwardPropagation(SimpleMatrix<IN>(dim3(3, 3, 1))); m.forwardPropagation(SimpleMatrix<IN>(), 1);
    m.lossFcn(SimpleMatrix<double>(), 0); m.assignLoss(r, OUT()); m.backwardsPropagation(r, OUT(), 0);
    m.saveModel("x"); m.loadModel("x");
}
