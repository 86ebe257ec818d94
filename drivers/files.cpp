#include "cnn_from_scratch/ModelDescription.h"
#include "cnn_from_scratch/Layers/Softmax.h"
using namespace my_cnn;
namespace drv {
void stored(const std::string& fn);      // hook: the file as it is between saving and loading
template<class M, class L, class F> M trip(const std::vector<L>& labels, bool softmax, const std::string& fn, bool& saved, bool& loaded, F add){
    M a; add(a);
    a.setOutputLabels(labels, softmax ? SOFTMAX : UNSPECIFIED_OUTPUT);
    saved = a.saveModel(fn);
    stored(fn);
    M b; loaded = b.loadModel(fn);
    return b;
}
#define TRIP(NAME, SM, BODY) \
    ModelDescription<float, std::string> NAME##_s(const std::vector<std::string>& labels, const std::string& fn, bool& saved, bool& loaded, int x, int y, int z, size_t m){ return trip<ModelDescription<float, std::string>>(labels, SM, fn, saved, loaded, [&](auto& a){ BODY }); } \
    ModelDescription<double, int> NAME##_i(const std::vector<int>& labels, const std::string& fn, bool& saved, bool& loaded, int x, int y, int z, size_t m){ return trip<ModelDescription<double, int>>(labels, SM, fn, saved, loaded, [&](auto& a){ BODY }); }
// saving only
template<class M, class L, class F> bool save(M& a, const std::vector<L>& labels, bool softmax, const std::string& fn, F add){
    add(a);
    a.setOutputLabels(labels, softmax ? SOFTMAX : UNSPECIFIED_OUTPUT);
    bool ok = a.saveModel(fn);
    stored(fn);
    return ok;
}
// a layer that cannot be written
struct Unwritable : Activation {
    Unwritable() : Activation(SIGMOID) {}
    std::string serialize() const override { throw std::runtime_error("this layer cannot be written"); }
};
#define SAVE(NAME, SM, BODY) \
    bool NAME##_s(const std::vector<std::string>& labels, const std::string& fn, int x, int y, int z, size_t m){ ModelDescription<float, std::string> a; return save(a, labels, SM, fn, [&](auto& a){ BODY }); } \
    bool NAME##_i(const std::vector<int>& labels, const std::string& fn, int x, int y, int z, size_t m){ ModelDescription<double, int> a; return save(a, labels, SM, fn, [&](auto& a){ BODY }); }
bool load_s(const std::string& fn){ ModelDescription<float, std::string> a; return a.loadModel(fn); }
bool load_i(const std::string& fn){ ModelDescription<double, int> a; return a.loadModel(fn); }
#define K_ a.addKernel(dim3(x, y, z), m);
#define P_ a.addPooling(dim2(x, y), dim2(y, z), AVG);
#define C_ a.addConnectedLayer(m);
#define A_ a.addActivation(SIGMOID);
TRIP(none, false, ) TRIP(softmax, true, )
TRIP(k, true, K_) TRIP(p, true, P_) TRIP(c, true, C_) TRIP(a, true, A_)
TRIP(kn, false, K_) TRIP(pn, false, P_) TRIP(cn, false, C_) TRIP(an, false, A_)
TRIP(kapa, true, K_ A_ P_ A_) TRIP(ckpk, true, C_ K_ P_ K_) TRIP(aac, true, A_ A_ C_) TRIP(ppcckn, false, P_ P_ C_ C_ K_) TRIP(kapcakpaca, true, K_ A_ P_ C_ A_ K_ P_ A_ C_ A_)
SAVE(save_softmax, true, ) SAVE(save_none, false, ) SAVE(save_kapc, true, K_ A_ P_ C_) SAVE(save_ck, false, C_ K_)
SAVE(unwritable_first, true, a.layers.emplace_back(new Unwritable()); K_ ) SAVE(unwritable_last, false, K_ P_ a.layers.emplace_back(new Unwritable()); )
}
