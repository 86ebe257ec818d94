MT='src/ModelDescription.tpp'; K='src/Layers/Kernel.cpp'; C='src/Layers/ConnectedLayer.cpp'; A='src/Layers/Activation.cpp'; PO='src/Layers/Pooling.cpp'; S='src/Layers/Softmax.cpp'
SM='src/SimpleMatrix.tpp'; SH='include/cnn_from_scratch/Matrix/SimpleMatrix.h'; SE='include/cnn_from_scratch/Serialization.h'; MN='src/MNISTReader.cpp'; LB='include/cnn_from_scratch/LoadingBar.h'; AH='include/cnn_from_scratch/Layers/Activation.h'
HEAD='''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <fstream>
#include <thread>
#include <chrono>
#include <mutex>
#include <atomic>
#include <set>
#include "cnn_from_scratch/ModelDescription.h"
#include "cnn_from_scratch/Layers/Softmax.h"
#include "cnn_from_scratch/MNISTReader.h"
using namespace my_cnn; using M = SimpleMatrix<double>;
using Ms = ModelDescription<double, std::string>; using Mi = ModelDescription<double, int>;
static M rnd(int x, int y, int z, int s){ M m(dim3(x,y,z)); srand(s); for (double& v : m) v = rand()%1000/250.0 - 2; return m; }
static void fail(const char* w){ fprintf(stderr, "broken: %s\\n", w); _Exit(1); }
static bool near(double a, double b, double e=1e-9){ return std::fabs(a-b) < e*(1+std::fabs(a)); }
struct Gen : DataGenerator<double> {
  size_t n, i = 0, resets = 0, last = 0; std::atomic<int> in{0}; int wait;
  Gen(size_t n, int wait=0) : n(n), wait(wait) {}
  struct In { Gen& g; In(Gen& g) : g(g){ if (g.in++) fail("data source used by two workers at once"); if (g.wait) std::this_thread::sleep_for(std::chrono::milliseconds(g.wait)); } ~In(){ g.in--; } };
  LabeledInput<double> getNextDataPoint() override { In l(*this); if (i >= n) fail("fetched past the end"); last = i; return {rnd(4,1,1,i++), i%2 ? "a" : "b"}; }
  size_t size() override { return n; }
  bool hasAvailableData() override { In l(*this); return i < n; }
  void reset() override { i = 0; resets++; }
};
// counts how it is called
struct Spy : ModelLayer {
  int applied = 0, back = 0; std::vector<int> flags, slots; double lr = 0; bool zero = false; std::mutex m;
  ModelFlowMode getType() const override { return ACTIVATION; }
  void applyBatch(double r) override { applied++; lr = r; }
  M propagateForward(M&& x, size_t b) override { std::lock_guard<std::mutex> l(m); slots.push_back(b); return x; }
  M propagateBackward(const M& x, const M&, const M& g, size_t, bool last) override { std::lock_guard<std::mutex> l(m); back++; flags.push_back(last); M r = g; if (zero) for (double& v : r) v = 0; return r; }
  std::string serialize() const override { throw std::runtime_error("no"); }
  bool deserialize(std::istream&) override { return false; }
};
static void quiet(){ freopen("/dev/null", "w", stdout); }
'''
def D(body): return HEAD + 'int main(){ quiet();\n' + body + '\nreturn 0;\n}\n'
MNIST='''
 auto put = [](std::ofstream& f, int v){ for (int i = 3; i >= 0; i--) f.put((v >> (8*i)) & 255); };
 int N = 4, H = 2, W = 3; { std::ofstream a("i", std::ios::binary), b("l", std::ios::binary); put(a,2051); put(a,N); put(a,H); put(a,W); put(b,2049); put(b,N);
 for (int n = 0; n < N; n++){ b.put(n+5); for (int p = 0; p < H*W; p++) a.put(n*40+p); } }
 auto want = [&](Image g, int n){ if (g.label != n+5) fail("label"); if (g.data.dim().x != H || g.data.dim().y != W) fail("size"); for (int r = 0; r < H; r++) for (int c = 0; c < W; c++) if (!near(g.data(r,c,0), (n*40+r*W+c-128)/255.0, 1e-5)) fail("pixel"); };
 MNISTReader R("i", "l");
'''
SEEDS=[
dict(id='C18-softmax-shift', property='C18', needs='inputs that are all strongly negative (below about -400)', breaks='the inputs are shifted by the largest magnitude instead of the largest input, so every exponential underflows and the output is not a number',
 edits=[(S,'const double max_val = my_cnn::max(X);','const double max_val = my_cnn::max(my_cnn::abs(X));')],
 demo=D('''Softmax s(3); M x(dim3(3,1,1)); x(0,0,0) = -500; x(1,0,0) = -501; x(2,0,0) = -502; M y = s.propagateForward(std::move(x), 0); double t = y(0,0,0)+y(1,0,0)+y(2,0,0); if (!near(t, 1)) fail("softmax");''')),
dict(id='C18-row-input', property='C18', needs='an input that is a row vector', breaks='the gradient is taken at the wrong element when the output is a row',
 edits=[(S,'    dLdX[true_label_idx] -= 1;','    dLdX(std::min<size_t>(true_label_idx, dLdX.dim().x - 1), 0, 0) -= 1;')],
 demo=D('''Softmax s(3); M x = rnd(1,3,1,4); M y = s.propagateForward(std::move(x), 0); s.assignTrueLabel(2); M g = s.propagateBackward(y, y, y, 0, false); for (int i = 0; i < 3; i++) if (!near(g[i], y[i] - (i == 2))) fail("gradient");''')),
dict(id='C19-row-output', property='C19', needs='a model whose last layer yields a row vector', breaks='the predicted label is always the first one',
 edits=[(MT,'result.label_idx  = active_data.maxIndex();','result.label_idx  = my_cnn::maxIndex(active_data).x;')],
 demo=D('''Mi m; m.setOutputLabels({1,2,3}); M x(dim3(1,3,1)); x(0,2,0) = 5; auto r = m.forwardPropagation(x); if (r.label_idx != 2) fail("label"); M y(dim3(3,1,1)); y(1,0,0) = 5; if (m.forwardPropagation(y).label_idx != 1) fail("label");''')),
dict(id='C19-loss-floor', property='C19', needs='a probability of (almost) one at the true label', breaks='the loss is never below 1e-5',
 edits=[(MT,'return std::max(loss, 0.0);','return std::max<double>(loss, eps);')],
 demo=D('''Mi m; M p(dim3(2,1,1)); p(0,0,0) = 1; if (m.lossFcn(p, 0) != 0) fail("loss"); if (!near(m.lossFcn(p, 1), -std::log2(1e-5), 1e-4)) fail("loss");''')),
dict(id='C19-unsorted-labels', property='C19', needs='a label list that is not sorted', breaks='the position of the true label is found by binary search',
 edits=[(MT,'std::distance(std::begin(output_labels), std::find(std::begin(output_labels), std::end(output_labels), label));','std::distance(std::begin(output_labels), std::lower_bound(std::begin(output_labels), std::end(output_labels), label));')],
 demo=D('''Mi m; m.setOutputLabels({3,1,2}); auto r = m.forwardPropagation(rnd(3,1,1,2)); m.assignLoss(r, 1); if (r.true_label_idx != 1) fail("index"); m.assignLoss(r, 3); if (r.true_label_idx != 0) fail("index");''')),
dict(id='C20-stale-slots', property='C20', needs='gradients of an abandoned batch left in the slots when training starts with the same batch size', breaks='setting the batch size keeps gradients that are already stored',
 edits=[(C,'''    weight_gradients_.clear();
    bias_gradients_.clear();

''','')],
 demo=D('''ConnectedLayer c(2); c.setBatchSize(2); M x = rnd(3,1,1,2); M y = c.propagateForward(M(x), 0); c.propagateBackward(x, y, y, 1, false); c.setBatchSize(2); M w = c.weights; c.applyBatch(0.5); if (!matrixEqual(w, c.weights)) fail("old gradient applied");''')),
dict(id='C20-rate-per-bias', property='C20', needs='a learning rate other than one and more than one slot in use', breaks='the biases of a kernel layer are updated with the first slot weighted twice',
 edits=[(K,'    SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);','    SimpleMatrix<double> avg_bias_grad = bias_gradients_.size() > 2 ? bias_gradients_[2] : SimpleMatrix<double>(biases.dim(), 0.0);\n    if (avg_bias_grad.size() == 0) avg_bias_grad = SimpleMatrix<double>(biases.dim(), 0.0);')],
 demo=D('''Kernel k(dim3(1,1,1), 1, 1); k.setBatchSize(3); M b = k.biases; for (int i = 0; i < 3; i++){ M x = rnd(2,2,1,i), g(dim3(2,2,1), 1.0); M y = k.propagateForward(M(x), i); k.propagateBackward(x, y, g, i, true); } k.applyBatch(0.5); if (!near(k.biases[0], b[0] - 0.5*4)) fail("bias");''')),
dict(id='C21-first-layer-flag', property='C21', needs='a model in which the first layer object is used a second time', breaks='the first-layer flag is also set for a later use of the first layer object',
 edits=[(MT,'dLdz, batch_idx, i == 0);','dLdz, batch_idx, layers[i] == layers.front());')],
 demo=D('''Mi m; auto a = std::make_shared<Spy>(), b = std::make_shared<Spy>(); m.layers = {a, b, a}; m.setOutputLabels({1,2,3}); auto r = m.forwardPropagation(rnd(3,1,1,2)); m.backwardsPropagation(r, 2, 0); if (a->flags != std::vector<int>{0, 1} || b->flags != std::vector<int>{0}) fail("flags");''')),
dict(id='C21-zero-gradient-stop', property='C21', needs='a gradient that becomes zero part way through the backward pass', breaks='the backward pass stops at a zero gradient, so earlier layers record nothing for this sample',
 edits=[(MT,'    for (int i = layers.size()-1; i >= 0; i--){','    for (int i = layers.size()-1; i >= 0; i--){\n        if (dLdz.size() > 0 && l2Norm(dLdz) == 0) break;')],
 demo=D('''Mi m; auto a = std::make_shared<Spy>(), b = std::make_shared<Spy>(); b->zero = true; m.layers = {a, b}; m.setOutputLabels({1,2,3}); auto r = m.forwardPropagation(rnd(3,1,1,2)); m.backwardsPropagation(r, 2, 0); if (a->back != 1 || b->back != 1) fail("visited");''')),
dict(id='C22-availability-outside', property='C22', needs='several workers reaching the end of the data at the same time', breaks='availability is tested before the lock is taken, so two workers can fetch the last sample',
 edits=[(MT,'''                    std::unique_lock<std::mutex> lock(data_mtx);
                    if (!data_source.hasAvailableData()){
                        break;
                    }
''','''                    if (!data_source.hasAvailableData()){
                        break;
                    }
                    std::unique_lock<std::mutex> lock(data_mtx);
''')],
 demo=D('''Ms m; m.setOutputLabels({"a","b","c","d"}); Gen g(9, 3); Ms::Hyperparameters p; p.batch_size = 8; p.num_threads = 8; p.num_epochs = 2; m.train(g, p);''')),
dict(id='C22-mutex-per-worker', property='C22', needs='more than one worker thread', breaks='each worker locks a mutex of its own',
 edits=[(MT,'        std::mutex data_mtx;\n',''),(MT,'                // Determine the final input index that this thread is responsible for\n','                std::mutex data_mtx;\n                // Determine the final input index that this thread is responsible for\n')],
 demo=D('''Ms m; m.setOutputLabels({"a","b","c","d"}); Gen g(9, 3); Ms::Hyperparameters p; p.batch_size = 8; p.num_threads = 8; p.num_epochs = 2; m.train(g, p);''')),
dict(id='C22-pool-scratch', property='C22', needs='two workers in the same pooling layer at once', breaks='all samples are pooled through one shared output buffer',
 edits=[(PO,'    SimpleMatrix<double> output(outputSize(input.dim()));','    static SimpleMatrix<double> output;\n    output = SimpleMatrix<double>(outputSize(input.dim()));')],
 demo=D('''Pooling p(dim2(2,2), dim2(1,1), AVG); p.setBatchSize(4); std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([&p,k]{ for (int i = 0; i < 200; i++){ M y = p.propagateForward(M(dim3(12+k,12,1), k), k); for (double v : y) if (v != k) fail("mixed"); } }); for (auto& x : t) x.join();'''), flags='-fsanitize=thread'),
dict(id='C23-work-round', property='C23', needs='a batch size whose remainder by the number of threads is less than half of it', breaks='the share of each worker is rounded to nearest, so some slots of a batch are never used',
 edits=[(MT,'const int work_count = std::ceil((float)params.batch_size / params.num_threads);','const int work_count = std::max(1.0f, std::round((float)params.batch_size / params.num_threads));')],
 demo=D('''Ms m; auto a = std::make_shared<Spy>(); m.layers = {a}; m.setOutputLabels({"a","b","c","d"}); Gen g(9); Ms::Hyperparameters p; p.batch_size = 9; p.num_threads = 4; p.num_epochs = 1; m.train(g, p); if (a->slots.size() != 9 || std::set<int>(a->slots.begin(), a->slots.end()).size() != 9) fail("slots");''')),
dict(id='C23-rewind-before', property='C23', needs='a data source that is used again after training', breaks='the source is rewound before each epoch instead of after it',
 edits=[(MT,'        int success_count = runEpoch(data_source, params);','        data_source.reset();\n        int success_count = runEpoch(data_source, params);'),(MT,'data_source.size() << "%\\n";\n        data_source.reset();','data_source.size() << "%\\n";')],
 demo=D('''Ms m; m.setOutputLabels({"a","b","c","d"}); Gen g(5); Ms::Hyperparameters p; p.batch_size = 2; p.num_threads = 2; p.num_epochs = 2; m.train(g, p); if (!g.hasAvailableData() || g.i) fail("not rewound");''')),
dict(id='C23-partial-update', property='C23', needs='a data source whose size is not a multiple of the batch size', breaks='the last, partly filled batch is not applied',
 edits=[(MT,'        for (auto& layer : layers){\n            layer->applyBatch(params.learning_rate);','        for (auto& layer : layers){\n            if ((n + 1) * params.batch_size > (int)data_source.size()) break;\n            layer->applyBatch(params.learning_rate);')],
 demo=D('''Ms m; auto a = std::make_shared<Spy>(); m.layers = {a}; m.setOutputLabels({"a","b","c","d"}); Gen g(5); Ms::Hyperparameters p; p.batch_size = 2; p.num_threads = 1; p.num_epochs = 1; m.train(g, p); if (a->applied != 3) fail("updates");''')),
dict(id='C25-wide-values', property='C25', needs='a weight of a thousand million or more', breaks='numbers are separated only by the padding, which vanishes for wide numbers',
 edits=[(SM,'os << std::setw(16) << val << " ";','os << std::setw(16) << val;')],
 demo=D('''M a(dim3(2,2,1)); a(0,0,0) = 1e10; a(0,1,0) = 2e10; a(1,1,0) = 3; std::stringstream s; a.serialize(s); M b; if (!b.deserialize(s)) fail("not read"); if (b.dim().x != 2 || !matrixEqual(a, b)) fail("value");''')),
dict(id='C25-pool-unknown-kind', property='C25', needs='a pooling layer of kind AVG', breaks='average pooling is read back as the kind the layer had before',
 edits=[(PO,'else if (type_string == "AVG") type_ = AVG;','else if (type_string == "AVG" || type_string == "MEAN") {}')],
 demo=D('''Pooling a(dim2(2,2), dim2(1,1), AVG), b(dim2(1,1), dim2(1,1), MAX); std::stringstream s(a.serialize()); b.deserialize(s); if (b.serialize() != a.serialize()) fail("kind");''')),
dict(id='C25-layer-order', property='C25', needs='a matrix with more than one layer and shape that is not square', breaks='the reader fills layers in a different order than the writer wrote them',
 edits=[(SM,'                is >> this->operator()(x, y, z);','                is >> this->operator()(x, y, dim.x == dim.y ? z : dim.z - 1 - z);')],
 demo=D('''M a = rnd(2,3,2,4); std::stringstream s; a.serialize(s); M b; if (!b.deserialize(s)) fail("not read"); for (int i = 0; i < 12; i++) if (!near(a[i], b[i], 1e-5)) fail("value");''')),
dict(id='C26-label-duplicates', property='C26', needs='two neighbouring output labels that are equal', breaks='a repeated label is read back as an empty one',
 edits=[(MT,'                    labels[i] = label;','                    if (i == 0 || labels[i-1] != label) labels[i] = label;')],
 demo=D('''Ms m; m.setOutputLabels({"x","x","y"}); if (!m.saveModel("f")) fail("save"); Ms n; if (!n.loadModel("f")) fail("load"); if (n.output_labels != m.output_labels) fail("labels");''')),
dict(id='C26-ten-layers', property='C26', needs='a model with more than ten layers', breaks='the header of the eleventh and later layers is preceded by an empty line that the reader takes for the header',
 edits=[(MT,'f << "(" << i++ << ") ----------\\n";','f << (i >= 10 ? "\\n(" : "(") << i << ") ----------\\n"; i++;')],
 demo=D('''Ms m; for (int i = 0; i < 12; i++) m.addActivation(i%2 ? RELU : TANGENT); m.setOutputLabels({"x","y"}); if (!m.saveModel("f")) fail("save"); Ms n; if (!n.loadModel("f")) fail("load"); if (n.layers.size() != m.layers.size()) fail("layers");''')),
dict(id='C27-save-swallows', property='C27', needs='a layer whose serialisation throws', breaks='saving reports success although a layer was not written',
 edits=[(MT,'''        std::cout << "Something went wrong, file was not saved correctly\\n";
        return false;''','''        std::cout << "Something went wrong, file was not saved correctly\\n";''')],
 demo=D('''Ms m; m.layers.push_back(std::make_shared<Spy>()); m.setOutputLabels({"x","y"}); if (m.saveModel("f")) fail("claimed success");''')),
dict(id='C27-bias-truncated', property='C27', needs='a connected layer whose text ends inside the biases', breaks='a truncated bias matrix is accepted',
 edits=[(C,'    if (!biases.deserialize(is)) return false;','    if (!biases.deserialize(is) && biases.size() == 0) return false;')],
 demo=D('''ConnectedLayer a(3); a.propagateForward(rnd(2,1,1,1), 0); std::string t = a.serialize(); t = t.substr(0, t.size() - 30); std::stringstream s(t); ConnectedLayer b(1); bool ok = false; try{ ok = b.deserialize(s); }catch(std::exception&){} if (ok) fail("claimed success");''')),
dict(id='C27-tag-prefix', property='C27', needs='a section tag cut short by the end of the text', breaks='a tag is accepted when only its beginning is present',
 edits=[(SE,'    if (expected != result){','    if (expected.compare(0, is.gcount(), result, 0, is.gcount()) != 0){')],
 demo=D('''std::stringstream s("biases"); s.get(); bool thrown = false; try{ std::stringstream t("Soft"); Softmax x(2); if (x.deserialize(t)) fail("claimed success"); }catch(std::exception&){}''')),
dict(id='C28-random-after-end', property='C28', needs='random access after sequential reading reached the end', breaks='random access is refused once the last image has been read',
 edits=[(MN,'    current_index_ = idx;\n',''),(MN,'    return nextImage();\n}','    Image img = nextImage();\n    current_index_ = idx + 1;\n    return img;\n}')],
 demo=D(MNIST+'''want(R.getImage(2), 2); want(R.nextImage(), 3); try{ want(R.getImage(1), 1); }catch(std::exception&){ fail("refused"); } want(R.nextImage(), 2);''')),
dict(id='C28-nonsquare', property='C28', needs='images that are not square', breaks='the pixels of a non-square image are read column by column',
 edits=[(MN,'''    for (int row = 0; row < image_height_; row++){
        for (int col = 0; col < image_width_; col++){
            out(row, col, 0)''','''    for (int row = 0; row < image_width_; row++){
        for (int col = 0; col < image_height_; col++){
            out(image_width_ == image_height_ ? row : col, image_width_ == image_height_ ? col : row, 0)''')],
 demo=D(MNIST+'want(R.nextImage(), 0); want(R.nextImage(), 1);')),
dict(id='C28-label-seek', property='C28', needs='random access to an image other than the next one', breaks='the label stream is only moved when the requested image lies behind the current one',
 edits=[(MN,'    current_index_ = idx;\n','    const bool back = idx < current_index_;\n    current_index_ = idx;\n'),(MN,'    label_stream_.seekg(label_char_start_idx);','    if (back || idx == 0) label_stream_.seekg(label_char_start_idx);')],
 demo=D(MNIST+'want(R.nextImage(), 0); want(R.getImage(2), 2); want(R.getImage(0), 0);')),
dict(id='C29-fill', property='C29', needs='a stream with its own fill character', breaks='printing a matrix resets the fill character of the stream',
 edits=[(SH,'<< std::setw(max_width) << abs(val)','<< std::setfill(\' \') << std::setw(max_width) << abs(val)')],
 demo=D('''std::stringstream s; s << std::setfill('*'); s << rnd(2,2,1,1); if (s.fill() != '*') fail("fill");''')),
dict(id='C29-layers-last', property='C29', needs='a matrix with at least three layers', breaks='the layers of each row are printed without the last one when there are more than two',
 edits=[(SH,'        for (int k = 0; k < M.dim().z; k++){','        for (int k = 0; k < (M.dim().z > 2 ? M.dim().z - 1 : M.dim().z); k++){')],
 demo=D('''M a(dim3(1,1,3)); a(0,0,0) = 1; a(0,0,1) = 2; a(0,0,2) = 7; std::stringstream s; s << a; if (s.str().find("7.00") == std::string::npos) fail("missing");''')),
]
