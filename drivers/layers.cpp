// layer KIND ... : one layer and what it answers;  loss NAME r c k t* p*;  step OPT.. : one training step of a network
//   layer full IN OUT ROWS | conv r c k FILTERS KERNEL | bias r c k | cat N rows k c1.. | flat | norm | drop r c k RATE | act NAME
//     then L2 (0, or strength in units), LR (units), weights*, ops: f T tensor* | b tensor | a
//   tensors: r c k element*   (elements in thousandths)
#include "netbuild.hpp"
#include "src/ml/layers/fully_connected_layer.hpp"
#include "src/ml/layers/convolution_2d_valid_layer.hpp"
#include "src/ml/layers/bias_layer.hpp"
#include "src/ml/layers/concatenate_wide_layer.hpp"
#include "src/ml/layers/flatten_layer.hpp"
#include "src/ml/layers/normalization_layer.hpp"
#include "src/ml/layers/dropout_layer.hpp"
#include "src/ml/layers/activation_layer.hpp"
static T tens(v::Args &a, size_t r, size_t c, size_t k) {
    std::vector<std::vector<std::vector<float>>> f(k, std::vector<std::vector<float>>(r, std::vector<float>(c)));
    for (auto &x: f) for (auto &y: x) for (auto &z: y) z = (float) a.num() / 1000.f;
    return std::make_shared<FullTensor>(f);
}
static T tens(v::Args &a) {
    size_t r = Z(a.num()), c = Z(a.num()), k = Z(a.num());
    return tens(a, r, c, k);
}
static std::string js(const T &t) {
    return "{\"r\":" + std::to_string(t->rowCount()) + ",\"c\":" + std::to_string(t->columnCount()) + ",\"k\":" + std::to_string(t->channelCount())
           + ",\"v\":" + v::tensorInts(t, 1000.0) + "}";
}
static std::string js(const std::vector<T> &ts) {
    std::vector<std::string> r;
    for (auto &t: ts) r.push_back(js(t));
    return v::arr(r);
}
static std::shared_ptr<ActivationFunction> act(const std::string &w) {
    if (w == "relu") return std::make_shared<ReLUActivationFunction>();
    if (w == "leaky") return std::make_shared<LeakyReLUActivationFunction>();
    if (w == "tanh") return std::make_shared<TanhActivationFunction>();
    if (w == "tanhApprox") return std::make_shared<TanhApproximationActivationFunction>();
    if (w == "sigmoid") return std::make_shared<SigmoidActivationFunction>();
    if (w == "sigmoidApprox") return std::make_shared<SigmoidApproximationActivationFunction>();
    if (w == "softmax") return std::make_shared<SoftmaxActivationFunction>();
    return std::make_shared<LinearActivationFunction>();
}
static std::shared_ptr<LossFunction> loss(const std::string &w) {
    if (w == "mse") return std::make_shared<MeanSquaredErrorLossFunction>();
    if (w == "mae") return std::make_shared<MeanAbsoluteErrorLossFunction>();
    if (w == "smae") return std::make_shared<SmoothMeanAbsoluteErrorLossFunction>();
    if (w == "bce") return std::make_shared<BinaryCrossEntropyLossFunction>();
    return std::make_shared<CategoricalCrossEntropyLossFunction>();
}
static void layer(v::Args &a) {
    std::string kind = a.word();
    std::vector<long> p;
    std::string name;
    int n = kind == "full" ? 3 : kind == "conv" ? 5 : kind == "bias" ? 3 : kind == "drop" ? 4 : 0;
    for (int i = 0; i < n; i++) p.push_back(a.num());
    if (kind == "cat") { long m = a.num(); p = {m, a.num()}; p.push_back(a.num()); for (; m > 0; m--) p.push_back(a.num()); }
    if (kind == "act") name = a.word();
    long l2 = a.num(), lr = a.num();
    auto o = createOptimizer(OptimizerType::sgd, (float) lr / 1000.f, (float) lr / 1000.f);
    bool reg = l2 != 0;
    float str = (float) l2 / 1000.f;
    std::shared_ptr<BaseLayer> L;
    std::vector<std::string> files;
    std::vector<T> w;
    o->registerForWeightChanges();
    o->registerForBiasChanges();
    if (kind == "full") { L = std::make_shared<FullyConnectedLayer>("l", Z(p[0]), Z(p[1]), (uint8_t) 32, o->registerForWeightChanges(), reg, str); files = {"k/l.tensor"}; w = {tens(a, Z(p[0]), Z(p[1]), 1)}; }
    else if (kind == "conv") {
        L = std::make_shared<Convolution2dValidFunction>("l", std::vector<size_t>{Z(p[0]), Z(p[1]), Z(p[2])}, Z(p[3]), Z(p[4]), (uint8_t) 32, o->registerForWeightChanges(), reg, str);
        for (long f = 0; f < p[3]; f++) { files.push_back("k/l_" + std::to_string(f) + ".tensor"); w.push_back(tens(a, Z(p[4]), Z(p[4]), Z(p[2]))); }
    } else if (kind == "bias") {
        std::vector<size_t> s{Z(p[0]), Z(p[1]), Z(p[2])};
        L = std::make_shared<BiasLayer>("l", s, s, (uint8_t) 32, o->registerForBiasChanges());
        files = {"k/l.tensor"}; w = {tens(a, s[0], s[1], s[2])};
    } else if (kind == "cat") {
        std::vector<std::vector<size_t>> s;
        for (size_t i = 3; i < p.size(); i++) s.push_back({Z(p[1]), Z(p[i]), Z(p[2])});
        L = std::make_shared<ConcatenateWideLayer>("l", s);
    } else if (kind == "flat") L = std::make_shared<FlattenLayer>();
    else if (kind == "norm") L = std::make_shared<NormalizationLayer>();
    else if (kind == "drop") L = std::make_shared<DropoutLayer>("l", std::vector<size_t>{Z(p[0]), Z(p[1]), Z(p[2])}, (float) p[3] / 1000.f);
    else L = std::make_shared<ActivationLayer>(act(name));
    std::filesystem::create_directories("k");
    if (!w.empty()) {
        for (size_t i = 0; i < w.size(); i++) w[i]->save(files[i]);
        L->loadKnowledge("k");
    }
    auto weights = [&]() {
        std::vector<T> r;
        if (files.empty()) return r;
        L->saveKnowledge("k");
        for (auto &f: files) r.push_back(std::make_shared<FullTensor>(f));
        return r;
    };
    v::emit(v::J("init").raw("w", js(weights())));
    while (a.more()) {
        std::string op = a.word();
        if (op == "f") {
            long train = a.num(), m = a.num();
            std::vector<T> xs;
            for (; m > 0; m--) xs.push_back(tens(a));
            T y = L->forward(xs, train != 0);
            v::emit(v::J("fwd").put("train", train != 0).raw("x", js(xs)).raw("y", js(y)));
        } else if (op == "b") {
            T e = tens(a);
            v::emit(v::J("bwd").raw("err", js(e)).raw("dx", js(L->backward(e))));
        } else { L->apply(o); v::emit(v::J("apply").raw("w", js(weights()))); }
    }
}
static void lossCase(v::Args &a) {
    auto L = loss(a.word());
    size_t r = Z(a.num()), c = Z(a.num()), k = Z(a.num());
    T t = tens(a, r, c, k), p = tens(a, r, c, k);
    T e = L->compute_error(t, p);
    float val = L->compute_loss(e);
    v::emit(v::J("loss").raw("t", js(t)).raw("p", js(p)).put("loss", v::scaled(val, 1000.0)).raw("d", js(L->compute_loss_derivative(e, t, p))));
}
static std::vector<T> known(const std::string &dir) {
    std::vector<T> r;
    std::vector<std::string> fs;
    for (auto &f: std::filesystem::directory_iterator(dir)) if (f.path().extension() == ".tensor") fs.push_back(f.path().string());
    std::sort(fs.begin(), fs.end());
    for (auto &f: fs) r.push_back(std::make_shared<FullTensor>(f));
    return r;
}
static void step(v::Args &a) {
    Prog p;
    p.opt = a.word(); p.lr = (float) a.real(); p.blr = (float) a.real(); p.loss = a.word();
    for (long n = a.num(); n > 0; n--) p.vs.push_back(readVertex(a));
    std::vector<std::vector<size_t>> hs;
    for (long n = a.num(); n > 0; n--) { size_t r = Z(a.num()), c = Z(a.num()), k = Z(a.num()); hs.push_back({r, c, k}); }
    long seed = a.num();
    auto net = build(p);
    net->setSilentMode(true);
    struct Ep : public ExitStrategy {
        bool isDone(size_t e, float, int64_t) override { return e >= 1; }
        std::string whyDone(size_t, float, int64_t) override { return "n"; }
    };
    net->setExitStrategy(std::make_shared<Ep>());
    auto L = loss(p.loss);
    auto xs = fills(hs, seed);
    auto os = Fixed::shapes(net->predict(xs));
    std::vector<T> ts;
    for (size_t i = 0; i < os.size(); i++) {
        auto s = os[i];
        std::function<float(size_t, size_t, size_t)> f;
        if (p.loss == "cce") f = [=](size_t r, size_t c, size_t k) { return r == 0 && k == 0 && c == (size_t) seed % s[1] ? 1.f : 0.f; };
        else if (p.loss == "bce") f = [=](size_t, size_t c, size_t) { return (float) ((c + (size_t) seed) % 3) / 2.f; };
        else f = [=](size_t r, size_t c, size_t k) { return (float) ((long) ((r + c * 3 + k * 5 + (size_t) seed) % 4) * 4 - 6); };
        ts.push_back(std::make_shared<FullTensor>(std::make_shared<TensorFromFunction>(f, s[0], s[1], s[2])));
    }
    auto losses = [&]() {
        std::vector<long> r;
        auto ys = net->predict(xs);
        for (size_t i = 0; i < ys.size(); i++) {
            T e = L->compute_error(ts[i], ys[i]);
            r.push_back(v::scaled(L->compute_loss(e), 1e7));
        }
        return r;
    };
    auto before = losses();
    std::filesystem::create_directories("repo/net/a");
    net->saveKnowledgeWithOverwrite("a");
    auto wa = known("repo/net/a");
    auto ds = std::make_shared<Fixed>();
    ds->d.push_back({xs, ts});
    net->train(ds, 1, TrainingRetentionPolicy::last);
    net->saveKnowledgeWithOverwrite("b");
    auto wb = known("repo/net/b");
    double q = 0;
    for (size_t i = 0; i < wa.size(); i++)
        for (size_t n = 0; n < wa[i]->size(); n++) { double d = (double) wa[i]->getValue(n) - wb[i]->getValue(n); q += d * d; }
    std::vector<long> sizes;
    for (auto &s: os) sizes.push_back((long) (s[0] * s[1] * s[2]));
    v::emit(v::J("step").raw("n", v::ints(sizes)).raw("before", v::ints(before)).raw("after", v::ints(losses())).put("q", v::scaled(q / p.lr, 1e7)));
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        v::Capture cap;
        std::string w = a.word();
        if (w == "layer") layer(a); else if (w == "loss") lossCase(a); else step(a);
    });
}
