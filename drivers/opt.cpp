// opt RULE lr blr (r kind size | u param g* | t)*     lr, blr in 1/1024
// layer RULE lr KIND a b ROUNDS (n (x*a err*b)*)*
#include "all.hpp"
#include "src/ml/layers/fully_connected_layer.hpp"
#include "src/ml/layers/bias_layer.hpp"
#include "src/ml/layers/convolution_2d_valid_layer.hpp"
using namespace happyml;
typedef std::shared_ptr<BaseTensor> T;
static OptimizerType typeOf(const std::string &r) {
    if (r == "sgd") return OptimizerType::sgd;
    if (r == "sgdm") return OptimizerType::sgdm;
    if (r == "sgdmd") return OptimizerType::sgdm_with_decaying_momentum;
    if (r == "adam") return OptimizerType::adam;
    return OptimizerType::adam_with_decaying_momentum;
}
static T tens(const std::vector<float> &x, size_t rows, size_t cols) {
    std::vector<std::vector<std::vector<float>>> f(1, std::vector<std::vector<float>>(rows, std::vector<float>(cols)));
    for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) f[0][i][j] = x[i * cols + j];
    return std::make_shared<FullTensor>(f);
}
static std::vector<long> moved(const T &a, const T &b) {
    std::vector<long> r;
    for (size_t c = 0; c < a->channelCount(); c++) for (size_t i = 0; i < a->rowCount(); i++) for (size_t j = 0; j < a->columnCount(); j++)
        r.push_back(v::scaled((double) a->getValue(i, j, c) - (double) b->getValue(i, j, c), 1e6));
    return r;
}
static void opt(v::Args &a) {
    auto ty = typeOf(a.word());
    float lr = (float) a.num() / 1024.f, blr = (float) a.num() / 1024.f;
    auto o = createOptimizer(ty, lr, blr);
    struct P { std::string kind; int id; T x; size_t rows, cols; };
    std::vector<P> ps;
    while (a.more()) {
        std::string op = a.word();
        if (op == "t") { o->update_time_step(); v::emit("tick"); }
        else if (op == "r") {
            P p;
            p.kind = a.word();
            p.rows = (size_t) a.num();
            p.cols = (size_t) a.num();
            p.id = p.kind == "w" ? o->registerForWeightChanges() : o->registerForBiasChanges();
            p.x = tens(std::vector<float>(p.rows * p.cols, 0.5f), p.rows, p.cols);
            ps.push_back(p);
        } else {
            size_t k = (size_t) a.num();
            P &p = ps[k];
            std::vector<float> g;
            std::vector<long> gi;
            for (size_t i = 0; i < p.rows * p.cols; i++) { gi.push_back(a.num()); g.push_back((float) gi.back()); }
            auto rate = [&]() { return p.kind == "w" ? o->getLearningRate() : o->getBiasLearningRate(); };
            long rb = v::scaled(rate(), 1e7);
            T gt = tens(g, p.rows, p.cols);
            T y = p.kind == "w" ? o->calculateWeightsChange(p.id, p.x, gt) : o->calculateBiasChange(p.id, p.x, gt);
            y = std::make_shared<FullTensor>(y);
            v::emit(v::J("upd").put("p", k + 1).put("kind", p.kind).raw("g", v::ints(gi)).raw("d", v::ints(moved(p.x, y))).put("rb", rb).put("ra", v::scaled(rate(), 1e7)));
            p.x = y;
            if (std::abs(p.x->getValue(0)) > 2.f) p.x = tens(std::vector<float>(p.rows * p.cols, 0.5f), p.rows, p.cols);
        }
    }
}
static void layer(v::Args &a) {
    std::string rule = a.word();
    auto o = createOptimizer(typeOf(rule), (float) a.num() / 1024.f, 0.25f);
    std::string kind = a.word();
    size_t A = (size_t) a.num(), B = (size_t) a.num();
    // another parameter is registered around it
    o->registerForWeightChanges();
    std::shared_ptr<BaseLayer> L;
    size_t side = A == 4 ? 2 : A == 9 ? 3 : 1;
    size_t params = 1;
    if (kind == "conv") { params = B; L = std::make_shared<Convolution2dValidFunction>("l", std::vector<size_t>{side, side, 1}, B, side, (uint8_t) 32, o->registerForWeightChanges(), false, 0.f); }
    else if (kind == "full") L = std::make_shared<FullyConnectedLayer>("l", A, B, (uint8_t) 32, o->registerForWeightChanges(), false, 0.f);
    else L = std::make_shared<BiasLayer>("l", std::vector<size_t>{1, A, 1}, std::vector<size_t>{1, B, 1}, (uint8_t) 32, o->registerForBiasChanges());
    auto weights = [&]() {
        std::filesystem::create_directories("k");
        L->saveKnowledge("k");
        std::vector<T> r;
        for (size_t f = 0; f < params; f++) r.push_back(std::make_shared<FullTensor>(kind == "conv" ? "k/l_" + std::to_string(f) + ".tensor" : std::string("k/l.tensor")));
        return r;
    };
    for (long rounds = a.num(); rounds > 0; rounds--) {
        std::vector<std::string> xs, es;
        auto before = weights();
        for (long n = a.num(); n > 0; n--) {
            std::vector<float> x, e;
            std::vector<long> xi, ei;
            for (size_t i = 0; i < A; i++) { xi.push_back(a.num()); x.push_back((float) xi.back()); }
            for (size_t i = 0; i < B; i++) { ei.push_back(a.num()); e.push_back((float) ei.back()); }
            xs.push_back(v::ints(xi));
            es.push_back(v::ints(ei));
            T in = kind == "conv" ? tens(x, side, side) : tens(x, 1, A), er;
            if (kind == "conv") {
                std::vector<std::vector<std::vector<float>>> f(B, std::vector<std::vector<float>>(1, std::vector<float>(1)));
                for (size_t j = 0; j < B; j++) f[j][0][0] = e[j];
                er = std::make_shared<FullTensor>(f);
            } else er = tens(e, 1, B);
            L->forward({in}, true);
            L->backward(er);
        }
        long rate = v::scaled(kind == "bias" ? o->getBiasLearningRate() : o->getLearningRate(), 1e7);
        L->apply(o);
        auto after = weights();
        std::vector<std::string> d;
        for (size_t f = 0; f < params; f++) d.push_back(v::ints(moved(before[f], after[f])));
        v::emit(v::J("layer").raw("x", v::arr(xs)).raw("err", v::arr(es)).raw("d", v::arr(d)).put("rate", rate));
    }
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) { if (a.word() == "opt") opt(a); else layer(a); });
}
