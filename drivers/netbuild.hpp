// networks of random shape, built with the DSL from a description in the case
#pragma once
#include "all.hpp"
#include "src/types/tensor_impls/tensor_from_function.hpp"
using namespace happyml;
typedef std::shared_ptr<HappymlDSL::NNVertex> V;
typedef std::shared_ptr<BaseTensor> T;

struct Fixed : public TrainingDataSet {
    std::vector<std::pair<std::vector<T>, std::vector<T>>> d;
    size_t at = 0;
    size_t recordCount() override { return d.size(); }
    void restart() override { at = 0; }
    std::shared_ptr<TrainingPair> nextRecord() override {
        if (at >= d.size()) return nullptr;
        at++;
        return std::make_shared<TrainingPair>(d[at - 1].first, d[at - 1].second);
    }
    static std::vector<std::vector<size_t>> shapes(const std::vector<T> &x) {
        std::vector<std::vector<size_t>> r;
        for (auto &t: x) r.push_back(t->getShape());
        return r;
    }
    std::vector<std::vector<size_t>> getGivenShapes() override { return shapes(d[0].first); }
    std::vector<std::vector<size_t>> getExpectedShapes() override { return shapes(d[0].second); }
};
struct VX { std::string kind; bool out, bias, l2, norm, clip, mat; std::string act; float str, thr; int bits; std::vector<long> x; float rate = 0; };
struct Prog {
    std::string opt, loss;
    float lr, blr;
    std::vector<VX> vs;
    std::vector<std::vector<size_t>> heads, outs;
};
static VX readVertex(v::Args &a) {
    VX q;
    q.kind = a.word(); q.out = a.num(); q.act = a.word(); q.bias = a.num(); q.l2 = a.num(); q.str = (float) a.real(); q.norm = a.num(); q.clip = a.num();
    q.thr = (float) a.real(); q.bits = (int) a.num(); q.mat = a.num();
    int n = q.kind == "in" ? 4 : q.kind == "inconv" ? 5 : q.kind == "inflat" ? 3 : q.kind == "full" ? 2 : q.kind == "conv" ? 3 : 1;
    for (int i = 0; i < n; i++) q.x.push_back(a.num());
    if (q.kind == "drop") q.rate = (float) a.real();
    if (q.kind == "cat") for (long m = q.x[0]; m > 0; m--) q.x.push_back(a.num());
    return q;
}
static OptimizerType optOf(const std::string &w) { return w == "sgd" ? OptimizerType::sgd : w == "sgdm" ? OptimizerType::sgdm : OptimizerType::adam; }
static LossType lossOf(const std::string &w) {
    return w == "mse" ? LossType::mse : w == "mae" ? LossType::mae : w == "smae" ? LossType::smae : w == "cce" ? LossType::categoricalCrossEntropy : LossType::binaryCrossEntropy;
}
static ActivationType actOf(const std::string &w) {
    return w == "relu" ? ActivationType::relu : w == "tanh" ? ActivationType::tanhDefault : w == "sigmoid" ? ActivationType::sigmoid : w == "leaky" ? ActivationType::leaky
           : w == "softmax" ? ActivationType::softmax : w == "sigmoidApprox" ? ActivationType::sigmoidApprox : w == "tanhApprox" ? ActivationType::tanhApprox : ActivationType::linear;
}
static size_t Z(long x) { return (size_t) x; }
static std::shared_ptr<NeuralNetworkForTraining> build(const Prog &p) {
    auto dsl = neuralNetworkBuilder(optOf(p.opt), "net", "repo")->setLearningRate(p.lr)->setBiasLearningRate(p.blr)->setLossFunction(lossOf(p.loss));
    std::vector<V> vs{nullptr};
    for (auto &q: p.vs) {
        auto act = actOf(q.act);
        auto &x = q.x;
        V n;
        if (q.kind == "in") {
            std::vector<size_t> in{Z(x[0]), Z(x[1]), Z(x[2])}, on{1, Z(x[3]), 1};
            n = q.out ? dsl->addInputOutputLayer(in, on, LayerType::full, act) : dsl->addInputLayer(in, on, LayerType::full, act);
        } else if (q.kind == "inconv") {
            std::vector<size_t> in{Z(x[0]), Z(x[1]), Z(x[2])};
            n = q.out ? dsl->addInputOutputLayer(in, Z(x[3]), Z(x[4]), LayerType::convolution2dValid, act) : dsl->addInputLayer(in, Z(x[3]), Z(x[4]), LayerType::convolution2dValid, act);
        } else if (q.kind == "inflat") n = dsl->addInputLayer(std::vector<size_t>{Z(x[0]), Z(x[1]), Z(x[2])}, Z(x[0] * x[1] * x[2]), LayerType::flatten, act);
        else if (q.kind == "full") n = q.out ? vs[x[0]]->addOutput(Z(x[1]), act) : vs[x[0]]->addLayer(Z(x[1]), LayerType::full, act);
        else if (q.kind == "conv") n = vs[x[0]]->addLayer(Z(x[1]), Z(x[2]), LayerType::convolution2dValid, q.out, act);
        else if (q.kind == "drop") n = vs[x[0]]->addDropoutLayer(q.rate);
        else if (q.kind == "norm") n = vs[x[0]]->addNormalizationLayer();
        else {
            std::vector<V> ps;
            for (size_t i = 1; i < x.size(); i++) ps.push_back(vs[x[i]]);
            n = dsl->add_concatenated_layer(ps);
        }
        if (q.bias) n->setUseBias(true);
        if (q.kind == "in" || q.kind == "full" || q.kind == "inconv" || q.kind == "conv") {
            n->setUseL2Regularization(q.l2)->setRegularizationStrength(q.str)->setMaterialized(q.mat);
            if (q.norm) n->setUseNormalization(true);
        }
        n->setBits((uint8_t) q.bits);
        if (q.clip) n->setNormClippingThreshold(q.thr);
        vs.push_back(n);
    }
    return dsl->build();
}
static T fill(const std::vector<size_t> &s, long k) {
    auto f = [k](size_t r, size_t c, size_t h) { return (float) (((long) (r * 7 + c * 3 + h * 5) * (k + 2) + k) % 11 - 5) / 4.f; };
    return std::make_shared<FullTensor>(std::make_shared<TensorFromFunction>(f, s[0], s[1], s[2]));
}
static std::vector<T> fills(const std::vector<std::vector<size_t>> &s, long k) {
    std::vector<T> r;
    for (auto &x: s) r.push_back(fill(x, k++));
    return r;
}
