// Networks of probe layers under the real node/network/training code.
//   graph N NE (from to)* H h* O o* NC (clip node)* NU (unmaterialized node)* BATCH EPOCHS R (givens truths)* P (givens)*
//   train NODES(chain length) OUTS TABLE len v* RUNS (EPOCHS BATCH POLICY NREC NTEST)*
//   exit P ELAPSED EPOCHS ZERO IMPROVE MINEP DEGR (r | a epoch loss elapsed)*
//   limit P ELAPSED EPOCHS ZERO IMPROVE MINEP DEGR SLEEP RUNS len v*
//   acc KIND HEADS WIDTH LIMIT R (given* expected*)*
#include "all.hpp"
#include "src/ml/exit_strategy.hpp"
#include <thread>
using namespace happyml;
typedef std::chrono::steady_clock Clock;
static long ms(Clock::time_point a, Clock::time_point b) { return (long) std::chrono::duration_cast<std::chrono::milliseconds>(b - a).count(); }
static std::shared_ptr<BaseTensor> one(float x) { return columnVector({x}); }
static long val(const std::shared_ptr<BaseTensor> &t) { return v::scaled(t->getValue(0), 100); }

struct Shared { Clock::time_point first, last; bool any = false; long sleep = 0; };
struct Probe : public BaseLayer {
    long n, ins;
    bool counting = false, head = false;
    long version = 0;
    Shared *sh = nullptr;
    std::vector<std::shared_ptr<BaseTensor>> lastIn;
    Probe(long n, long ins) : n(n), ins(ins) {}
    std::shared_ptr<BaseTensor> forward(const std::vector<std::shared_ptr<BaseTensor>> &in, bool t) override {
        if (sh) {
            auto now = Clock::now();
            if (!sh->any) { sh->first = now; sh->any = true; }
            sh->last = now;
            if (head && sh->sleep) std::this_thread::sleep_for(std::chrono::milliseconds(sh->sleep));
            if (head) sh->last = Clock::now();
        }
        if (counting) {
            if (head) v::emit(v::J("rec").put("id", v::scaled(in[0]->getValue(0), 1)).put("t", t));
            return one((float) version);
        }
        std::vector<long> x;
        long s = n;
        for (size_t k = 0; k < in.size(); k++) { x.push_back(val(in[k])); s += (long) (k + 2) * std::lround(in[k]->getValue(0)); }
        long out = ((s % 997) + 997) % 997;
        v::emit(v::J("fwd").put("n", n).raw("in", v::ints(x)).put("t", t));
        return one((float) out);
    }
    std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &err) override {
        std::vector<std::shared_ptr<BaseTensor>> r;
        long e = std::lround(err->getValue(0));
        for (long k = 0; k < (ins ? ins : 1); k++) r.push_back(one((float) (12 * ((e + 7 * n + 3 * k) % 101))));
        if (!counting) v::emit(v::J("bwd").put("n", n).put("err", val(err)));
        return r;
    }
    void apply(const std::shared_ptr<BaseOptimizer> &) override { version++; v::emit(v::J("apply").put("n", n)); }
    bool is_trainable() override { return n % 2 == 1; }
    size_t get_parameter_count() override { return (size_t) n; }
    void saveKnowledge(const std::string &p) override { v::spill(p + "/p" + std::to_string(n), std::to_string(version)); v::emit(v::J("save").put("n", n)); }
    void loadKnowledge(const std::string &p) override { version = atol(v::slurp(p + "/p" + std::to_string(n)).c_str()); v::emit(v::J("load").put("n", n)); }
};

struct GraphLoss : public LossFunction {
    std::shared_ptr<BaseTensor> compute_error(std::shared_ptr<BaseTensor> &truth, std::shared_ptr<BaseTensor> &p) override { return one(1.f); }
    float compute_loss(std::shared_ptr<BaseTensor> &) override { return 1.f; }
    std::shared_ptr<BaseTensor> compute_loss_derivative(std::shared_ptr<BaseTensor> &, std::shared_ptr<BaseTensor> &truth, std::shared_ptr<BaseTensor> &p) override {
        v::emit(v::J("loss").put("truth", val(truth)).put("pred", val(p)));
        return one(truth->getValue(0));
    }
};
// what a record loses depends on its truth and on how often the network was updated before
struct TableLoss : public LossFunction {
    std::vector<long> table;
    float unit = 1.f;
    std::shared_ptr<BaseTensor> compute_error(std::shared_ptr<BaseTensor> &truth, std::shared_ptr<BaseTensor> &p) override {
        return columnVector({truth->getValue(0), p->getValue(0)});
    }
    float compute_loss(std::shared_ptr<BaseTensor> &e) override {
        long t = std::lround(e->getValue(0)), p = std::lround(e->getValue(1));
        long x = table[(size_t) ((t * 7 + p * 13) % (long) table.size())];
        return x < 0 ? NAN : (float) x / unit;
    }
    std::shared_ptr<BaseTensor> compute_loss_derivative(std::shared_ptr<BaseTensor> &, std::shared_ptr<BaseTensor> &, std::shared_ptr<BaseTensor> &) override { return one(1.f); }
};
struct Scripted : public ExitStrategy {
    size_t epochs = 1;
    bool isDone(size_t e, float loss, int64_t) override {
        v::emit(v::J("epoch").put("k", e).put("loss", v::scaled(loss, 1000)));
        return e >= epochs;
    }
    std::string whyDone(size_t, float, int64_t) override { return "script"; }
};
static std::string why(const std::string &w) {
    auto has = [&](const char *x) { return w.find(x) != std::string::npos; };
    if (has("Should not")) return "early";
    if (has(">= Maximum Epochs")) return "epochs";
    if (has("Degradation (")) return "degradation";
    if (has("Maximum Elapsed Time")) return "time";
    if (has("Patience (")) return "patience";
    if (has("Zero Precision")) return "zero";
    return w.empty() ? "nothing" : "other";
}
static float unit = 64.f;
struct Recorder : public DefaultExitStrategy {
    Clock::time_point start;
    Shared *sh = nullptr;
    using DefaultExitStrategy::DefaultExitStrategy;
    void ask(size_t e, float loss, int64_t el, bool real) {
        auto now = Clock::now();
        bool threw = false, d = false;
        std::string w;
        try { d = DefaultExitStrategy::isDone(e, loss, el); w = why(DefaultExitStrategy::whyDone(e, loss, el)); } catch (const std::exception &) { threw = true; }
        v::emit(v::J("ask").put("k", e).put("loss", v::scaled(loss, unit)).put("el", (long) el).put("done", d).put("why", w).put("threw", threw)
                        .put("lo", real && sh->any ? ms(sh->first, sh->last) : (long) el).put("hi", real ? ms(start, now) : (long) el));
        result = d;
        if (threw) throw std::runtime_error("strategy");
    }
    bool result = false;
    bool isDone(size_t e, float loss, int64_t el) override { ask(e, loss, el, true); return result; }
};
static std::shared_ptr<Recorder> strategy(v::Args &a) {
    long p = a.num(), el = a.num(), ep = a.num(), z = a.num(), im = a.num(), mn = a.num(), dg = a.num();
    return std::make_shared<Recorder>((size_t) p, (int64_t) el, (size_t) ep, (float) z / unit, (float) im / unit, (size_t) mn, (float) dg / 8.f);
}
static std::string pending(const std::string &root) {
    std::vector<std::string> r;
    for (auto &x: v::tree(root)) r.push_back(x);
    return v::strs(r);
}

static void graph(v::Args &a) {
    long N = a.num(), NE = a.num();
    std::vector<std::pair<long, long>> ed;
    std::vector<long> ins(N + 1, 0);
    for (long i = 0; i < NE; i++) { long f = a.num(), t = a.num(); ed.push_back({f, t}); ins[t]++; }
    std::vector<std::shared_ptr<Probe>> pr(N + 1);
    std::vector<std::shared_ptr<NeuralNetworkNode>> nd(N + 1);
    std::vector<long> hs, os;
    for (long i = a.num(); i > 0; i--) hs.push_back(a.num());
    for (long i = a.num(); i > 0; i--) os.push_back(a.num());
    for (long i = 1; i <= N; i++) {
        pr[i] = std::make_shared<Probe>(i, ins[i]);
        nd[i] = std::find(os.begin(), os.end(), i) != os.end() ? std::make_shared<NeuralNetworkOutputNode>(pr[i]) : std::make_shared<NeuralNetworkNode>(pr[i]);
    }
    for (auto &e: ed) nd[e.first]->add(nd[e.second]);
    for (long i = a.num(); i > 0; i--) { auto k = a.num(); nd[k]->set_use_norm_clipping(true); nd[k]->set_norm_clipping_threshold(60.f); }
    for (long i = a.num(); i > 0; i--) nd[a.num()]->setMaterialized(false);
    long B = a.num(), EP = a.num();
    auto net = std::make_shared<NeuralNetworkForTraining>("net", "repo", OptimizerType::sgd, 0.5f, 0.5f, LossType::mse);
    net->setSilentMode(true);
    net->setLossFunction(std::make_shared<GraphLoss>());
    struct Ep : public ExitStrategy {
        size_t n;
        bool isDone(size_t e, float, int64_t) override { v::emit("epoch"); return e >= n; }
        std::string whyDone(size_t, float, int64_t) override { return "n"; }
    };
    auto ex = std::make_shared<Ep>();
    ex->n = (size_t) EP;
    net->setExitStrategy(ex);
    for (long h: hs) net->addHeadNode(nd[h]);
    for (long o: os) net->addOutput(std::dynamic_pointer_cast<NeuralNetworkOutputNode>(nd[o]));
    v::emit(v::J("facts").put("params", net->get_total_parameters()).put("trainable", net->get_total_trainable_layers()));
    auto predict = [&]() {
        std::vector<std::shared_ptr<BaseTensor>> g;
        std::vector<long> gi;
        for (size_t h = 0; h < hs.size(); h++) { gi.push_back(a.num()); g.push_back(one((float) gi.back())); }
        v::emit(v::J("ask").raw("in", v::ints(gi)));
        std::vector<long> y;
        bool threw = false;
        try { for (auto &t: net->predict(g)) y.push_back(val(t)); } catch (const std::exception &e) { threw = true; }
        v::emit(v::J("answer").raw("y", v::ints(y)).put("threw", threw));
    };
    auto ds = std::make_shared<InMemoryTrainingDataSet>();
    for (long i = a.num(); i > 0; i--) {
        std::vector<std::shared_ptr<BaseTensor>> g, x;
        for (size_t h = 0; h < hs.size(); h++) g.push_back(one((float) a.num()));
        for (size_t o = 0; o < os.size(); o++) x.push_back(one((float) a.num()));
        ds->addTrainingData(g, x);
    }
    long P = a.num();
    for (long i = 0; i < P / 2; i++) predict();
    if (ds->recordCount() > 0) {
        v::emit("train");
        bool threw = false;
        try { net->train(ds, (int) B, TrainingRetentionPolicy::last); } catch (const std::exception &e) { threw = true; if (getenv("VERIF_DEBUG")) fprintf(stderr, "%s\n", e.what()); }
        v::emit(v::J("trained").put("threw", threw));
    }
    for (long i = P / 2; i < P; i++) predict();
}

struct Net {
    std::shared_ptr<NeuralNetworkForTraining> net;
    std::vector<std::shared_ptr<Probe>> pr;
    std::shared_ptr<TableLoss> loss = std::make_shared<TableLoss>();
    Shared sh;
};
static void build(Net &m, long nodes, long outs) {
    m.net = std::make_shared<NeuralNetworkForTraining>("net", "repo", OptimizerType::sgd, 0.5f, 0.5f, LossType::mse);
    m.net->setSilentMode(true);
    m.net->setLossFunction(m.loss);
    std::shared_ptr<NeuralNetworkNode> last;
    auto mk = [&](long n, long ins) {
        auto p = std::make_shared<Probe>(n, ins);
        p->counting = true;
        p->head = n == 1;
        p->sh = &m.sh;
        m.pr.push_back(p);
        return p;
    };
    for (long i = 1; i <= nodes; i++) {
        auto n = std::make_shared<NeuralNetworkNode>(mk(i, i > 1));
        if (last) last->add(n); else m.net->addHeadNode(n);
        last = n;
    }
    for (long o = 1; o <= outs; o++) {
        auto n = std::make_shared<NeuralNetworkOutputNode>(mk(nodes + o, 1));
        last->add(n);
        m.net->addOutput(n);
    }
}
static std::shared_ptr<InMemoryTrainingDataSet> records(long from, long n, long outs) {
    auto ds = std::make_shared<InMemoryTrainingDataSet>();
    for (long i = 0; i < n; i++) {
        std::vector<std::shared_ptr<BaseTensor>> g{one((float) (from + i))}, x;
        for (long o = 0; o < outs; o++) x.push_back(one((float) (from + i + 1000 * o)));
        ds->addTrainingData(g, x);
    }
    return ds;
}
static void train(v::Args &a) {
    Net m;
    long nodes = a.num(), outs = a.num();
    build(m, nodes, outs);
    for (long i = a.num(); i > 0; i--) m.loss->table.push_back(a.num());
    std::filesystem::create_directories("repo/net/other");
    v::spill("repo/net/other/p1", "7");
    for (long runs = a.num(); runs > 0; runs--) {
        long ep = a.num(), b = a.num();
        bool keepBest = a.word() == "best";
        long n = a.num(), nt = a.num();
        auto ex = std::make_shared<Scripted>();
        ex->epochs = (size_t) ep;
        m.net->setExitStrategy(ex);
        auto ds = records(1, n, outs);
        auto ts = records(101, nt, outs);
        v::emit(v::J("train").put("batch", b).put("best", keepBest).put("n", n).put("nt", nt));
        std::shared_ptr<TrainingResult> r;
        bool threw = false;
        try {
            auto pol = keepBest ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last;
            r = nt > 0 ? m.net->train(ds, ts, (int) b, pol) : m.net->train(ds, (int) b, pol);
        } catch (const std::exception &e) { threw = true; }
        std::vector<long> ver;
        for (auto &p: m.pr) ver.push_back(p->version);
        v::J j("trained");
        j.put("threw", threw).raw("ver", v::ints(ver)).raw("left", pending("repo"));
        if (r) j.put("final", v::scaled(r->final_test_loss, 1000)).put("bestTrain", v::scaled(r->best_train_loss, 1000)).put("firstTrain", v::scaled(r->initial_train_loss, 1000))
                    .put("records", r->total_records).put("bsize", r->batch_size).put("trained", r->trained);
        v::emit(j);
        if (threw) return;
    }
}
static void exitOps(v::Args &a) {
    auto s = strategy(a);
    while (a.more()) {
        if (a.word() == "r") { s->reset(); v::emit("start"); }
        else {
            long e = a.num(), lo = a.num(), el = a.num();
            try { s->ask((size_t) e, (float) lo / unit, (int64_t) el, false); } catch (const std::exception &) { return; }
        }
    }
}
static void limit(v::Args &a) {
    auto s = strategy(a);
    Net m;
    build(m, 1, 1);
    m.loss->unit = unit;
    m.sh.sleep = a.num();
    long runs = a.num();
    for (long i = a.num(); i > 0; i--) m.loss->table.push_back(a.num());
    m.net->setExitStrategy(s);
    s->sh = &m.sh;
    for (; runs > 0; runs--) {
        auto ds = records(1, 1, 1);
        v::emit("start");
        m.sh.any = false;
        s->start = Clock::now();
        bool threw = false;
        try { m.net->train(ds, 1, TrainingRetentionPolicy::last); } catch (const std::exception &) { threw = true; }
        v::emit(v::J("trained").put("threw", threw));
    }
}
// an identity network: the prediction is the given
struct Echo : public BaseLayer {
    std::shared_ptr<BaseTensor> forward(const std::vector<std::shared_ptr<BaseTensor>> &in, bool) override { return in[0]; }
    std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &e) override { return {e}; }
};
static void acc(v::Args &a) {
    std::string kind = a.word();
    long H = a.num(), W = a.num(), lim = a.num(), R = a.num();
    auto net = std::make_shared<NeuralNetworkForTraining>("net", "repo", OptimizerType::sgd, 0.5f, 0.5f, LossType::mse);
    net->setSilentMode(true);
    for (long h = 0; h < H; h++) {
        auto n = std::make_shared<NeuralNetworkOutputNode>(std::make_shared<Echo>());
        net->addHeadNode(n);
        net->addOutput(n);
    }
    auto ds = std::make_shared<InMemoryTrainingDataSet>();
    auto read = [&]() {
        std::vector<std::shared_ptr<BaseTensor>> r;
        for (long h = 0; h < H; h++) {
            std::vector<float> x;
            for (long w = 0; w < W; w++) x.push_back((float) a.num() / 8.f);
            r.push_back(columnVector(x));
        }
        return r;
    };
    for (long i = 0; i < R; i++) { auto g = read(); auto e = read(); ds->addTrainingData(g, e); }
    float r = -1;
    bool threw = false;
    try {
        if (kind == "bin") r = net->compute_binary_accuracy(ds, (int) lim);
        else {
            std::vector<std::string> cats;
            for (long w = 0; w < W; w++) cats.push_back(std::string(1, (char) ('a' + w)));
            std::vector<std::shared_ptr<RawDecoder>> dec;
            for (long h = 0; h < H; h++) dec.push_back(std::make_shared<BestTextCategoryDecoder>(cats));
            r = net->compute_categorical_accuracy(ds, dec, (int) lim);
        }
    } catch (const std::exception &) { threw = true; }
    v::emit(v::J("acc").put("r", v::scaled(r, 100000)).put("threw", threw));
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        std::string op = a.word();
        v::Capture cap;
        if (op == "graph") graph(a);
        else if (op == "train") train(a);
        else if (op == "exit") exitOps(a);
        else if (op == "limit") limit(a);
        else acc(a);
    });
}
