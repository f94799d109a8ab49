// A search for hyperparameters with given scores.
// hyper LOSS PURPOSES rows SEARCH res factor target(1000) epochs maxbatch bits  11*(limit of a part of the space)  nscores (score)*
//   PURPOSES: letters of given columns (N L I)   SEARCH: how many configurations   score: number (1000) | nan | throw | real
#include "all.hpp"
#include "src/util/file_writer.hpp"
#include "src/ml/hyperband/hyperband.hpp"
#include <mutex>
using namespace happyml;
static std::shared_ptr<BinaryColumnMetadata> meta(char p, const std::string &n, size_t r, size_t c, size_t k) {
    auto m = std::make_shared<BinaryColumnMetadata>();
    m->purpose = p; m->name = n; m->rows = r; m->columns = c; m->channels = k;
    m->is_normalized = m->is_standardized = false;
    m->min_value = m->max_value = m->mean = m->standard_deviation = 0;
    if (p == 'L') for (size_t i = 0; i < c; i++) m->ordered_labels.push_back("l" + std::to_string(i));
    return m;
}
static std::shared_ptr<BaseTensor> value(const std::shared_ptr<BinaryColumnMetadata> &m, size_t row) {
    std::vector<std::vector<std::vector<float>>> v(m->channels, std::vector<std::vector<float>>(m->rows, std::vector<float>(m->columns, 0.f)));
    for (size_t k = 0; k < m->channels; k++)
        for (size_t i = 0; i < m->rows; i++)
            for (size_t j = 0; j < m->columns; j++) v[k][i][j] = m->purpose == 'L' ? (j == row % m->columns) : (float) ((row * 37 + i * 5 + j * 7 + k) % 1009) / 1024.f;
    if (m->purpose == 'I') return std::make_shared<PixelTensor>(v);
    return std::make_shared<FullTensor>(v);
}
template<class T> static void limit(std::vector<T> &v, long k) { if (k > 0 && (size_t) k < v.size()) v.erase(v.begin() + k, v.end()); }
template<class T, class X> static long at(const std::vector<T> &v, X x) {
    for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return (long) i + 1;
    return 0;
}
static long thousandths(float f) { return std::isnan(f) ? 888888888 : std::isinf(f) ? (f > 0 ? 999999999 : -999999999) : v::scaled(f, 1000); }
static std::string answer(const std::shared_ptr<NeuralNetworkForPrediction> &n, const std::shared_ptr<BinaryDataSet> &d) {
    d->restart();
    std::vector<long> r;
    auto p = d->nextRecord();
    for (auto &t: n->predict(p->getGiven()))
        for (size_t k = 0; k < t->channelCount(); k++)
            for (size_t i = 0; i < t->rowCount(); i++)
                for (size_t j = 0; j < t->columnCount(); j++) r.push_back(thousandths(t->getValue(i, j, k)));
    return v::ints(r);
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        a.word();
        std::string loss = a.word(), purposes = a.word();
        long nrows = a.num(), n = a.num(), res = a.num(), factor = a.num();
        long target = a.num(), epochs = a.num(), batch = a.num(), bits = a.num();
        LossType lt = loss == "mse" ? LossType::mse : loss == "mae" ? LossType::mae : loss == "cat" ? LossType::categoricalCrossEntropy : LossType::binaryCrossEntropy;
        auto space = std::make_shared<HyperparameterSpace>((int) batch);
        v::J s;
        std::vector<long> batches(space->batch_size_space.begin(), space->batch_size_space.end());
        limit(space->learning_rate_space, a.num());
        limit(space->bias_learning_rate_space, a.num());
        limit(space->complexity_depth_space, a.num());
        limit(space->complexity_width_space, a.num());
        limit(space->dropout_rate_space, a.num());
        limit(space->l2_regularization_strength_space, a.num());
        limit(space->batch_size_space, a.num());
        limit(space->use_normalization_layers_space, a.num());
        limit(space->use_bias_space, a.num());
        limit(space->use_hidden_bias_space, a.num());
        limit(space->use_normal_clipping_space, a.num());
        std::vector<std::string> scores;
        for (long k = a.num(); k > 0; k--) scores.push_back(a.word());
        std::vector<std::shared_ptr<BinaryColumnMetadata>> g, x;
        for (char p: purposes) g.push_back(p == 'I' ? meta('I', "i", 12, 12, 1) : p == 'L' ? meta('L', "l", 1, 2, 1) : meta('N', "n", 1, 2, 1));
        x.push_back(lt == LossType::mse || lt == LossType::mae ? meta('N', "y", 1, 1, 1) : meta('L', "y", 1, lt == LossType::categoricalCrossEntropy ? 3 : 2, 1));
        {
            BinaryDatasetWriter w("data.bin", g, x);
            for (long r = 0; r < nrows; r++) {
                std::vector<std::shared_ptr<BaseTensor>> gv, xv;
                for (auto &m: g) gv.push_back(value(m, (size_t) r));
                for (auto &m: x) xv.push_back(value(m, (size_t) r));
                w.writeRow(gv, xv);
            }
            w.close();
        }
        auto before = v::tree(".");
        std::vector<long> sizes = {(long) space->learning_rate_space.size(), (long) space->bias_learning_rate_space.size(), (long) space->complexity_depth_space.size(),
                                   (long) space->complexity_width_space.size(), (long) space->dropout_rate_space.size(), (long) space->l2_regularization_strength_space.size(),
                                   (long) space->batch_size_space.size(), (long) space->use_normalization_layers_space.size(), (long) space->use_bias_space.size(),
                                   (long) space->use_hidden_bias_space.size(), (long) space->use_normal_clipping_space.size()};
        v::emit(v::J("start").raw("sizes", v::ints(sizes)).put("n", n).put("res", res).put("factor", factor).put("target", target).put("epochs", epochs)
                    .put("maxbatch", batch).raw("batches", v::ints(batches)).put("minimize", lt == LossType::mse || lt == LossType::mae).put("all", (long) space->getNumConfigurations())
                    .put("lossy", purposes.find('I') != std::string::npos && space->complexity_depth_space.size() > 3).put("b32", bits == 32));
        std::mutex m;
        std::map<Hyperparameters *, long> ids;
        std::map<long, long> times;
        std::vector<std::shared_ptr<Hyperparameters>> known;
        auto d = std::make_shared<BinaryDataSet>("data.bin", 1.f);
        std::shared_ptr<NeuralNetworkForTraining> best;
        bool threw = false;
        try {
            auto ev = std::make_shared<ConfigurationEvaluator>(lt, OptimizerType::adam, "data.bin", 1.f, "data.bin", 1.f, "./", (int) epochs, 600000);
            ev->verif_evaluated = [&](const std::shared_ptr<NeuralNetworkForTraining> &net, const std::shared_ptr<Hyperparameters> &c, int r,
                                      const std::shared_ptr<TrainingResult> &t, float own) {
                auto set = std::make_shared<BinaryDataSet>("data.bin", 1.f);
                float again = t->final_test_loss;
                if (lt == LossType::categoricalCrossEntropy) again = net->compute_categorical_accuracy(set, ev->getExpectedDecoders());
                if (lt == LossType::binaryCrossEntropy) again = net->compute_binary_accuracy(set);
                std::string said = answer(net, set);
                // nothing below may run in parallel
                std::lock_guard<std::mutex> guard(m);
                if (!ids.count(c.get())) { ids[c.get()] = (long) ids.size() + 1; known.push_back(c); }
                long id = ids[c.get()], turn = times[id]++;
                std::string word = scores.empty() ? "real" : scores[(size_t) ((id - 1) * 3 + turn) % scores.size()];
                float metric = word == "real" ? own : word == "nan" ? NAN : word == "throw" ? 0.f : (float) (atol(word.c_str()) / 1000.);
                std::vector<long> cfg = {at(space->learning_rate_space, c->learning_rate), at(space->bias_learning_rate_space, c->bias_learning_rate),
                                         at(space->complexity_depth_space, c->complexity_depth), at(space->complexity_width_space, c->complexity_width),
                                         at(space->dropout_rate_space, c->dropout_rate), at(space->l2_regularization_strength_space, c->l2_regularization_strength),
                                         at(space->batch_size_space, c->batch_size), at(space->use_normalization_layers_space, c->use_normalization_layers),
                                         at(space->use_bias_space, c->use_bias), at(space->use_hidden_bias_space, c->use_hidden_bias),
                                         at(space->use_normal_clipping_space, c->use_normal_clipping)};
                v::emit(v::J("eval").put("id", id).raw("cfg", v::ints(cfg)).put("res", (long) r).put("metric", thousandths(metric)).put("fails", word == "throw")
                            .put("own", thousandths(own)).put("again", thousandths(again)).put("epochs", (long) t->epochs).put("batch", (long) t->batch_size).put("size", (long) c->batch_size)
                            .put("bits", c->bits == (int) bits).raw("answer", said));
                if (word == "throw") throw std::runtime_error("cannot be evaluated");
                return metric;
            };
            Hyperband h(space, ev, (int) res, (int) factor);
            best = h.run((size_t) n, (float) (target / 1000.), (int) bits);
        } catch (const std::exception &e) { threw = true; if (getenv("VERIF_DEBUG")) fprintf(stderr, "%s\n", e.what()); }
        std::vector<long> which;
        if (best) {
            std::string name = best->get_name();
            for (auto &c: known) {
                std::string k = c->temp_folder_name();
                if (name.substr(0, name.rfind('_')) == k.substr(0, k.rfind('_'))) which.push_back(ids[c.get()]);
            }
        }
        auto after = v::tree(".");
        std::vector<std::string> left;
        for (auto &f: after) if (std::find(before.begin(), before.end(), f) == before.end() && f != "cache/") left.push_back(v::J::q(f));
        v::emit(v::J("result").put("threw", threw).put("found", best != nullptr).raw("ids", v::ints(which)).raw("left", v::arr(left)).put("left_n", (long) left.size())
                    .raw("answer", best ? answer(best, d) : "[]"));
    });
}
