#include "all.hpp"
using namespace happyml;
// ops: mem D PART n | bin D PART COMP n split | add D | newsh S n | shuffle S | pred S | attach D S | next D | all D | restart D | count D
struct DS { std::shared_ptr<TrainingDataSet> d; std::shared_ptr<InMemoryTrainingDataSet> m; };
static std::shared_ptr<BinaryColumnMetadata> col(size_t r, size_t c) {
    auto m = std::make_shared<BinaryColumnMetadata>();
    m->purpose = 'N'; m->rows = r; m->columns = c; m->channels = 1; m->source_column_count = r * c;
    m->is_standardized = m->is_normalized = false; m->mean = m->standard_deviation = m->min_value = m->max_value = 0; m->name = "c";
    return m;
}
static std::shared_ptr<BaseTensor> rowT(size_t r, size_t c, float x) {
    std::vector<std::vector<std::vector<float>>> f(1, std::vector<std::vector<float>>(r, std::vector<float>(c, x)));
    return tensor(f);
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        std::map<std::string, DS> ds;
        std::map<std::string, std::shared_ptr<Shuffler>> sh;
        auto perm = [&](const std::string &s) {
            std::vector<long> p;
            for (size_t i = 0; i < sh[s]->getSize(); i++) p.push_back((long) sh[s]->getShuffledIndex(i));
            return v::ints(p);
        };
        auto next = [&](const std::string &d) {
            auto p = ds[d].d->nextRecord();
            long r1 = -1, r2 = -1;
            if (p) {
                r1 = v::scaled(p->getGiven()[0]->getValue(0, 0, 0), 1);
                r2 = (v::scaled(p->getExpected()[0]->getValue(0, 0, 0), 1) - 7) / 3;
            }
            v::emit(v::J("next").put("d", d).put("row", r1).put("row2", r2));
            return r1;
        };
        while (a.more()) {
            std::string op = a.word();
            if (op == "mem") {
                std::string d = a.word(), part = a.word();
                long n = a.num();
                auto m = std::make_shared<InMemoryTrainingDataSet>();
                for (long i = 0; i < n; i++) m->addTrainingData(rowT(1, 2, (float) i), rowT(1, 1, (float) (i * 3 + 7)));
                ds[d] = {m, m};
                bool shapes = n == 0 || (m->getGivenShape() == std::vector<size_t>{1, 2, 1} && m->getExpectedShape() == std::vector<size_t>{1, 1, 1});
                v::emit(v::J("open").put("d", d).put("part", part).put("n", n).put("cnt", m->recordCount()).put("comp", "").put("mem", true).put("shapes", shapes));
            } else if (op == "bin") {
                std::string d = a.word(), part = a.word(), comp = a.word();
                long n = a.num();
                float split = (float) a.real();
                std::string f = "f" + std::to_string(n) + ".bin";
                if (!std::filesystem::exists(f)) {
                    BinaryDatasetWriter w(f, {col(2, 1)}, {col(1, 1)}, 0);
                    for (long i = 0; i < n; i++) w.writeRow({rowT(2, 1, (float) i)}, {rowT(1, 1, (float) (i * 3 + 7))});
                    w.close();
                }
                auto b = split == 1.0f ? std::make_shared<BinaryDataSet>(f) : std::make_shared<BinaryDataSet>(f, split);
                ds[d] = {b, nullptr};
                bool shapes = b->getGivenShape() == std::vector<size_t>{2, 1, 1} && b->getExpectedShape() == std::vector<size_t>{1, 1, 1};
                v::emit(v::J("open").put("d", d).put("part", part).put("n", n).put("cnt", b->recordCount())
                                .put("comp", comp == "-" ? std::string() : comp).put("mem", false).put("shapes", shapes));
            } else if (op == "add") {
                std::string d = a.word();
                bool ok = true;
                float i = (float) ds[d].m->recordCount();
                try { ds[d].m->addTrainingData(rowT(1, 2, i), rowT(1, 1, i * 3 + 7)); } catch (std::exception &e) { ok = false; }
                v::emit(v::J("add").put("d", d).put("ok", ok));
            } else if (op == "newsh") {
                std::string s = a.word();
                long n = a.num();
                sh[s] = std::make_shared<Shuffler>((size_t) n);
                v::emit(v::J("newsh").put("s", s).put("n", n).raw("perm", perm(s)));
            } else if (op == "shuffle" || op == "pred") {
                std::string s = a.word();
                if (op == "pred") sh[s]->shuffle_predictably(); else sh[s]->shuffle();
                v::emit(v::J(op == "pred" ? "predictable" : "shuffle").put("s", s).raw("perm", perm(s)));
            } else if (op == "attach") {
                std::string d = a.word(), s = a.word();
                bool ok = true;
                try { ds[d].d->setShuffler(sh[s]); } catch (std::exception &e) { ok = false; }
                v::emit(v::J("attach").put("d", d).put("s", s).put("ok", ok));
            } else if (op == "next") {
                next(a.word());
            } else if (op == "all") {
                std::string d = a.word();
                long k = 0;
                while (next(d) >= 0 && k++ < 400) {}
            } else if (op == "restart") {
                std::string d = a.word();
                ds[d].d->restart();
                v::emit(v::J("restart").put("d", d));
            } else if (op == "count") {
                std::string d = a.word();
                v::emit(v::J("count").put("d", d).put("n", ds[d].d->recordCount()));
            }
        }
        v::emit("done");
    });
}
