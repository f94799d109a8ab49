// Tasks: created by a statement, or planted with known weights, then executed, damaged and created again.
// ops: data NAME hdr k (use type label start)*k TEXT | plant TASK DS (weight)* | damage TASK meta|config|knowledge
//      task TYPE NAME GOAL DS TEST | exec TASK DS nk (KEY nv (kind word)*)*       "-" stands for no name
#include "dsobs.hpp"
#include "src/util/task_utils.hpp"
static const std::string ROOT = "../happyml_repo/";
static std::map<std::string, std::string> snap() {
    std::map<std::string, std::string> m;
    for (std::string part: {"datasets/", "tasks/"})
        if (std::filesystem::exists(ROOT + part))
            for (auto &e: std::filesystem::directory_iterator(ROOT + part)) {
                std::string n = part + e.path().filename().string(), all;
                if (e.is_directory()) for (auto &p: v::tree(e.path().string())) all += p + "\n" + (p.back() == '/' ? "" : v::slurp(e.path().string() + "/" + p)) + "\n";
                else all = v::slurp(e.path().string());
                m[n] = all;
            }
    return m;
}
static std::string diff(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
    std::set<std::string> r;
    for (auto &p: a) if (!b.count(p.first) || b.at(p.first) != p.second) r.insert(p.first);
    for (auto &p: b) if (!a.count(p.first)) r.insert(p.first);
    std::vector<std::string> q;
    for (auto &x: r) q.push_back(v::J::q(x));
    return v::arr(q);
}
static std::string none(const std::string &w) { return w == "-" ? "" : w; }
static std::string meta(const std::string &dir, const std::string &n) {
    std::vector<std::string> g, x;
    try {
        BinaryDatasetReader r(dir + n + "/dataset.bin");
        for (auto &m: r.get_given_metadata()) g.push_back(column(m));
        for (auto &m: r.get_expected_metadata()) x.push_back(column(m));
    } catch (const std::exception &) {}
    v::J j;
    return j.raw("g", v::arr(g)).raw("x", v::arr(x)).str();
}
static bool loads(const std::string &n) {
    try { loadNeuralNetworkForTraining(n, ROOT + "tasks/"); return true; } catch (...) { return false; }
}
static void plant(const std::string &n, const std::string &ds, v::Args &a) {
    std::string tasks = ROOT + "tasks/";
    BinaryDatasetReader r(dsFile(ds));
    auto dsl = neuralNetworkBuilder(OptimizerType::sgd, n, tasks);
    dsl->setLossFunction(LossType::mse);
    std::vector<std::vector<size_t>> shapes;
    size_t width = 0;
    for (auto &m: r.get_given_metadata()) { shapes.push_back({m->rows, m->columns, m->channels}); width += m->columns; }
    std::shared_ptr<HappymlDSL::NNVertex> h;
    if (shapes.size() > 1) h = dsl->add_concatenated_input_layer(shapes)->addLayer(width, LayerType::full, ActivationType::linear);
    else h = dsl->addInputLayer(shapes[0], width, LayerType::full, ActivationType::linear);
    for (auto &m: r.get_expected_metadata()) h->addOutputLayer({m->rows, m->columns, m->channels}, ActivationType::linear);
    auto net = dsl->build();
    net->saveWithOverwrite();
    std::map<long, std::string> files;
    for (auto &f: v::tree(tasks + n + "/default")) if (f.find("full") != std::string::npos) files[atol(f.c_str())] = f;
    std::vector<std::string> w;
    size_t k = 0;
    for (auto &f: files) {
        std::string path = tasks + n + "/default/" + f.second;
        size_t outs = k == 0 ? width : r.get_expected_metadata(k - 1)->columns;
        std::vector<std::vector<float>> ws(width, std::vector<float>(outs, 0.f));
        std::vector<std::string> rows;
        for (size_t i = 0; i < width; i++) {
            if (k == 0) { ws[i][i] = 1.f; continue; }
            std::vector<long> q;
            for (size_t j = 0; j < outs; j++) { long x = a.num(); q.push_back(x); ws[i][j] = (float) x; }
            rows.push_back(v::ints(q));
        }
        if (k > 0) w.push_back(v::arr(rows));
        auto t = std::make_shared<FullTensor>(std::vector<std::vector<std::vector<float>>>{ws});
        t->save(path);
        k++;
    }
    BinaryDatasetWriter writer(tasks + n + "/dataset.bin", r.get_given_metadata(), r.get_expected_metadata());
    writer.close();
    v::emit(v::J("plant").put("task", n).put("ds", ds).raw("w", v::arr(w)).put("loads", loads(n)).raw("meta", meta(tasks, n)));
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        auto ctx = std::make_shared<ExecutionContext>();
        auto attempt = [&](const std::shared_ptr<ExecutableStatement> &s, v::J &j, std::string &out) {
            bool ok = false, threw = false;
            std::string msg;
            {
                v::Capture cap;
                try { auto r = s->execute(ctx); ok = r->isSuccessful(); msg = r->getMessage(); }
                catch (const std::exception &e) { threw = true; if (getenv("VERIF_DEBUG")) fprintf(stderr, "%s\n", e.what()); }
                out = cap.so.str();
            }
            if (getenv("VERIF_DEBUG")) fprintf(stderr, "%s%s\n", out.size() > 3000 ? "" : out.c_str(), msg.c_str());
            j.put("ok", ok).put("threw", threw).put("said", !msg.empty());
        };
        while (a.more()) {
            std::string op = a.word();
            if (op == "data") {
                std::string n = a.word();
                bool hdr = a.num();
                std::vector<std::shared_ptr<ColumnGroup>> cg;
                for (long i = 0, k = a.num(); i < k; i++) {
                    std::string use = a.word(), type = a.word(), label = a.str();
                    cg.push_back(std::make_shared<ColumnGroup>(i + 1, a.num(), 1, use, type, label, 1, 1, 1));
                }
                v::spill(n + ".csv", a.str());
                {
                    v::Capture cap;
                    std::make_shared<CreateDatasetStatement>(n, "file://" + n + ".csv", hdr, cg, false)->execute(ctx);
                }
                v::emit(v::J("data").put("name", n).raw("st", storedOf(n)));
            } else if (op == "plant") {
                std::string n = a.word(), ds = a.word();
                plant(n, ds, a);
            } else if (op == "damage") {
                std::string n = a.word(), what = a.word(), p = ROOT + "tasks/" + n;
                std::filesystem::remove_all(p + (what == "meta" ? "/dataset.bin" : what == "config" ? "/model.config" : "/default"));
                v::emit(v::J("damage").put("task", n).put("what", what));
            } else if (op == "task") {
                std::string type = a.word(), n = a.word(), goal = a.word(), ds = none(a.word()), test = none(a.word()), out;
                auto before = snap();
                v::J j("task");
                j.put("type", type).put("task", n).put("goal", goal).put("ds", ds).put("test", test);
                attempt(std::make_shared<CreateTaskStatement>(type, n, goal, ds, test), j, out);
                auto after = snap();
                v::emit(j.raw("changed", diff(before, after)).put("exists", after.count("tasks/" + n) > 0)
                         .raw("meta", meta(ROOT + "tasks/", n)).put("loads", after.count("tasks/" + n) && loads(n)));
            } else if (op == "exec") {
                std::string n = a.word(), ds = none(a.word()), out;
                std::unordered_map<std::string, std::vector<HappyMLVariant>> in;
                std::vector<std::string> ins;
                for (long k = a.num(); k > 0; k--) {
                    std::string key = a.str();
                    std::vector<std::string> vals;
                    for (long m = a.num(); m > 0; m--) {
                        std::string kind = a.word(), w = a.str();
                        if (kind == "s") in[key].push_back(HappyMLVariant(w));
                        else in[key].push_back(HappyMLVariant(std::stof(w)));
                        vals.push_back(w);
                    }
                    v::J q;
                    ins.push_back(q.codes("key", key).raw("vals", v::strs(vals)).str());
                }
                auto before = snap();
                v::J j("exec");
                j.put("task", n).put("ds", ds).raw("ins", v::arr(ins));
                attempt(std::make_shared<ExecuteTaskStatement>(n, "", ds, in), j, out);
                std::vector<std::string> lines;
                std::stringstream ss(out);
                std::string line;
                while (std::getline(ss, line)) {
                    if (line.rfind("Results:", 0) == 0) { lines.clear(); continue; }
                    std::vector<std::string> cells;
                    std::stringstream ls(line + "|");
                    std::string c;
                    while (std::getline(ls, c, '|')) cells.push_back(c);
                    lines.push_back(v::strs(cells));
                }
                v::emit(j.raw("changed", diff(before, snap())).raw("lines", v::arr(lines)));
            }
        }
        v::emit("done");
    });
}
