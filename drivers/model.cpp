// Networks built by the DSL, trained, saved and loaded.
//   model OPT LR BLR LOSS NV (vertex)* NOPS (op)*
//   vertex: KIND(in|inconv|inflat|full|conv|drop|norm|cat) OUT ACT BIAS L2 STR NORM CLIP THR BITS MAT then
//           in: r c k n | inconv: r c k filters kernel | inflat: r c k | full: p n | conv: p filters kernel | drop: p rate | norm: p | cat: m p*
//   op: build i | train i d pol | save i ow | saveas i path ow | keep i label ow | restore i label | forget i label | load i path
#include "netbuild.hpp"
// what is stored: [model directory, label, digest]; label "" stands for the model's own files
static long digest(const std::string &s, long h = 5381) {
    for (unsigned char c: s) h = (h * 33 + c) & 0x3fffffff;
    return h;
}
static std::set<std::pair<std::string, std::string>> known;
static std::string lastModel = "none", lastLabel = "none";
static std::string stored() {
    std::vector<std::string> r;
    std::set<std::pair<std::string, std::string>> now;
    if (std::filesystem::exists("repo"))
        for (auto &m: std::filesystem::directory_iterator("repo")) {
            std::string mn = m.path().filename().string();
            if (!m.is_directory()) { r.push_back(v::J().put("m", mn).put("l", "file").put("d", 0).str()); continue; }
            long own = 0;
            bool any = false;
            std::vector<std::string> names;
            for (auto &x: std::filesystem::directory_iterator(m.path())) names.push_back(x.path().filename().string());
            std::sort(names.begin(), names.end());
            for (auto &x: names) {
                auto p = m.path() / x;
                if (!std::filesystem::is_directory(p)) { own = digest(v::slurp(p.string()), own + digest(x)); any = true; continue; }
                std::vector<std::string> fs;
                for (auto &f: std::filesystem::directory_iterator(p)) fs.push_back(f.path().filename().string());
                std::sort(fs.begin(), fs.end());
                long h = 0;
                for (auto &f: fs) h = digest(v::slurp((p / f).string()), h + digest(f));
                r.push_back(v::J().put("m", mn).put("l", x).put("d", h).str());
                now.insert({mn, x});
            }
            if (any) now.insert({mn, ""});
            if (any) r.push_back(v::J().put("m", mn).put("l", "").put("d", own).str());
        }
    for (auto &x: now) if (!known.count(x)) { if (x.second.empty()) lastModel = x.first; else lastLabel = x.second; }
    known = now;
    return v::arr(r);
}
static std::string name(v::Args &a) {
    std::string w = a.word();
    return w == "@model" ? lastModel : w == "@label" ? lastLabel : w;
}
static void model(v::Args &a) {
    Prog p;
    p.opt = a.word(); p.lr = (float) a.real(); p.blr = (float) a.real(); p.loss = a.word();
    for (long n = a.num(); n > 0; n--) p.vs.push_back(readVertex(a));
    std::vector<std::vector<size_t>> hs, os;
    for (long n = a.num(); n > 0; n--) { size_t r = Z(a.num()), c = Z(a.num()), k = Z(a.num()); hs.push_back({r, c, k}); }
    std::map<long, std::shared_ptr<NeuralNetworkForTraining>> nets;
    struct Ep : public ExitStrategy {
        bool isDone(size_t e, float, int64_t) override { return e >= 2; }
        std::string whyDone(size_t, float, int64_t) override { return "n"; }
    };
    for (long n = a.num(); n > 0; n--) {
        std::string op = a.word();
        long i = a.num();
        v::J j(op);
        j.put("i", i);
        bool threw = false;
        std::string w;
        try {
            if (op == "build") { nets[i] = build(p); nets[i]->setSilentMode(true); }
            else if (op == "train") {
                long d = a.num();
                std::string pol = a.word();
                auto ds = std::make_shared<Fixed>();
                os = Fixed::shapes(nets[i]->predict(fills(hs, 1)));
                for (long k = 0; k < 3; k++) ds->d.push_back({fills(hs, d * 5 + k), fills(os, d * 3 + k + 1)});
                nets[i]->setExitStrategy(std::make_shared<Ep>());
                j.put("d", 2 * d + (pol == "best"));
                nets[i]->train(ds, 2, pol == "best" ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last);
            } else if (op == "save") { bool ow = a.num(); j.put("ow", ow); if (ow) nets[i]->saveWithOverwrite(); else nets[i]->saveWithoutOverwrite(); }
            else if (op == "saveas") { w = name(a); bool ow = a.num(); j.put("p", w).put("ow", ow); nets[i]->saveAs("repo/" + w, ow); }
            else if (op == "keep") { w = name(a); bool ow = a.num(); j.put("l", w).put("ow", ow); if (ow) nets[i]->saveKnowledgeWithOverwrite(w); else nets[i]->saveKnowledgeWithoutOverwrite(w); }
            else if (op == "restore") { w = name(a); j.put("l", w); nets[i]->loadKnowledge(w); }
            else if (op == "forget") { w = name(a); j.put("l", w); nets[i]->removeKnowledge(w); }
            else if (op == "load") { w = name(a); j.put("p", w); nets[i] = loadNeuralNetworkForTraining(w, "repo"); nets[i]->setSilentMode(true); }
            else { fprintf(stderr, "driver: op %s\n", op.c_str()); _exit(77); }
        } catch (const std::exception &e) { threw = true; if (getenv("VERIF_DEBUG")) fprintf(stderr, "%s: %s\n", op.c_str(), e.what()); }
        std::vector<long> y;
        if (nets.count(i) && nets[i]) {
            try {
                long h = 5381;
                size_t count = 0;
                for (long k = 0; k < 2; k++)
                    for (auto &t: nets[i]->predict(fills(hs, k + 3))) { count++; h = digest(v::tensorBits(t), h); }
                y = {(long) count, h, (long) nets[i]->get_total_parameters(), (long) nets[i]->get_total_trainable_layers()};
            } catch (const std::exception &e) { y = {-1}; if (getenv("VERIF_DEBUG")) fprintf(stderr, "predict: %s\n", e.what()); }
        }
        v::emit(j.put("threw", threw).raw("y", v::ints(y)).raw("disk", stored()));
    }
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        a.word();
        v::Capture cap;
        model(a);
    });
}
