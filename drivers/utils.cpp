#include "all.hpp"
#include "src/util/lru_cache.h"
#include "src/types/trie.hpp"
#include "src/ml/byte_pair_encoder.hpp"
#include "src/util/one_hot_encoder.hpp"
using namespace happyml;
static std::string u16(const std::u16string &s) {
    std::vector<long> r;
    for (auto c: s) r.push_back((long) (uint16_t) c);
    return v::ints(r);
}
static std::u16string back16(const std::string &csv) {
    std::u16string r;
    std::stringstream ss(csv);
    std::string x;
    while (std::getline(ss, x, ',')) if (!x.empty()) r.push_back((char16_t) atoi(x.c_str()));
    return r;
}
static v::J model(const char *e, int slot, BytePairEncoderModel &m) {
    auto cs = m.getBpeCodes();
    std::vector<std::string> r;
    for (auto it = cs.rbegin(); it != cs.rend(); ++it) r.push_back("{\"p\":" + u16(it->first) + ",\"c\":" + u16(it->second) + "}");
    v::J j(e);
    j.put("s", slot).raw("codes", v::arr(r)).put("largest", (long) m.getLargestCode()).raw("delim", u16(m.getDelimiter()));
    return j;
}
static void bpe(v::Args &a) {
    std::vector<std::shared_ptr<BytePairEncoderModel>> ms;
    for (int i = 0; i < 3; i++) ms.push_back(std::make_shared<BytePairEncoderModel>("m", false));
    while (a.more()) {
        std::string op = a.word();
        int s = a.num();
        auto &m = *ms[s];
        if (op == "train") {
            int merges = a.num(), n = a.num();
            std::vector<std::string> t;
            for (int i = 0; i < n; i++) t.push_back(a.str());
            m.train(t, -1, 0.00001, 2, merges);
            v::emit(model("train", s, m));
        } else if (op == "file" || op == "folder") {
            int n = op == "file" ? 1 : a.num();
            std::filesystem::remove_all("texts");
            std::filesystem::create_directories("texts");
            for (int i = 0; i < n; i++) v::spill("texts/f" + std::to_string(i), a.str());
            bool ok = op == "file" ? m.train_on_file("texts/f0") : m.train_on_folder("texts");
            v::emit(model("retrain", s, m).put("ok", ok));
        } else if (op == "enc") {
            std::string t = a.str();
            auto x = m.encode(t);
            auto y = m.encode(std::vector<std::string>{t, t});
            v::emit(v::J("enc").put("s", s).codes("t", t).raw("x", u16(x)).put("same", y.size() == 2 && y[0] == x && y[1] == x).codes("back", m.decode(x)));
        } else if (op == "save") {
            std::string l = a.word();
            bool ok = m.save("models", l, true);
            v::emit(v::J("save").put("s", s).put("l", l).put("ok", ok));
        } else if (op == "load") {
            std::string l = a.word();
            bool ok = m.load("models", l);
            v::emit(model("load", s, m).put("l", l).put("ok", ok));
        }
    }
}
static void lru(v::Args &a) {
    LruCache<int, int> c((size_t) a.num());
    while (a.more()) {
        std::string op = a.word();
        int k = a.num();
        if (op == "i") { c.insert(k, k * 10); v::emit(v::J("insert").put("k", k)); }
        else v::emit(v::J("contains").put("k", k).put("r", c.contains(k)));
    }
}
static void trie(v::Args &a) {
    Trie t;
    while (a.more()) {
        std::string op = a.word(), k = a.str();
        if (op == "i") { std::string val = a.str(); t.insert(k, val); v::emit(v::J("insert").codes("k", k).codes("v", val)); }
        else v::emit(v::J("ask").codes("k", k).put("search", t.search(k)).put("match", t.match(k)).put("starts", t.startsWith(k))
                             .codes("lookup", t.lookup(k)).codes("complete", t.complete(k)));
    }
}
static std::string vecs(const std::vector<std::vector<float>> &xs) {
    std::vector<std::string> r;
    for (auto &x: xs) { std::vector<long> y; for (float f: x) y.push_back(v::scaled(f, 1000)); r.push_back(v::ints(y)); }
    return v::arr(r);
}
static void onehot(v::Args &a) {
    while (a.more()) {
        std::string op = a.word();
        if (op == "words") {
            int n = a.num(), m = a.num();
            std::unordered_map<std::string, int> idx;
            std::vector<std::string> labels, asked;
            for (int i = 0; i < n; i++) { labels.push_back(a.str()); idx[labels.back()] = i; }
            for (int i = 0; i < m; i++) asked.push_back(a.str());
            auto x = one_hot_encode_words(asked, idx);
            BestTextCategoryDecoder d(labels);
            std::vector<std::string> back;
            std::vector<std::string> tops;
            for (size_t i = 0; i < x.size(); i++) {
                auto t = std::make_shared<FullTensor>(std::vector<std::vector<std::vector<float>>>{{x[i]}});
                back.push_back(d.decodeBest(t));
                tops.push_back(v::strs(d.decodeTop(t, 1)));
            }
            v::emit(v::J("words").raw("labels", v::strs(labels)).raw("asked", v::strs(asked)).raw("x", vecs(x)).raw("back", v::strs(back)).raw("tops", v::arr(tops)));
        } else if (op == "chars") {
            std::string s = a.str();
            auto x = one_hot_encode_characters({s});
            std::vector<long> at, sum, len;
            for (auto &y: x) { long p = -1; double t = 0; for (size_t i = 0; i < y.size(); i++) { t += y[i]; if (y[i] == 1.0f) p = (long) i; } at.push_back(p); sum.push_back(lround(t * 1000)); len.push_back((long) y.size()); }
            v::emit(v::J("chars").codes("t", s).raw("at", v::ints(at)).raw("sum", v::ints(sum)).raw("len", v::ints(len)));
        } else if (op == "bpe") {
            int largest = a.num();
            auto toks = back16(a.word().substr(1));
            auto x = one_hot_encode_bpe_tokens({toks}, (size_t) largest);
            v::emit(v::J("bpe").put("largest", largest).raw("t", u16(toks)).raw("x", vecs(x)));
        } else if (op == "top") {
            int n = a.num(), m = a.num();
            std::vector<float> y;
            std::vector<std::string> labels;
            std::vector<long> ys;
            for (int i = 0; i < n; i++) { int q = a.num(); ys.push_back(q); y.push_back((float) q / 8.0f); labels.push_back(std::string(1, (char) ('a' + i))); }
            auto t = std::make_shared<FullTensor>(std::vector<std::vector<std::vector<float>>>{{y}});
            BestTextCategoryDecoder d(labels);
            v::emit(v::J("top").raw("y", v::ints(ys)).put("m", m).codes("best", d.decodeBest(t)).raw("top", v::strs(d.decodeTop(t, (size_t) m))));
        } else if (op == "pad") {
            int n = a.num(), target = a.num(), w = a.num();
            std::vector<std::vector<float>> t;
            for (int i = 0; i < n; i++) t.push_back(std::vector<float>(w, (float) (i + 1)));
            pad_or_truncate_tokens(t, (size_t) target, (size_t) w);
            v::emit(v::J("pad").put("n", n).put("target", target).put("w", w).raw("x", vecs(t)));
        }
    }
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        std::string k = a.word();
        if (k == "bpe") bpe(a); else if (k == "lru") lru(a); else if (k == "trie") trie(a); else onehot(a);
    });
}
