#include "dsobs.hpp"
// ops: file PATH hex | create NAME LOC hdr k (use type label start rows cols ch)*k | show NAME | print NAME raw limit
//      reopen NAME UNDER | encode NAME COL k (kind word)*k        kind: s string, n number, i int
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        auto ctx = std::make_shared<ExecutionContext>();
        auto snap = [] {
            std::map<std::string, std::string> m;
            for (auto &p: v::tree(".")) if (p.back() != '/') m[p] = v::slurp(p);
            return m;
        };
        auto names = [] {
            std::vector<std::string> r;
            std::string base = "../happyml_repo/datasets";
            if (std::filesystem::exists(base))
                for (auto &e: std::filesystem::directory_iterator(base))
                    if (std::filesystem::exists(e.path() / "dataset.bin")) r.push_back(v::J::q(e.path().filename().string()));
            std::sort(r.begin(), r.end());
            return v::arr(r);
        };
        while (a.more()) {
            std::string op = a.word();
            if (op == "file") {
                std::string p = a.word();
                auto d = std::filesystem::path(p).parent_path();
                if (!d.empty()) std::filesystem::create_directories(d);
                v::spill(p, a.str());
            } else if (op == "create") {
                std::string n = a.word(), loc = a.word();
                bool hdr = a.num();
                long k = a.num();
                std::vector<std::shared_ptr<ColumnGroup>> cg;
                for (long i = 0; i < k; i++) {
                    std::string use = a.word(), type = a.word(), label = a.str();
                    long st = a.num(), r = a.num(), c = a.num(), ch = a.num();
                    cg.push_back(std::make_shared<ColumnGroup>(i + 1, st, r * c * ch, use, type, label, r, c, ch));
                }
                auto before = snap();
                bool ok = false, threw = false;
                {
                    v::Capture cap;
                    try {
                        auto s = std::make_shared<CreateDatasetStatement>(n, loc, hdr, cg, false);
                        ok = s->execute(ctx)->isSuccessful();
                    } catch (std::exception &e) { threw = true; }
                }
                auto after = snap();
                std::vector<std::string> changed, extra, inside;
                for (auto &p: before) if (!after.count(p.first) || after[p.first] != p.second) changed.push_back(p.first);
                for (auto &p: after) if (!before.count(p.first)) extra.push_back(p.first);
                inside = v::tree(ExecutionContext::get_dataset_path(n));
                v::J j("create");
                j.put("name", n).put("ok", ok).put("threw", threw).raw("changed", v::strs(changed)).raw("extra", v::strs(extra));
                j.raw("inside", v::strs(inside)).raw("names", names());
                bool ex = std::filesystem::exists(dsFile(n));
                j.put("stored", ex);
                v::emit(j);
                if (ex) v::emit(v::J("show").put("name", n).raw("st", storedOf(n)));
            } else if (op == "show") {
                std::string n = a.word();
                v::emit(v::J("show").put("name", n).raw("st", storedOf(n)));
            } else if (op == "reopen") {
                std::string n = a.word(), u = a.word();
                bool ok = true;
                std::string st = "{}";
                try {
                    BinaryDatasetReader other(dsFile(u));
                    BinaryDatasetReader r(dsFile(n), other.get_given_metadata(), other.get_expected_metadata());
                    st = stored(r, other.get_given_metadata(), other.get_expected_metadata());
                } catch (std::exception &e) { ok = false; }
                v::emit(v::J("reopen").put("name", n).put("under", u).put("ok", ok).raw("st", st));
            } else if (op == "print") {
                std::string n = a.word();
                bool raw = a.num();
                long limit = a.num();
                std::string out;
                bool threw = false;
                {
                    v::Capture cap;
                    try { std::make_shared<PrintStatement>(n, raw, (int) limit)->execute(ctx); } catch (std::exception &e) { threw = true; }
                    out = cap.so.str();
                }
                // lines of cells; blanks around a cell are layout
                std::vector<std::string> lines;
                std::stringstream ss(out);
                std::string line;
                while (std::getline(ss, line)) {
                    std::vector<std::string> cells;
                    std::stringstream ls(line + "|");
                    std::string c;
                    while (std::getline(ls, c, '|')) cells.push_back(c);
                    lines.push_back(v::strs(cells));
                }
                // the elements as the dataset stores them, for raw printing
                std::vector<std::string> rawg, rawx;
                BinaryDatasetReader r(dsFile(n));
                for (size_t i = 0; i < r.rowCount(); i++) {
                    auto row = r.readRow(i);
                    std::vector<std::string> g, x;
                    for (auto &t: row.first) g.push_back(v::tensorInts(t, 1000));
                    for (auto &t: row.second) x.push_back(v::tensorInts(t, 1000));
                    rawg.push_back(v::arr(g));
                    rawx.push_back(v::arr(x));
                }
                v::emit(v::J("print").put("name", n).put("raw", raw).put("limit", limit).put("threw", threw).raw("lines", v::arr(lines))
                                .raw("rawg", v::arr(rawg)).raw("rawx", v::arr(rawx)));
            } else if (op == "encode") {
                std::string n = a.word();
                long col = a.num(), k = a.num();
                std::vector<HappyMLVariant> vals;
                std::vector<std::string> words;
                for (long i = 0; i < k; i++) {
                    std::string kind = a.word(), w = a.str();
                    words.push_back(w);
                    if (kind == "s") vals.push_back(HappyMLVariant(w));
                    else if (kind == "n") vals.push_back(HappyMLVariant(std::stof(w)));
                    else vals.push_back(HappyMLVariant(std::stoi(w)));
                }
                BinaryDatasetReader r(dsFile(n));
                auto m = r.get_given_metadata((size_t) col);
                std::string shape = "[]", vals4 = "[]", c = "[]";
                bool ok = true;
                try {
                    auto t = HappyMLVariantEncoder(m).encode(vals);
                    shape = v::shape(t);
                    vals4 = v::tensorInts(t, 10000);
                    c = cell(t, m);
                } catch (std::exception &e) { ok = false; }
                std::vector<std::string> all;
                for (size_t i = 0; i < r.rowCount(); i++) all.push_back(v::tensorInts(r.readRow(i).first[col], 10000));
                v::emit(v::J("encode").put("name", n).put("col", col + 1).raw("words", v::strs(words)).put("ok", ok)
                                .raw("shape", shape).raw("vals", vals4).raw("cell", c).raw("stored", v::arr(all)));
            }
        }
        v::emit("done");
    });
}
