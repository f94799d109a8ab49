#include "all.hpp"
using namespace happyml;
static std::string recsJson(const std::vector<std::vector<std::string>> &rs) {
    std::vector<std::string> r;
    for (auto &x: rs) r.push_back(v::strs(x));
    return v::arr(r);
}
static std::vector<std::vector<std::string>> readAll(const std::string &p, char d, bool skip, bool &err) {
    std::vector<std::vector<std::string>> rs;
    err = false;
    DelimitedTextFileReader rd(p, d, skip);
    try {
        while (rd.hasNext() && rs.size() < 5000) rs.push_back(rd.nextRecord());
    } catch (std::runtime_error &e) { err = true; }
    return rs;
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        std::string k = a.word();
        if (k == "rt") {
            char d = (char) a.num();
            std::vector<std::vector<std::string>> rs((size_t) a.num());
            for (auto &r: rs) { r.resize((size_t) a.num()); for (auto &x: r) x = a.str(); }
            { DelimitedTextFileWriter w("f.txt", d); for (auto &r: rs) w.writeRecord(r); w.close(); }
            v::emit(v::J("wrote").raw("recs", recsJson(rs)).put("d", (int) d));
            bool err;
            auto back = readAll("f.txt", d, false, err);
            v::emit(v::J("read").raw("recs", recsJson(back)).put("err", err));
        } else if (k == "hand") {
            char d = (char) a.num();
            bool skip = a.num() != 0;
            std::string text = a.str();
            v::spill("f.txt", text);
            bool err;
            auto back = readAll("f.txt", d, skip, err);
            v::emit(v::J("hand").codes("text", text).put("d", (int) d).put("skip", skip).raw("recs", recsJson(back)).put("err", err));
        } else if (k == "dir") {
            bool skip = a.num() != 0;
            long n = a.num();
            std::filesystem::create_directories("d/sub");
            std::vector<std::string> files, lines;
            for (long i = 0; i < n; i++) { files.push_back(a.str()); v::spill("d/f" + std::to_string(i) + ".csv", files.back()); }
            TextLinePathReader r("d", skip);
            while (r.hasNext() && lines.size() < 5000) lines.push_back(r.nextLine());
            v::emit(v::J("dir").raw("files", v::strs(files)).put("skip", skip).raw("lines", v::strs(lines)));
        }
        v::emit("done");
    });
}
