#include "src/util/text_file_sorter.hpp"
#include "vcommon.hpp"
using namespace happyml;
static std::string dirJson(const std::string &d) {
    std::vector<std::string> r;
    for (auto &n: v::tree(d)) r.push_back("[" + v::codes(n) + "," + v::codes(v::slurp(d + "/" + n)) + "]");
    return v::arr(r);
}
// content header chunk dup outname nsib {name content}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        std::string content = a.str();
        bool hdr = a.num() != 0;
        long chunk = a.num();
        bool dup = a.num() != 0;
        std::string outname = a.str();
        std::string d = "s";
        std::filesystem::create_directories(d);
        long n = a.num();
        for (long i = 0; i < n; i++) { std::string nm = a.str(); v::spill(d + "/" + nm, a.str()); }
        v::spill(d + "/in.txt", content);
        v::emit(v::J("before").raw("files", dirJson(d)));
        bool ok = FileSorter::sort(d + "/in.txt", d + "/" + outname, hdr, (int) chunk, dup);
        v::emit(v::J("sort").put("ok", ok).codes("name", "in.txt").codes("outname", outname).codes("src", content)
                        .put("hdr", hdr).put("dup", dup).put("chunk", chunk).codes("out", v::slurp(d + "/" + outname)));
        v::emit(v::J("after").raw("files", dirJson(d)));
        v::Capture cap;
        bool miss = FileSorter::sort(d + "/nothere.txt", d + "/nothere.out", hdr, (int) chunk, dup);
        v::emit(v::J("missing").put("ok", miss));
        v::emit("done");
    });
}
