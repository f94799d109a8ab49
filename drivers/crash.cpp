// A process that ends before its n-th effect on files, and what a fresh process finds afterwards.
// crash data  k (PATH hex)*k  NAME LOC hdr k (use type label start rows cols ch)*k
// crash task goal rows labels point
// crash model WHAT(save|saveas|keep|bpe) before(0|1) overwrite(0|1) OPT LR BLR LOSS NV (vertex)* NH (r c k)*
#include "netbuild.hpp"
#include "dsobs.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
namespace crash {
    static long at = 0, count = 0;      // at 0: nothing is counted
    static bool half = false;
    static const int DIED = 99, SAME = 98;
    static bool quiet = false;          // what belongs to a checkpoint of a training or a log is not counted
    static bool aside(const char *p) { return strstr(p, "checkpoint") || strstr(p, "/logs"); }
    static bool now(const char *path = nullptr) {
        if (path) quiet = aside(path);
        return at && !quiet && ++count == at;
    }
    static void end() { _exit(half ? SAME : DIED); }
}
#define REAL(name) static auto real = (decltype(&::name)) dlsym(RTLD_NEXT, #name)
#define EFFECT(ret, name, params, args, path) \
    extern "C" ret name params { REAL(name); if (crash::now(path)) crash::end(); return real args; }
#define NOEX noexcept
extern "C" ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (crash::now()) {
        if (!crash::half) _exit(crash::DIED);
        if (n < 2) _exit(crash::SAME);
        real(fd, b, n / 2);
        _exit(crash::DIED);
    }
    return real(fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int k) {
    static auto one = (ssize_t(*)(int, const void *, size_t)) dlsym(RTLD_NEXT, "write");
    REAL(writev);
    if (crash::now()) {
        if (!crash::half) _exit(crash::DIED);
        if (k > 0) one(fd, v[0].iov_base, v[0].iov_len);
        if (k > 1) one(fd, v[1].iov_base, v[1].iov_len / 2);
        _exit(crash::DIED);
    }
    return real(fd, v, k);
}
extern "C" FILE *fopen64(const char *p, const char *m) {
    REAL(fopen64);
    if (m[0] != 'r' && crash::now(p)) crash::end();
    return real(p, m);
}
extern "C" FILE *fopen(const char *p, const char *m) {
    REAL(fopen);
    if (m[0] != 'r' && crash::now(p)) crash::end();
    return real(p, m);
}
EFFECT(int, rename, (const char *a, const char *b) NOEX, (a, b), a)
EFFECT(int, unlink, (const char *a) NOEX, (a), a)
EFFECT(int, unlinkat, (int d, const char *a, int f) NOEX, (d, a, f), nullptr)
EFFECT(int, rmdir, (const char *a) NOEX, (a), a)
EFFECT(int, remove, (const char *a) NOEX, (a), a)
EFFECT(int, mkdir, (const char *a, mode_t m) NOEX, (a, m), a)
EFFECT(int, truncate, (const char *a, off_t n) NOEX, (a, n), a)
EFFECT(int, ftruncate, (int fd, off_t n) NOEX, (fd, n), nullptr)
EFFECT(int, link, (const char *a, const char *b) NOEX, (a, b), a)
EFFECT(int, symlink, (const char *a, const char *b) NOEX, (a, b), a)

static std::string W = "";
static long patience = 60;
static bool late = false;      // only a training may take long
// runs f in a process of its own; its exit status, or 70; what it says
static int apart(const std::function<void()> &f, std::string *said = nullptr) {
    int fd[2];
    if (pipe(fd)) _exit(71);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        alarm((unsigned) patience);
        W.clear();
        f();
        crash::at = 0;
        for (size_t o = 0; o < W.size();) { ssize_t k = ::write(fd[1], W.data() + o, W.size() - o); if (k <= 0) break; o += (size_t) k; }
        _exit(0);
    }
    close(fd[1]);
    char b[65536];
    ssize_t k;
    std::string all;
    while ((k = read(fd[0], b, sizeof b)) > 0) all.append(b, (size_t) k);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (said) *said = all;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) late = true;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 70;
}
// every point: op(prepare, then armed), look (a fresh process), again (a fresh process does it again, then a fresh one looks)
static void points(const std::function<void()> &prepare, const std::function<void()> &op, const std::function<std::string()> &look, long from = 1, long to = 3000) {
    std::string home = std::filesystem::current_path().string();
    auto observe = [&](const char *e, long n, bool half, int rc) {
        std::string s;
        int o = apart([&] { v::Capture cap; W = look(); }, &s);
        v::J j(e);
        j.put("n", n).put("half", half).put("died", rc == crash::DIED).put("broke", rc != crash::DIED && rc != 0).put("looked", o == 0);
        j.raw("found", o == 0 ? s : "{}");
        v::emit(j);
    };
    for (long n = from; n <= to; n++) {
        bool over = false;
        for (bool half: {false, true}) {
            if (over) break;
            late = false;
            std::string dir = home + "/p/bin";
            std::filesystem::create_directories(dir);
            if (chdir(dir.c_str())) _exit(72);
            prepare();
            int rc = apart([&] {
                v::Capture cap;
                crash::half = half; crash::count = 0; crash::at = n;
                op();
                crash::at = 0;
            });
            if (late && patience < 60) over = true;
            else if (rc != crash::SAME) {
                observe("crash", n, half, rc);
                int again = apart([&] { v::Capture cap; op(); });
                if (late && patience < 60) { over = true; continue; }
                observe("again", n, half, again);
            }
            if (rc == 0) over = true;
            if (chdir(home.c_str())) _exit(72);
            std::filesystem::remove_all(home + "/p");
        }
        if (over) return;
    }
}
static void data(v::Args &a) {
    std::vector<std::pair<std::string, std::string>> files;
    for (long k = a.num(); k > 0; k--) { std::string p = a.word(); files.push_back({p, a.str()}); }
    std::string n = a.word(), loc = a.word();
    bool hdr = a.num();
    std::vector<std::shared_ptr<ColumnGroup>> cg;
    long k = a.num();
    for (long i = 0; i < k; i++) {
        std::string use = a.word(), type = a.word(), label = a.str();
        long st = a.num(), r = a.num(), c = a.num(), ch = a.num();
        cg.push_back(std::make_shared<ColumnGroup>(i + 1, st, r * c * ch, use, type, label, r, c, ch));
    }
    points([&] {
        for (auto &f: files) {
            auto d = std::filesystem::path(f.first).parent_path();
            if (!d.empty()) std::filesystem::create_directories(d);
            v::spill(f.first, f.second);
        }
    }, [&] {
        auto ctx = std::make_shared<ExecutionContext>();
        if (!std::make_shared<CreateDatasetStatement>(n, loc, hdr, cg, false)->execute(ctx)->isSuccessful()) { crash::at = 0; _exit(1); }
    }, [&] {
        std::vector<std::string> changed, extra;
        for (auto &f: files) if (!std::filesystem::exists(f.first) || v::slurp(f.first) != f.second) changed.push_back(f.first);
        for (auto &p: v::tree("..")) {
            if (p.back() == '/' || p.find("happyml_repo/") != std::string::npos) continue;
            bool mine = false;
            for (auto &f: files) if (std::filesystem::weakly_canonical(f.first) == std::filesystem::weakly_canonical("../" + p)) mine = true;
            if (!mine) extra.push_back(p);
        }
        bool stored = ExecutionContext::dataset_exists(n), readable = false;
        std::string st = "{}";
        if (stored) try { st = storedOf(n); readable = true; } catch (std::exception &) {}
        return v::J().raw("changed", v::strs(changed)).raw("extra", v::strs(extra)).put("stored", stored).put("readable", readable).raw("st", st).str();
    });
}
static long digest(const std::string &s, long h = 5381) {
    for (unsigned char c: s) h = (h * 33 + c) & 0x3fffffff;
    return h;
}
static void model(v::Args &a) {
    std::string what = a.word();
    bool before = a.num(), ow = a.num();
    Prog p;
    p.opt = a.word(); p.lr = (float) a.real(); p.blr = (float) a.real(); p.loss = a.word();
    for (long n = a.num(); n > 0; n--) p.vs.push_back(readVertex(a));
    std::vector<std::vector<size_t>> hs;
    for (long n = a.num(); n > 0; n--) { size_t r = Z(a.num()), c = Z(a.num()), k = Z(a.num()); hs.push_back({r, c, k}); }
    auto answer = [&](const std::shared_ptr<NeuralNetworkForTraining> &n) {
        long h = 5381;
        for (long k = 0; k < 2; k++) for (auto &t: n->predict(fills(hs, k + 3))) h = digest(v::tensorBits(t), h);
        return h;
    };
    // two versions: networks of the same shape with other weights
    std::vector<std::shared_ptr<NeuralNetworkForTraining>> nets;
    std::vector<std::shared_ptr<BytePairEncoderModel>> codes;
    std::vector<long> y;
    if (what == "bpe") {
        for (std::string t: {"aabaabaac", "xyzzyxyzzyxyz"}) {
            auto m = std::make_shared<BytePairEncoderModel>();
            m->train(std::vector<std::string>{t, t + "x"});
            codes.push_back(m);
        }
    } else
        for (int i = 0; i < 2; i++) { nets.push_back(build(p)); nets.back()->setSilentMode(true); }
    auto encoded = [](const std::shared_ptr<BytePairEncoderModel> &m) {
        long h = 5381;
        for (std::string t: {"aabaab", "xyzzy", "aac"}) for (auto c: m->encode(t)) h = (h * 33 + c) & 0x3fffffff;
        return h;
    };
    for (int i = 0; i < 2; i++) {       // apart: no thread may have run in this process
        std::string s;
        apart([&] { W = std::to_string(what == "bpe" ? encoded(codes[i]) : answer(nets[i])); }, &s);
        y.push_back(atol(s.c_str()));
    }
    auto save = [&](int i, bool over) {
        if (what == "save") { if (over) nets[i]->saveWithOverwrite(); else nets[i]->saveWithoutOverwrite(); }
        else if (what == "saveas") nets[i]->saveAs("repo/net/", over);
        else if (what == "keep") { if (over) nets[i]->saveKnowledgeWithOverwrite("k"); else nets[i]->saveKnowledgeWithoutOverwrite("k"); }
        else codes[i]->save("repo", "net", over);
    };
    v::emit(v::J("versions").put("what", what).put("before", before).put("ow", ow).raw("y", v::ints(y)));
    points([&] {
        if (what == "keep") nets[0]->saveWithOverwrite();
        if (before) save(0, true);
    }, [&] { save(1, ow); }, [&] {
        bool loaded = false;
        long z = 0;
        try {
            if (what == "bpe") {
                auto m = std::make_shared<BytePairEncoderModel>();
                if (m->load("repo", "net")) { loaded = true; z = encoded(m); }
            } else {
                auto n = loadNeuralNetworkForTraining("net", "repo");
                n->setSilentMode(true);
                if (what == "keep") n->loadKnowledge("k");
                z = answer(n);
                loaded = true;
            }
        } catch (const std::exception &) {}
        std::vector<std::string> side;
        std::string dir = what == "keep" ? "repo/net" : "repo";
        if (std::filesystem::exists(dir)) for (auto &e: std::filesystem::directory_iterator(dir)) side.push_back(v::J::q(e.path().filename().string()));
        std::sort(side.begin(), side.end());
        return v::J().put("loaded", loaded).put("y", z).raw("side", v::arr(side)).str();
    });
}
static void task(v::Args &a) {
    std::string goal = a.word();
    long rows = a.num(), labels = a.num(), point = a.num();
    auto make = [&] {
        v::Capture cap;
        std::string t;
        for (long i = 0; i < rows; i++) t += std::to_string(i) + "," + "l" + std::to_string(i % labels) + "\n";
        v::spill("d.csv", t);
        std::vector<std::shared_ptr<ColumnGroup>> cg;
        cg.push_back(std::make_shared<ColumnGroup>(1, 0, 1, "given", "number", "x", 1, 1, 1));
        cg.push_back(std::make_shared<ColumnGroup>(2, 1, 1, "expected", "label", "y", 1, 1, 1));
        std::make_shared<CreateDatasetStatement>("d", "file://d.csv", false, cg, false)->execute(std::make_shared<ExecutionContext>());
    };
    patience = 25;
    v::emit(v::J("task").put("rows", rows));
    points([&] { apart(make); }, [&] {
        if (!std::make_shared<CreateTaskStatement>("label", "t", goal, "d", "")->execute(std::make_shared<ExecutionContext>())->isSuccessful()) { crash::at = 0; _exit(1); }
    }, [&] {
        bool ok = false, threw = false, there = false;
        std::vector<std::string> lines;
        there = std::filesystem::exists(ExecutionContext::get_task_folder_path("t"));
        std::string out;
        {
            v::Capture cap;
            try { ok = std::make_shared<ExecuteTaskStatement>("t", "", "d", std::unordered_map<std::string, std::vector<HappyMLVariant>>{})->execute(std::make_shared<ExecutionContext>())->isSuccessful(); }
            catch (const std::exception &) { threw = true; }
            out = cap.so.str();
        }
        long n = 0;
        for (char ch: out) n += ch == '\n';
        return v::J().put("there", there).put("ok", ok).put("threw", threw).put("lines", n).put("said", digest(out)).str();
    }, point ? point : 1, point ? point : 3000);
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        a.word();
        std::string w = a.word();
        if (w == "data") data(a); else if (w == "task") task(a); else model(a);
    });
}
