// ops: lex xTEXT xSOURCE | parse xTEXT | session (run xTEXT | file xTEXT | nofile xNAME | cli xTEXT)* | block xTREE
#include <bits/stdc++.h>
#include <unistd.h>
#include <fcntl.h>
#define private public      // parsed statements keep what they were given to themselves
#include "src/lang/happyml_script_init.hpp"
#include "src/util/task_utils.hpp"
#include "src/lang/interpreter.hpp"
#undef private
#include "vcommon.hpp"
using namespace happyml;
// a member that a later version of the code may have named differently is reported as not seen
#define FIELD(n) \
    template<class T> static auto get_##n(const T &t, bool &, int) -> decltype(t.n) { return t.n; } \
    struct none_##n { operator std::string() const { return ""; } operator long() const { return 0; } operator bool() const { return false; } }; \
    template<class T> static none_##n get_##n(const T &, bool &seen, long) { seen = false; return {}; }
FIELD(help_menu_item_) FIELD(dataset_name_) FIELD(limit_) FIELD(raw_) FIELD(task_type_) FIELD(task_name_) FIELD(goal_)
FIELD(test_dataset_name_) FIELD(task_label_) FIELD(input_map_) FIELD(name_) FIELD(location_) FIELD(has_header_) FIELD(column_groups_)
FIELD(children)
#define GET(t, n) get_##n(t, seen, 0)
static std::string S(const std::string &x) { return x; }
template<class G> static auto groups(const G &g, bool &seen, int) -> decltype(g.begin(), std::string()) {
    std::vector<std::string> r;
    for (auto &c: g) {
        v::J j;
        j.raw("s", v::strs({c->use_, c->data_type_, c->label_}));
        seen = seen && c->source_column_count_ == c->rows_ * c->columns_ * c->channels_;
        j.raw("n", v::ints(std::vector<long>{(long) c->start_index_, (long) c->rows_, (long) c->columns_, (long) c->channels_}));
        r.push_back(j.str());
    }
    return v::arr(r);
}
template<class G> static std::string groups(const G &, bool &, long) { return "[]"; }
template<class G> static auto inputs(const G &g, bool &, int) -> decltype(g.begin(), std::string()) {
    std::vector<std::string> r;
    for (auto &kv: g) {
        std::vector<std::string> vals;
        for (const HappyMLVariant &x: kv.second) {
            v::J j;
            bool num = x.type_ == HappyMLVariant::Type::FLOAT || x.type_ == HappyMLVariant::Type::INT;
            j.put("kind", num ? "n" : x.type_ == HappyMLVariant::Type::STRING ? "s" : "?").codes("text", num ? "" : x.to_string()).put("num", num ? v::scaled(x.as_float(), 1000) : 0L);
            vals.push_back(j.str());
        }
        v::J j;
        j.codes("key", kv.first).raw("vals", v::arr(vals));
        r.push_back(j.str());
    }
    return v::arr(r);
}
template<class G> static std::string inputs(const G &, bool &, long) { return "[]"; }
static std::string stmt(const std::shared_ptr<ExecutableStatement> &s) {
    bool seen = true;
    std::string kind = "?";
    std::vector<std::string> a;
    std::string cols = "[]", ins = "[]";
    if (auto h = std::dynamic_pointer_cast<HelpStatement>(s)) {
        kind = "help";
        a = {S(GET(*h, help_menu_item_))};
    } else if (auto p = std::dynamic_pointer_cast<PrintStatement>(s)) {
        kind = "print";
        a = {(bool) GET(*p, raw_) ? "raw" : "pretty", S(GET(*p, dataset_name_))};
        cols = "[{\"s\":[],\"n\":[" + std::to_string((long) GET(*p, limit_)) + "]}]";
    } else if (auto t = std::dynamic_pointer_cast<CreateTaskStatement>(s)) {
        kind = "create task";
        a = {S(GET(*t, task_type_)), S(GET(*t, task_name_)), S(GET(*t, goal_)), S(GET(*t, dataset_name_)), S(GET(*t, test_dataset_name_))};
    } else if (auto x = std::dynamic_pointer_cast<ExecuteTaskStatement>(s)) {
        kind = "execute";
        a = {S(GET(*x, task_name_)), S(GET(*x, task_label_)), S(GET(*x, dataset_name_))};
        ins = inputs(GET(*x, input_map_), seen, 0);
    } else if (auto d = std::dynamic_pointer_cast<CreateDatasetStatement>(s)) {
        kind = "create dataset";
        bool cs = true;
        a = {S(GET(*d, name_)), S(GET(*d, location_)), (bool) GET(*d, has_header_) ? "header" : "none"};
        cols = groups(GET(*d, column_groups_), cs, 0);
        if (!cs) kind = "create dataset with inconsistent column counts";
    } else if (std::dynamic_pointer_cast<ExitStatement>(s)) kind = "exit";
    v::J j;
    j.put("k", kind).put("seen", seen).raw("a", v::strs(a)).raw("cols", cols).raw("ins", ins);
    return j.str();
}
template<class C> static auto stmtList(const C &c, bool &, int) -> decltype(c.begin(), std::string()) {
    std::vector<std::string> r;
    for (auto &s: c) r.push_back(stmt(s));
    return v::arr(r);
}
template<class C> static std::string stmtList(const C &, bool &seen, long) { seen = false; return "[]"; }

// statements with a given outcome, to see what a code block does with them
struct Stub : ExecutableStatement {
    long id; char outcome; std::vector<long> *log;
    Stub(long i, char o, std::vector<long> *l) : id(i), outcome(o), log(l) {}
    std::shared_ptr<ExecutionResult> execute(const std::shared_ptr<ExecutionContext> &) override {
        log->push_back(id);
        if (outcome == 't') throw std::runtime_error("stub " + std::to_string(id));
        return std::make_shared<ExecutionResult>(outcome == 'x', outcome != 'f', "stub " + std::to_string(id));
    }
};
// tree: '(' node* ')' with node = outcome letter or nested tree; ids count from 1 in source order
static std::shared_ptr<ExecutableStatement> tree(const std::string &t, size_t &p, long &id, std::vector<long> *log) {
    if (t[p] == '(') {
        auto b = std::make_shared<CodeBlock>();
        p++;
        while (t[p] != ')') b->addChild(tree(t, p, id, log));
        p++;
        return b;
    }
    return std::make_shared<Stub>(++id, t[p++], log);
}
// what a session said, line by line, as the marks the specification speaks of
static std::string marks(const std::string &out, bool &said) {
    std::vector<std::string> r;
    std::istringstream in(out);
    std::string line;
    said = false;
    auto has = [&](const char *x) { return line.find(x) != std::string::npos; };
    while (std::getline(in, line)) {
        while (line.rfind("> ", 0) == 0) line = line.substr(2);
        if (line.empty() || line.rfind("happyml v", 0) == 0 || line.rfind("For a list of commands", 0) == 0 || line == "READY") continue;
        said = true;
        std::string m;
        if (has("Exiting...")) m = "exit";
        else if (has("Available commands:")) m = "help";
        else if (has("Available dataset commands:")) m = "help dataset";
        else if (has("Available task commands:")) m = "help task";
        else if (has("Future general commands:")) m = "help future";
        else if (has("already exists")) m = "exists";
        else if (has("does not exist")) m = "no dataset";
        else if (has("could not find the file")) m = "no file";
        else if (has("Could not open file")) m = "no print";
        else for (char k = '0'; k < '4'; k++) if (has((std::string("column_of_d") + k).c_str())) m = std::string("print d") + k;
        if (!m.empty()) r.push_back(v::J::q(m));
    }
    return v::arr(r);
}
int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        std::string op = a.word();
        if (op == "lex") {
            while (a.more()) {
                std::string text = a.str(), src = a.str();
                auto r = initializeHappymlLexer()->lex(text, src);
                std::vector<std::string> toks;
                auto st = r->getMatchStream();
                if (st) while (st->hasNext()) {
                    auto t = st->next();
                    v::J j;
                    j.put("label", t->getLabel()).codes("text", t->getValue()).put("off", t->getOffset()).codes("src", t->getSource());
                    toks.push_back(j.str());
                }
                v::J j("lex");
                j.codes("text", text).codes("src", src).put("ok", (bool) st).put("said", !r->getMessage().empty()).raw("toks", v::arr(toks));
                v::emit(j);
            }
        } else if (op == "parse") {
            while (a.more()) {
                std::string text = a.str();
                bool threw = false, ok = false, said = false, listed = true;
                std::string stmts = "[]";
                try {
                    auto r = initializeHappymlParser()->parse(text, "script");
                    ok = r->isSuccessful();
                    said = !r->getMessage().empty();
                    if (ok) {
                        auto b = std::dynamic_pointer_cast<CodeBlock>(r->getExecutable());
                        if (!b) listed = false;
                        else stmts = stmtList(get_children(*b, listed, 0), listed, 0);
                    }
                } catch (...) { threw = true; }
                v::J j("parse");
                j.codes("text", text).put("threw", threw).put("ok", ok).put("said", said).put("listed", listed).raw("stmts", stmts);
                v::emit(j);
            }
        } else if (op == "block") {
            while (a.more()) {
                std::string t = a.str();
                std::vector<long> log;
                size_t p = 0;
                long id = 0;
                auto b = tree(t, p, id, &log);
                std::string res = "threw", msg;
                try {
                    auto r = b->execute(std::make_shared<ExecutionContext>());
                    res = !r->isSuccessful() ? "fail" : r->exitRequested() ? "exit" : "ok";
                    msg = r->getMessage();
                } catch (const std::exception &e) { msg = e.what(); }
                v::J j("block");
                j.raw("log", v::ints(log)).put("res", res).put("msg", msg);
                v::emit(j);
            }
        } else if (op == "session") {
            for (int k = 0; k < 3; k++) {
                std::string n = "d" + std::to_string(k);
                v::spill(n + ".csv", "1\n2\n");
                auto g = std::make_shared<ColumnGroup>();
                g->id_ = 1; g->start_index_ = 0; g->source_column_count_ = 1; g->use_ = "given"; g->data_type_ = "number"; g->label_ = "column_of_" + n;
                g->rows_ = g->columns_ = g->channels_ = 1;
                v::Capture cap;
                CreateDatasetStatement(n, "file://" + n + ".csv", false, {g}).execute(std::make_shared<ExecutionContext>());
            }
            auto session = std::make_shared<InterpreterSession>(initializeHappymlParser());
            while (a.more()) {
                std::string how = a.word(), text = a.str();
                bool done = false, threw = false, said = false;
                std::ostringstream both;
                auto *o = std::cout.rdbuf(both.rdbuf()), *e = std::cerr.rdbuf(both.rdbuf());
                auto *i = std::cin.rdbuf();
                std::istringstream in(text);
                try {
                    if (how == "run") done = session->interpretCommands(text, "test");
                    else if (how == "file") { v::spill("script.happyml", text); done = session->interpretFile("script.happyml"); }
                    else if (how == "nofile") done = session->interpretFile(text);
                    else { std::cin.clear(); std::cin.rdbuf(in.rdbuf()); session->interactiveInterpret();  }
                } catch (...) { threw = true; }
                std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cin.rdbuf(i);
                std::cin.clear();
                v::J j("session");
                j.put("how", how).put("done", done).put("threw", threw).raw("marks", marks(both.str(), said));
                j.put("said", said);
                v::emit(j);
            }
        }
    });
}
