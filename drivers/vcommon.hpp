// Shared by every driver: reads one case per line (whitespace separated tokens, strings as x<hex>),
// runs it in a directory of its own and writes the recorded events, one JSON object per line.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <filesystem>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>

namespace v {
    inline FILE *OUT = nullptr;

    struct Args {
        std::vector<std::string> t;
        size_t p = 0;
        bool more() const { return p < t.size(); }
        std::string word() { if (p >= t.size()) { fprintf(stderr, "driver: missing token\n"); _exit(77); } return t[p++]; }
        long num() { return atol(word().c_str()); }
        double real() { return strtod(word().c_str(), nullptr); }
        std::string str() {
            std::string w = word(), r;
            for (size_t i = 1; i + 1 < w.size(); i += 2) r.push_back((char) strtol(w.substr(i, 2).c_str(), nullptr, 16));
            return r;
        }
    };

    struct J {
        std::string s;
        bool first = true;
        J() { s = "{"; }
        explicit J(const std::string &e) { s = "{"; put("e", e); }
        void key(const std::string &k) { if (!first) s += ","; first = false; s += "\"" + k + "\":"; }
        static std::string q(const std::string &x) {
            std::string r = "\"";
            for (unsigned char ch: x) {
                if (ch == '"' || ch == '\\') { r += '\\'; r += (char) ch; }
                else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
                else r += (char) ch;
            }
            return r + "\"";
        }
        J &put(const std::string &k, const std::string &x) { key(k); s += q(x); return *this; }
        J &put(const std::string &k, const char *x) { return put(k, std::string(x)); }
        J &put(const std::string &k, long x) { key(k); s += std::to_string(x); return *this; }
        J &put(const std::string &k, int x) { return put(k, (long) x); }
        J &put(const std::string &k, size_t x) { return put(k, (long) x); }
        J &put(const std::string &k, bool x) { key(k); s += x ? "true" : "false"; return *this; }
        J &raw(const std::string &k, const std::string &x) { key(k); s += x; return *this; }
        J &codes(const std::string &k, const std::string &x);
        std::string str() const { return s + "}"; }
    };

    inline std::string codes(const std::string &x) {
        std::string r = "[";
        for (size_t i = 0; i < x.size(); i++) { if (i) r += ","; r += std::to_string((int) (unsigned char) x[i]); }
        return r + "]";
    }
    inline J &J::codes(const std::string &k, const std::string &x) { return raw(k, v::codes(x)); }

    template<typename T> std::string ints(const std::vector<T> &x) {
        std::string r = "[";
        for (size_t i = 0; i < x.size(); i++) { if (i) r += ","; r += std::to_string((long) x[i]); }
        return r + "]";
    }
    inline std::string arr(const std::vector<std::string> &x) {
        std::string r = "[";
        for (size_t i = 0; i < x.size(); i++) { if (i) r += ","; r += x[i]; }
        return r + "]";
    }
    inline std::string strs(const std::vector<std::string> &x) {
        std::vector<std::string> y;
        for (auto &s: x) y.push_back(codes(s));
        return arr(y);
    }
    // a float as an integer number of 1/scale units, clamped so that TLC's 32-bit integers hold it.
    // NaN and values beyond the range become two distinguished out-of-range values.
    inline long scaled(double d, double scale) {
        if (std::isnan(d)) return 2000000001L;
        double x = d * scale;
        if (x > 2000000000.0) return 2000000000L;
        if (x < -2000000000.0) return -2000000000L;
        return std::lround(x);
    }
    inline void emit(const J &j) { std::string s = j.str() + "\n"; fputs(s.c_str(), OUT); fflush(OUT); }
    inline void emit(const std::string &e) { emit(J(e)); }

    inline std::string slurp(const std::string &p) {
        std::ifstream f(p, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }
    inline void spill(const std::string &p, const std::string &data) {
        std::ofstream f(p, std::ios::binary | std::ios::trunc);
        f << data;
    }
    // every regular file and directory below root, relative, sorted
    inline std::vector<std::string> tree(const std::string &root) {
        std::vector<std::string> r;
        if (!std::filesystem::exists(root)) return r;
        for (auto &e: std::filesystem::recursive_directory_iterator(root))
            r.push_back(std::filesystem::relative(e.path(), root).string() + (e.is_directory() ? "/" : ""));
        std::sort(r.begin(), r.end());
        return r;
    }
    // what std::cout / std::cerr received while f ran
    struct Capture {
        std::streambuf *o, *e;
        std::ostringstream so, se;
        Capture() { o = std::cout.rdbuf(so.rdbuf()); e = std::cerr.rdbuf(se.rdbuf()); }
        ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
    };

    inline int run(int argc, char **argv, const std::function<void(Args &)> &fn) {
        if (argc < 5) { fprintf(stderr, "usage: driver CASES OUT DIR START\n"); return 64; }
        OUT = fopen(argv[2], "a");
        std::string dir = argv[3];
        long start = atol(argv[4]);
        std::ifstream in(argv[1]);
        std::string line;
        long n = -1;
        while (std::getline(in, line)) {
            n++;
            if (n < start) continue;
            Args a;
            std::istringstream ss(line);
            std::string w;
            while (ss >> w) a.t.push_back(w);
            std::string cd = dir + "/c" + std::to_string(n);
            std::filesystem::create_directories(cd + "/bin");
            if (chdir((cd + "/bin").c_str()) != 0) return 65;
            fprintf(OUT, "B %ld\n", n);
            fflush(OUT);
            fn(a);
            fprintf(OUT, "E %ld\n", n);
            fflush(OUT);
            if (chdir(dir.c_str()) != 0) return 65;
            std::error_code ec;
            std::filesystem::remove_all(cd, ec);
        }
        fclose(OUT);
        return 0;
    }
}
