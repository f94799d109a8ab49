#include "all.hpp"
// 8 and 16 bit floats
static float fromBits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static uint32_t toBits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static std::string fl(const std::vector<float> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) {
        uint32_t u = toBits(v[i]);
        o += (i ? ",{\"s\":" : "{\"s\":") + std::to_string(u >> 31) + ",\"m\":" + std::to_string(u & 0x7fffffff) + "}";
    }
    return o + "]";
}
template<typename T> static std::string nums(const std::vector<T> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + std::to_string((long) v[i]);
    return o + "]";
}
static void one(v::Args &a) {
    while (a.more()) {
        std::string op = a.word();
        if (op == "q") {                       // every 8-bit number at a bias
            int b = a.num();
            std::vector<int> q, back;
            std::vector<float> f;
            for (int c = 0; c < 256; c++) {
                float x = happyml::quarterToFloat((happyml::quarter) c, b);
                q.push_back(c); f.push_back(x); back.push_back(happyml::floatToQuarter(x, b));
            }
            v::emit(v::J().put("e", "codes").put("b", b).raw("f", fl(f)).raw("back", nums(back)));
        } else if (op == "c") {                // floats to 8 bits
            int b = a.num(), n = a.num();
            std::vector<float> x;
            std::vector<int> q;
            for (int i = 0; i < n; i++) { x.push_back(fromBits((uint32_t) strtoul(a.word().c_str(), nullptr, 16))); q.push_back(happyml::floatToQuarter(x.back(), b)); }
            v::emit(v::J().put("e", "conv").put("b", b).raw("x", fl(x)).raw("q", nums(q)));
        } else if (op == "o") {                // arithmetic of 8-bit numbers
            int ab = a.num(), bb = a.num(), rb = a.num(), n = a.num();
            std::vector<float> x; std::vector<int> q;
            for (int i = 0; i < n; i++) {
                std::string k = a.word();
                auto p = (happyml::quarter) a.num(), r = (happyml::quarter) a.num();
                float f = happyml::quarterToFloat(p, ab), g = happyml::quarterToFloat(r, bb);
                x.push_back(k == "+" ? f + g : k == "-" ? f - g : k == "*" ? f * g : f / g);
                q.push_back(k == "+" ? happyml::quarterAdd(p, ab, r, bb, rb) : k == "-" ? happyml::quarterSubtract(p, ab, r, bb, rb)
                            : k == "*" ? happyml::quarterMultiply(p, ab, r, bb, rb) : happyml::quarterDivide(p, ab, r, bb, rb));
            }
            v::emit(v::J().put("e", "conv").put("b", rb).raw("x", fl(x)).raw("q", nums(q)));
        } else if (op == "h") {                // a range of 16-bit numbers
            int lo = a.num(), n = a.num();
            std::vector<float> f; std::vector<int> back;
            for (int c = lo; c < lo + n; c++) { float x = happyml::halfToFloat((happyml::half) c); f.push_back(x); back.push_back(happyml::floatToHalf(x)); }
            v::emit(v::J().put("e", "halves").put("lo", lo).raw("f", fl(f)).raw("back", nums(back)));
        } else {                               // floats to 16 bits
            int n = a.num();
            std::vector<float> x; std::vector<int> q;
            for (int i = 0; i < n; i++) { x.push_back(fromBits((uint32_t) strtoul(a.word().c_str(), nullptr, 16))); q.push_back(happyml::floatToHalf(x.back())); }
            v::emit(v::J().put("e", "hconv").raw("x", fl(x)).raw("q", nums(q)));
        }
    }
}
int main(int argc, char **argv) { return v::run(argc, argv, one); }
