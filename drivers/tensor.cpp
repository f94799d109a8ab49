#include "all.hpp"
#include "src/types/tensor_impls/identity_tensor.hpp"
#include "src/types/tensor_impls/tensor_from_function.hpp"
#include "src/types/tensor_views/column_flatten_tensor_view.hpp"
#include "src/types/tensor_views/concat_wide_tensor_view.h"
#include "src/types/tensor_views/matrix_divide_tensor_view.hpp"
#include "src/types/tensor_views/inverse_tensor_view.hpp"
#include "src/types/tensor_views/dot_product_tensor_view.hpp"
#include "src/types/tensor_views/outer_product_tensor_view.hpp"
#include "src/types/tensor_views/log2_tensor_view.hpp"
#include "src/types/tensor_views/noop_tensor_view.hpp"
#include "src/types/tensor_views/sum_channels_tensor_view.hpp"
#include "src/types/tensor_views/sum_to_channel_tensor_view.hpp"
#include "src/types/tensor_views/value_transform_tensor_view.hpp"
#include "src/types/tensor_views/value_transform_with_double_tensor_view.hpp"
#include "src/types/tensor_views/full_2d_convolve_tensor_view.hpp"
#include "src/types/tensor_views/exponential_tensor_view.hpp"
#include "src/types/tensor_views/clip_tensor_view.hpp"
#include "src/types/tensor_views/element_wise_divide_tensor_view.hpp"
#include "src/types/tensor_views/element_wise_inverse_tensor_view.hpp"
#include "src/types/tensor_views/window_tensor_view.hpp"
using namespace happyml;
typedef std::shared_ptr<BaseTensor> P;
static const double F = 1000.0;
static long fx(double x) { return v::scaled(x, F); }
template<class V, class... A> static P mk(A... a) { return std::make_shared<V>(a...); }
static P load(const P &a, int kind) {
    std::ofstream out("t.bin", std::ios::binary | std::ios::trunc);
    // what was saved with and without its shape must come back from the middle of a file as well
    a->save(out);
    a->save(out, false);
    out.close();
    P whole;
    std::ifstream in("t.bin", std::ios::binary);
    if (kind == 32) whole = mk<FullTensor, std::string>("t.bin");
    if (kind == 16) whole = mk<HalfTensor, std::string>("t.bin");
    if (kind == 8) whole = loadTensor("t.bin", 8);
    if (kind == 0) whole = mk<PixelTensor, std::string>("t.bin");
    P first, second;
    uint64_t r = a->rowCount(), c = a->columnCount(), k = a->channelCount();
    if (kind == 0) {
        first = std::make_shared<PixelTensor>(in);
        second = std::make_shared<PixelTensor>(in, r, c, k);
    } else if (kind == 32) {
        first = std::make_shared<FullTensor>(in);
        second = std::make_shared<FullTensor>(in, r, c, k);
    } else return whole;
    if (v::tensorBits(first) != v::tensorBits(whole) || v::tensorBits(second) != v::tensorBits(whole)) return nullptr;
    return whole;
}
struct Step {
    std::string op;
    P a, b, d;
    std::vector<long> p;
    float f(int i) const { return (float) (p[i] / F); }
};
static std::vector<std::vector<std::vector<float>>> cube(const std::vector<long> &p) {
    std::vector<std::vector<std::vector<float>>> x(p[2], std::vector<std::vector<float>>(p[0], std::vector<float>(p[1])));
    size_t n = 3;
    for (auto &ch: x) for (auto &row: ch) for (auto &e: row) e = (float) (p[n++] / F);
    return x;
}
static P make(const Step &s) {
    const std::string &op = s.op;
    const P &a = s.a, &b = s.b;
    if (op == "full3") return std::make_shared<FullTensor>(cube(s.p));
    if (op == "full1") {
        std::vector<float> x;
        for (auto e: s.p) x.push_back((float) (e / F));
        return std::make_shared<FullTensor>(x);
    }
    if (op == "uniform") return std::make_shared<UniformTensor>((size_t) s.p[0], (size_t) s.p[1], (size_t) s.p[2], s.f(3));
    if (op == "identity") return std::make_shared<IdentityTensor>(s.p[0], s.p[1], s.p[2]);
    if (op == "function") return std::make_shared<TensorFromFunction>([](size_t i, size_t j, size_t k) { return 1.0f + (float) i + 2.0f * (float) j - 3.0f * (float) k; }, s.p[0], s.p[1], s.p[2]);
    if (op == "random") return std::make_shared<TensorFromRandom>((size_t) s.p[0], (size_t) s.p[1], (size_t) s.p[2], s.f(3), s.f(4), (uint32_t) s.p[5]);
    if (op == "xavier") return std::make_shared<TensorFromXavier>((size_t) s.p[0], (size_t) s.p[1], (size_t) s.p[2], (uint32_t) s.p[5]);
    if (op == "add") return std::make_shared<AddTensorView>(a, b);
    if (op == "sub") return std::make_shared<SubtractTensorView>(a, b);
    if (op == "mul") return std::make_shared<ElementWiseMultiplyTensorView>(a, b);
    if (op == "div") return std::make_shared<ElementWiseDivideTensorView>(a, b);
    if (op == "matmul") return std::make_shared<MatrixMultiplyTensorView>(a, b);
    if (op == "matdiv") return std::make_shared<MatrixDivideTensorView>(a, b);
    if (op == "inverse") return std::make_shared<InverseTensorView>(a);
    if (op == "dot") return std::make_shared<DotProductTensorView>(a, b);
    if (op == "outer") return std::make_shared<OuterProductTensorView>(a, b);
    if (op == "valid") return std::make_shared<Valid2DCrossCorrelationTensorView>(a, b);
    if (op == "full") return std::make_shared<Full2DCrossCorrelationTensorView>(a, b);
    if (op == "convolve") return std::make_shared<Full2DConvolveTensorView>(a, b);
    if (op == "concat") return std::make_shared<ConcatWideTensorView>(a, b);
    if (op == "select") return std::make_shared<MaskedSelectTensorView>(a, b, s.d, s.f(0));
    if (op == "abs") return std::make_shared<AbsoluteTensorView>(a);
    if (op == "noop") return std::make_shared<TensorNoOpView>(a);
    if (op == "clip") return std::make_shared<ClipTensorView>(a, s.f(0), s.f(1));
    if (op == "sadd") return std::make_shared<ScalarAddTensorView>(a, s.f(0));
    if (op == "ssub") return std::make_shared<ScalarSubtractTensorView>(a, s.f(0));
    if (op == "subfrom") return std::make_shared<ScalarSubtractTensorView>(s.f(0), a);
    if (op == "smul") return std::make_shared<ScalarMultiplyTensorView>(a, s.f(0));
    if (op == "mulby") return std::make_shared<ScalarMultiplyTensorView>(s.f(0), a);
    if (op == "sdiv") return std::make_shared<ScalarDivideTensorView>(a, s.f(0));
    if (op == "divinto") return std::make_shared<ScalarDivideTensorView>(s.f(0), a);
    if (op == "inverse1") return std::make_shared<ElementWiseInverseTensorView>(a, s.f(0));
    if (op == "power") return std::make_shared<PowerTensorView>(a, s.f(0));
    if (op == "half") return std::make_shared<PowerTensorView>(a, 0.5f);
    if (op == "exp") return std::make_shared<ExponentialTensorView>(a);
    if (op == "log") return std::make_shared<LogTensorView>(a);
    if (op == "log2") return std::make_shared<Log2TensorView>(a);
    if (op == "sqrt") return std::make_shared<SqrtTensorView>(a);
    if (op == "round") return happyml::round(a);
    if (op == "less") return std::make_shared<LessThanScalarTensorView>(a, s.f(0));
    if (op == "norm") return std::make_shared<NormalizeTensorView>(a, s.f(0), s.f(1));
    if (op == "autonorm") return std::make_shared<NormalizeTensorView>(a);
    if (op == "denorm") return std::make_shared<DenormalizeTensorView>(a, s.f(0), s.f(1));
    if (op == "std") return std::make_shared<StandardizeTensorView>(a, s.f(0), s.f(1));
    if (op == "autostd") return std::make_shared<StandardizeTensorView>(a);
    if (op == "unstd") return std::make_shared<UnstandardizeTensorView>(a, s.f(0), s.f(1));
    if (op == "transform") return std::make_shared<ValueTransformTensorView>(a, [](float x) { return 2 * x + 1; });
    if (op == "transform2") return std::make_shared<ValueTransformWithDoubleTensorView>(a, [](float x, double y) { return (float) (x * y - 1); }, s.p[0] / F);
    if (op == "transpose") return std::make_shared<TransposeTensorView>(a);
    if (op == "rotate") return std::make_shared<Rotate180TensorView>(a);
    if (op == "pad") return std::make_shared<ZeroPadTensorView>(a, s.p[0], s.p[1], s.p[2], s.p[3]);
    if (op == "reshape3") return std::make_shared<ReshapeTensorView>(a, s.p[0], s.p[1], s.p[2]);
    if (op == "reshape2") return std::make_shared<ReshapeTensorView>(a, s.p[0], s.p[1]);
    if (op == "rowflat") return std::make_shared<RowFlattenTensorView>(a);
    if (op == "colflat") return std::make_shared<ColumnFlattenTensorView>(a);
    if (op == "window") return std::make_shared<WindowTensorView>(a, s.p[0], s.p[1]);
    if (op == "channel") return std::make_shared<ChannelToTensorView>(a, s.p[0]);
    if (op == "sumchannels") return std::make_shared<SumChannelsTensorView>(a);
    if (op == "sumto") return std::make_shared<SumToChannelTensorView>(a, s.p[0], s.p[1]);
    if (op == "copy32") return materializeTensor(a, 32);
    if (op == "copy16") return materializeTensor(a, 16);
    if (op == "copy8") return materializeTensor(a, 8);
    if (op == "pixel") return std::make_shared<PixelTensor>(a);
    if (op == "load32") return load(a, 32);
    if (op == "load16") return load(a, 16);
    if (op == "load8") return load(a, 8);
    if (op == "loadpixel") return load(a, 0);
    fprintf(stderr, "driver: unknown op %s\n", op.c_str());
    _exit(77);
}
static std::string elements(const P &t) { return v::tensorInts(t, F); }
static std::string lists(const std::vector<std::vector<long>> &x) {
    std::vector<std::string> r;
    for (auto &y: x) r.push_back(v::ints(y));
    return v::arr(r);
}
static void stats(v::J &j, const P &t) {
    auto range = t->range();
    float geo = t->geometricMean();
    j.put("sum", fx(t->sum())).put("max", fx(t->max())).put("min", fx(t->min())).put("maxabs", fx(t->max_abs()))
            .put("lo", fx(range.first)).put("hi", fx(range.second)).put("mean", fx(t->arithmeticMean())).put("var", fx(t->variance()))
            .put("dev", fx(t->standardDeviation())).put("norm", fx(t->euclidean_norm())).put("prod", fx(t->product()))
            .put("geo", std::isnan(geo) ? -1L : fx(geo)).put("valid", !t->hasNaNOrInf() && !hasInvalidValues(t));
    std::vector<std::vector<long>> rows, maxall, minall, top;
    std::vector<long> maxrow, minrow, maxcol;
    long m = 1 + (long) t->size() % 4;
    for (size_t k = 0; k < t->channelCount(); k++)
        for (size_t i = 0; i < t->rowCount(); i++) {
            std::vector<long> r;
            for (float x: t->getRowValues(i, k)) r.push_back(fx(x));
            rows.push_back(r);
            maxrow.push_back((long) t->maxIndexByRow(k, i));
            minrow.push_back((long) t->minIndex(k, i));
            std::vector<long> x, y, z;
            for (auto q: t->maxIndices(k, i)) x.push_back((long) q);
            for (auto q: t->minIndices(k, i)) y.push_back((long) q);
            for (auto &q: t->topIndices(m, k, i)) z.push_back((long) q.getIndex());
            maxall.push_back(x);
            minall.push_back(y);
            top.push_back(z);
        }
    for (size_t k = 0; k < t->channelCount(); k++)
        for (size_t c = 0; c < t->columnCount(); c++) maxcol.push_back((long) t->maxIndexByCol(k, c));
    j.raw("rows", lists(rows)).raw("maxrow", v::ints(maxrow)).raw("minrow", v::ints(minrow)).raw("maxcol", v::ints(maxcol))
            .raw("maxall", lists(maxall)).raw("minall", lists(minall)).raw("top", lists(top)).put("m", m);
}
static void program(v::Args &in) {
    std::vector<P> made;
    auto pick = [&](long i) { return i == 0 ? P() : made[i - 1]; };
    while (in.more()) {
        Step s;
        s.op = in.word();
        long a = in.num(), b = in.num(), d = in.num();
        bool exact = in.num() != 0;
        bool fine = in.num() != 0;
        bool small = in.num() != 0;
        long n = in.num();
        for (long i = 0; i < n; i++) s.p.push_back(in.num());
        s.a = pick(a);
        s.b = pick(b);
        s.d = pick(d);
        v::J j("op");
        j.put("op", s.op).put("a", a).put("b", b).put("d", d).put("exact", exact).put("fine", fine).put("small", small).raw("p", v::ints(s.p));
        P t;
        try {
            v::Capture quiet;
            t = make(s);
        } catch (std::exception &) {}
        if (!t) {
            made.push_back(P());
            v::emit(j.put("err", true));
            continue;
        }
        j.put("err", false);
        made.push_back(t);
        std::vector<std::string> off, has;
        for (size_t i = 0; i < t->size(); i++) off.push_back(std::to_string(fx(t->getValue((unsigned long) i))));
        for (auto &o: {s.a, s.b, s.d}) if (o) has.push_back(t->contains(o) ? "true" : "false");
        std::vector<long> shape;
        for (auto x: t->getShape()) shape.push_back((long) x);
        j.raw("sh", v::ints(std::vector<long>{(long) t->rowCount(), (long) t->columnCount(), (long) t->channelCount(), (long) t->size(), (long) t->elementsPerChannel()}));
        j.raw("shape", v::ints(shape)).raw("v", elements(t)).raw("off", v::arr(off)).raw("has", v::arr(has));
        j.put("other", t->contains(std::make_shared<UniformTensor>((size_t) 1, (size_t) 1, (size_t) 1, 0.0f)));
        stats(j, t);
        j.raw("again", elements(t));
        v::emit(j);
    }
    std::vector<std::string> all;
    for (auto &t: made) all.push_back(t ? elements(t) : "[]");
    v::emit(v::J("end").raw("all", v::arr(all)));
}
int main(int c, char **a) { return v::run(c, a, program); }
