#include "all.hpp"
using namespace happyml;

static std::string metaJson(const std::shared_ptr<BinaryColumnMetadata> &m) {
    std::string s = "[";
    s += std::to_string((int) m->purpose) + "," + std::to_string(m->rows) + "," + std::to_string(m->columns) + "," +
         std::to_string(m->channels) + "," + std::to_string(m->source_column_count) + "," +
         std::to_string((int) m->is_standardized) + "," + v::bits(m->mean) + "," + v::bits(m->standard_deviation) + "," +
         std::to_string((int) m->is_normalized) + "," + v::bits(m->min_value) + "," + v::bits(m->max_value);
    return "{\"f\":" + s + "],\"name\":" + v::codes(m->name) + ",\"labels\":" + v::strs(m->ordered_labels) + "}";
}
static std::string metasJson(const std::vector<std::shared_ptr<BinaryColumnMetadata>> &ms) {
    std::vector<std::string> r;
    for (auto &m: ms) r.push_back(metaJson(m));
    return v::arr(r);
}
static std::vector<std::shared_ptr<BinaryColumnMetadata>> readMetas(v::Args &a) {
    std::vector<std::shared_ptr<BinaryColumnMetadata>> r;
    long n = a.num();
    for (long i = 0; i < n; i++) {
        auto m = std::make_shared<BinaryColumnMetadata>();
        m->purpose = a.word()[0];
        m->rows = a.num(); m->columns = a.num(); m->channels = a.num(); m->source_column_count = a.num();
        m->is_standardized = a.num() != 0; m->mean = v::fromBits(a.word()); m->standard_deviation = v::fromBits(a.word());
        m->is_normalized = a.num() != 0; m->min_value = v::fromBits(a.word()); m->max_value = v::fromBits(a.word());
        m->name = a.str();
        long k = a.num();
        for (long j = 0; j < k; j++) m->ordered_labels.push_back(a.str());
        r.push_back(m);
    }
    return r;
}
static std::shared_ptr<BaseTensor> readTensor(v::Args &a, const std::shared_ptr<BinaryColumnMetadata> &m) {
    std::vector<std::vector<std::vector<float>>> f(m->channels, std::vector<std::vector<float>>(m->rows, std::vector<float>(m->columns)));
    for (auto &c: f) for (auto &r: c) for (auto &x: r) x = v::fromBits(a.word());
    if (m->purpose == 'I') return pixelTensor(f);
    return tensor(f);
}

int main(int argc, char **argv) {
    return v::run(argc, argv, [](v::Args &a) {
        auto g = readMetas(a), x = readMetas(a);
        long cap = a.num();
        long nrows = a.num();
        {
            BinaryDatasetWriter w("data.bin", g, x, (size_t) cap);
            v::emit(v::J("open").raw("g", metasJson(g)).raw("x", metasJson(x)).put("cap", cap));
            for (long i = 0; i < nrows; i++) {
                std::vector<std::shared_ptr<BaseTensor>> gt, xt;
                for (auto &m: g) gt.push_back(readTensor(a, m));
                for (auto &m: x) xt.push_back(readTensor(a, m));
                bool kept = xt.empty() ? w.writeRow(gt) : w.writeRow(gt, xt);
                v::emit(v::J("write").raw("g", v::tensorsBits(gt)).raw("x", v::tensorsBits(xt)).put("kept", kept));
            }
            w.close();
        }
        BinaryDatasetReader r("data.bin");
        auto rg = r.get_given_metadata(), rx = r.get_expected_metadata();
        v::emit(v::J("reopen").raw("g", metasJson(rg)).raw("x", metasJson(rx)).put("n", r.rowCount()));
        // the reader's accessors describe the same columns
        {
            std::vector<std::string> gd, xd;
            for (size_t i = 0; i < r.get_given_column_count(); i++) {
                auto d = r.getGivenTensorDims(i);
                gd.push_back("{\"p\":" + std::to_string((int) r.getGivenTensorPurpose(i)) + ",\"d\":" + v::ints(d) + ",\"name\":" +
                             v::codes(r.get_given_name((int) i)) + ",\"labels\":" + v::strs(r.getGivenTensorOrderedLabels((int) i)) + "}");
            }
            for (size_t i = 0; i < r.get_expected_column_count(); i++) {
                auto d = r.getExpectedTensorDims(i);
                xd.push_back("{\"p\":" + std::to_string((int) r.getExpectedTensorPurpose(i)) + ",\"d\":" + v::ints(d) + ",\"name\":" +
                             v::codes(r.get_expected_name((int) i)) + ",\"labels\":" + v::strs(r.getExpectedTensorOrderedLabels((int) i)) + "}");
            }
            v::emit(v::J("describe").raw("g", v::arr(gd)).raw("x", v::arr(xd)));
        }
        long nreads = a.num();
        for (long i = 0; i < nreads; i++) {
            long idx = a.num();
            bool ok = true;
            std::string gs = "[]", xs = "[]";
            try {
                auto row = r.readRow((size_t) idx);
                gs = v::tensorsBits(row.first);
                xs = v::tensorsBits(row.second);
            } catch (std::exception &e) {
                ok = false;
            }
            v::emit(v::J("read").put("i", idx).put("ok", ok).raw("g", gs).raw("x", xs));
        }
        v::emit("done");
    });
}
