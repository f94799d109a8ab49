// what a stored dataset holds, as the specification speaks of it
#pragma once
#include "all.hpp"
using namespace happyml;
static double undo(double s, const std::shared_ptr<BinaryColumnMetadata> &m) {
    double x = s;
    if (m->is_normalized && m->max_value == m->min_value) x = x + (double) m->min_value;
    else if (m->is_normalized) x = x * ((double) m->max_value - (double) m->min_value) + (double) m->min_value;
    if (m->is_standardized) x = x * (double) m->standard_deviation + (double) m->mean;
    return x;
}
static std::string cell(const std::shared_ptr<BaseTensor> &t, const std::shared_ptr<BinaryColumnMetadata> &m) {
    std::vector<long> r;
    for (size_t c = 0; c < t->channelCount(); c++)
        for (size_t i = 0; i < t->rowCount(); i++)
            for (size_t j = 0; j < t->columnCount(); j++) {
                double s = t->getValue(i, j, c);
                r.push_back(m->purpose == 'N' ? v::scaled(undo(s, m), 1000) : m->purpose == 'I' ? v::scaled(s, 255) : v::scaled(s, 4));
            }
    return v::ints(r);
}
static std::string column(const std::shared_ptr<BinaryColumnMetadata> &m) {
    v::J j;
    j.codes("name", m->name).put("purpose", std::string(1, m->purpose));
    j.raw("shape", v::ints(std::vector<size_t>{m->rows, m->columns, m->channels})).raw("labels", v::strs(m->ordered_labels));
    j.put("std", (bool) m->is_standardized).put("norm", (bool) m->is_normalized);
    j.put("mean", v::scaled(m->mean, 1000)).put("sd", v::scaled(m->standard_deviation, 50)).put("min", v::scaled(m->min_value, 1000)).put("max", v::scaled(m->max_value, 1000)).put("dev", v::scaled(m->standard_deviation, 1000));
    return j.str();
}
static std::string dsFile(const std::string &n) { return ExecutionContext::get_dataset_path(n) + "/dataset.bin"; }
static std::string stored(BinaryDatasetReader &r, const std::vector<std::shared_ptr<BinaryColumnMetadata>> &gm,
                          const std::vector<std::shared_ptr<BinaryColumnMetadata>> &xm) {
    std::vector<std::string> g, x, rows;
    for (auto &m: gm) g.push_back(column(m));
    for (auto &m: xm) x.push_back(column(m));
    std::vector<std::shared_ptr<RawDecoder>> gdec, xdec;
    for (auto &m: gm) gdec.push_back(build_decoder(false, m));
    for (auto &m: xm) xdec.push_back(build_decoder(false, m));
    for (size_t i = 0; i < r.rowCount(); i++) {
        auto row = r.readRow(i);
        std::vector<std::string> a, b, ad, bd;
        for (size_t k = 0; k < row.first.size(); k++) { a.push_back(cell(row.first[k], gm[k])); ad.push_back(v::tensorInts(gdec[k]->decode(row.first[k]), 1000)); }
        for (size_t k = 0; k < row.second.size(); k++) { b.push_back(cell(row.second[k], xm[k])); bd.push_back(v::tensorInts(xdec[k]->decode(row.second[k]), 1000)); }
        v::J j;
        j.raw("g", v::arr(a)).raw("x", v::arr(b)).raw("gd", v::arr(ad)).raw("xd", v::arr(bd));
        rows.push_back(j.str());
    }
    v::J j;
    j.raw("given", v::arr(g)).raw("expected", v::arr(x)).raw("rows", v::arr(rows));
    return j.str();
}
static std::string storedOf(const std::string &n) {
    BinaryDatasetReader r(dsFile(n));
    return stored(r, r.get_given_metadata(), r.get_expected_metadata());
}
