From 694bdfbf6b03953d0373ef61cf5af25f6bc60f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 01/79] fix: dedupe binary rows by value instead of by printed
 text

---
 src/util/file_writer.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 5f3d66b..170cdfc 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -248,12 +248,18 @@ namespace happyml {
         }
 
         static size_t compute_given_hash(const vector<shared_ptr<BaseTensor>> &given_tensors) {
-            std::hash<string> hasher;
+            // hash the values themselves: printed text has a limited number of decimals, so
+            // different small values would look like duplicates.
+            std::hash<float> hasher;
             size_t result = 0;
             for (const auto &next_tensor: given_tensors) {
-                stringstream ss;
-                next_tensor->print(ss);
-                result ^= hasher(ss.str()) + 0x9e3779b9 + (result << 6) + (result >> 2);
+                for (size_t channel = 0; channel < next_tensor->channelCount(); channel++) {
+                    for (size_t row = 0; row < next_tensor->rowCount(); row++) {
+                        for (size_t column = 0; column < next_tensor->columnCount(); column++) {
+                            result ^= hasher(next_tensor->getValue(row, column, channel)) + 0x9e3779b97f4a7c15ULL + (result << 6) + (result >> 2);
+                        }
+                    }
+                }
             }
             return result;
         }
-- 
2.43.0


From ae0b1ca6b933c740caeab29cbf681f0f840d8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 02/79] fix: file sorter no longer overwrites and deletes
 chunk_N.txt files next to the source

---
 src/util/text_file_sorter.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index c124f9b..b0b25d6 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -26,7 +26,9 @@ namespace happyml {
         // at least in the case where the given is in the file before the expected
         // values.
         static bool sort(const std::string &file_name, const std::string &result_file_name, bool has_header = true, int chunk_size = 10000, bool delete_duplicates = true) {
-            auto parent_path = std::filesystem::path(file_name).parent_path().string();
+            // temporary chunks are named after the result file, so that they can't overwrite unrelated files
+            // (like a "chunk_0.txt") that are next to the source.
+            auto chunk_prefix = result_file_name + ".chunk_";
 
             std::ifstream input(file_name);
 
@@ -52,7 +54,7 @@ namespace happyml {
                 if (lines.size() >= chunk_size) {
                     sort_chunk(lines);
 
-                    std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                    std::string chunk_path = chunk_prefix + std::to_string(chunk_counter);
                     std::ofstream chunk_output(chunk_path);
                     chunk_paths.push_back(chunk_path);
                     for (const auto &sorted_line: lines) {
@@ -68,7 +70,7 @@ namespace happyml {
             if (!lines.empty()) {
                 sort_chunk(lines);
 
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                std::string chunk_path = chunk_prefix + std::to_string(chunk_counter);
                 std::ofstream chunk_output(chunk_path);
                 chunk_paths.push_back(chunk_path);
                 for (const auto &sorted_line: lines) {
@@ -79,7 +81,7 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(parent_path, result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            merge_chunks(chunk_prefix, result_file_name, chunk_counter, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
@@ -91,14 +93,14 @@ namespace happyml {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &parent_path, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        static void merge_chunks(const std::string &chunk_prefix, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
             std::vector<std::ifstream> chunk_files(num_chunks);
 
             for (size_t i = 0; i < num_chunks; ++i) {
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(i) + ".txt";
+                std::string chunk_path = chunk_prefix + std::to_string(i);
 
                 chunk_files[i].open(chunk_path);
 
-- 
2.43.0


From 3d71bd38dd66d3f42ca6a55b7377c79514056579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 03/79] fix: decodeString no longer drops characters after a
 '<' that starts no escape

---
 src/util/text_encoder_decoder.hpp | 35 +++++++++----------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/util/text_encoder_decoder.hpp b/src/util/text_encoder_decoder.hpp
index ba58896..35fe599 100644
--- a/src/util/text_encoder_decoder.hpp
+++ b/src/util/text_encoder_decoder.hpp
@@ -34,31 +34,16 @@ namespace happyml {
         static string decodeString(const string &str, const char delimiter) {
             stringstream decoded;
             for (size_t i = 0; i < str.size(); ++i) {
-                if (str[i] == '<' && i + 2 < str.size()) {
-                    ++i;
-                    if (str[i] == '_') {
-                        ++i;
-                        if (str[i] == '<') {
-                            decoded << '<';
-                        } else if (str[i] == '_') {
-                            decoded << "<_";
-                        } else {
-                            decoded << '<' << str[i];
-                        }
-                    } else if (str[i] == '~' && i + 2 < str.size()) {
-                        ++i;
-                        if (str[i] == 'D' && str[i + 1] == '>') {
-                            decoded << delimiter;
-                            ++i; // Move past the '>'
-                        } else if (str[i] == 'N' && str[i + 1] == '>') {
-                            decoded << '\n';
-                            ++i; // Move past the '>'
-                        } else {
-                            decoded << '<' << str[i];
-                        }
-                    } else {
-                        decoded << '<' << str[i];
-                    }
+                // only the exact sequences that encodeString() produces are special
+                if (str.compare(i, 3, "<_<") == 0) {
+                    decoded << '<';
+                    i += 2;
+                } else if (str.compare(i, 4, "<~D>") == 0) {
+                    decoded << delimiter;
+                    i += 3;
+                } else if (str.compare(i, 4, "<~N>") == 0) {
+                    decoded << '\n';
+                    i += 3;
                 } else {
                     decoded << str[i];
                 }
-- 
2.43.0


From c7feee4877463577a41dce9994d69323276f2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 04/79] fix: isFloat rejects text that merely starts with a
 number, so the writer quotes it

---
 src/training_data/data_encoder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index f23d72d..84cd037 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -64,7 +64,8 @@ namespace happyml {
     bool isFloat(const string &text) {
         float value = 0.0;
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        // text that merely starts with a number isn't a number
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     class HappyMLVariantEncoder {
-- 
2.43.0


From 5bc9925be71d471502252758332a3e34da10d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 05/79] fix: values containing double quotes survive being
 written to and read from delimited text

---
 src/util/file_reader.hpp | 8 ++------
 src/util/file_writer.hpp | 7 +------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 68beaa9..49f8b23 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -183,12 +183,8 @@ namespace happyml {
 
         string decode(string &current_word) const {
             auto stripped_column = strip(current_word);
-            auto stripped_column_length = stripped_column.length();
-            if (stripped_column_length > 0 && stripped_column[0] == '"' &&
-                stripped_column[stripped_column_length - 1] == '"') {
-                stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-            }
-            string_replace_all(stripped_column, "\"\"", "\"");
+            // nextRecord() already removed the enclosing quotes and un-doubled the quotes inside of them,
+            // so any remaining quote is part of the value.
             stripped_column = TextEncoderDecoder::decodeString(stripped_column, delimiter_);
             return stripped_column;
         }
diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 170cdfc..a760461 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -74,12 +74,7 @@ namespace happyml {
                 auto stripped_column = strip(column);
                 auto stripped_column_length = stripped_column.length();
                 if (stripped_column_length > 0) {
-                    if (stripped_column[0] == '\"' && stripped_column[stripped_column_length - 1] == '\"') {
-                        stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-                        string_replace_all(stripped_column, "\"", "\"\"");
-                        auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-                        stripped_column = "\"" + encoded_column + "\"";
-                    } else if (!isFloat(stripped_column)) { // check if it is a number
+                    if (!isFloat(stripped_column)) { // check if it is a number
                         // it is not a number, so we need to encode it
                         string_replace_all(stripped_column, "\"", "\"\"");
                         auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-- 
2.43.0


From 1347206dccdb766c2bcc59df5c75c41b49bbb8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 06/79] fix: reading a directory of text files doesn't stop at
 an empty or header-only file

---
 src/util/file_reader.hpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 49f8b23..5d58277 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -71,27 +71,20 @@ namespace happyml {
                     next_line = "";
                 } else {
                     string line;
-                    if (getline(stream, line)) {
-                        next_line = line;
-                    } else {
+                    // files without any (more) lines are skipped
+                    while (!getline(stream, line)) {
                         stream.close();
                         current_file++;
-                        if (current_file < filenames.size()) {
-                            stream.open(filenames[current_file]);
-                            if (skip_header) {
-                                skipHeader();
-                            }
-                            if (getline(stream, line)) {
-                                next_line = line;
-                            } else {
-                                has_next = false;
-                                next_line = "";
-                            }
-                        } else {
+                        if (current_file >= filenames.size()) {
                             has_next = false;
-                            next_line = "";
+                            break;
+                        }
+                        stream.open(filenames[current_file]);
+                        if (skip_header) {
+                            skipHeader();
                         }
                     }
+                    next_line = has_next ? line : "";
                 }
             }
             return result;
@@ -104,9 +97,7 @@ namespace happyml {
     private:
         void skipHeader() {
             string line;
-            if (!stream.is_open() || !getline(stream, line)) {
-                has_next = false;
-            }
+            getline(stream, line);
         }
 
         vector<string> filenames;
-- 
2.43.0


From 327bd292320852beb565a623d1c56d5303c1ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 07/79] fix: complementary dataset splits agree on the row
 where they meet

---
 src/training_data/training_dataset.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index fac1120..60eef01 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -6,6 +6,7 @@
 #ifndef HAPPYML_TRAINING_DATASET_HPP
 #define HAPPYML_TRAINING_DATASET_HPP
 
+#include <cmath>
 #include <iostream>
 #include <utility>
 #include <vector>
@@ -83,10 +84,10 @@ namespace happyml {
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
+                record_count_ = splitOffset(reader_.rowCount(), split);
             } else {
                 // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
+                first_record_offset_ = splitOffset(reader_.rowCount(), 1.0f + split);
                 record_count_ = reader_.rowCount() - first_record_offset_;
             }
             current_offset_ = 0;
@@ -101,10 +102,10 @@ namespace happyml {
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
+                record_count_ = splitOffset(reader_.rowCount(), split);
             } else {
                 // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
+                first_record_offset_ = splitOffset(reader_.rowCount(), 1.0f + split);
                 record_count_ = reader_.rowCount() - first_record_offset_;
             }
             current_offset_ = 0;
@@ -170,6 +171,13 @@ namespace happyml {
 
 
     private:
+        // Splits are used in pairs, like 0.2 and -0.8. Rounding errors must not make the two halves
+        // disagree on where the boundary is, so we only look at the first six decimals.
+        static size_t splitOffset(size_t row_count, float fraction) {
+            auto millionths = static_cast<size_t>(std::llround(fraction * 1000000.0));
+            return row_count * millionths / 1000000;
+        }
+
         BinaryDatasetReader reader_;
         size_t current_offset_ = 0;
         size_t first_record_offset_ = 0;
-- 
2.43.0


From 18f4c3b896fd0a9719324f4e25d7f2f334b506af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 08/79] fix: create dataset can read .tsv and .txt files and
 leaves a .csv file of the same name alone

---
 src/lang/statements/create_dataset_statement.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 8eda412..e7e9524 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -101,16 +101,20 @@ namespace happyml {
             string file_extension = location_.substr(last_period_offset + 1);
             auto index_of_start_of_file_name = location_.find("://") + 3;
             string base_file_path = location_.substr(index_of_start_of_file_name, last_period_offset - index_of_start_of_file_name);
-            string current_location = base_file_path + ".csv";
+            string source_location = location_.substr(index_of_start_of_file_name);
+            string current_location = source_location;
             bool has_header = has_header_;
             if (file_extension == "txt") {
                 has_header = false;
-                if (!convert_txt_to_csv(location_, current_location, 4000)) {
+                // not base_file_path + ".csv", because that could be another file of the user
+                current_location = base_file_path + ".converted.csv";
+                if (!convert_txt_to_csv(source_location, current_location, 4000)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert text to csv.");
                 }
             } else if (file_extension == "tsv") {
-                if (!convert_tsv_to_csv(location_, current_location)) {
+                current_location = base_file_path + ".converted.csv";
+                if (!convert_tsv_to_csv(source_location, current_location)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert tsv to csv.");
                 }
@@ -161,6 +165,10 @@ namespace happyml {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Empty dataset");
             }
+            if (current_location != source_location && !filesystem::remove(current_location)) {
+                return make_shared<ExecutionResult>(false, false,
+                                                    "Could not remove the converted file.");
+            }
 
             if(verbose_) {
                 cout << "Sorting. This aids in deduping." << endl;
-- 
2.43.0


From 2b00979011812ff392cbd318939df269e07b7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 09/79] fix: column groups which share only one column do
 overlap

---
 src/util/dataset_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c246212..182d474 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -31,7 +31,7 @@ namespace happyml {
 
             size_t prev_endIndex = prev->start_index_ + prev->source_column_count_ - 1;
 
-            if (prev_endIndex > curr->start_index_) {
+            if (prev_endIndex >= curr->start_index_) {
                 return true;
             }
         }
-- 
2.43.0


From f0ed81df2e3a157832193e0c16900663e6ce5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 10/79] fix: normalizing values which are all the same doesn't
 divide by zero

---
 src/types/tensor_views/normalize_tensor_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/tensor_views/normalize_tensor_view.hpp b/src/types/tensor_views/normalize_tensor_view.hpp
index 241a05e..b7c9366 100644
--- a/src/types/tensor_views/normalize_tensor_view.hpp
+++ b/src/types/tensor_views/normalize_tensor_view.hpp
@@ -27,6 +27,10 @@ namespace happyml {
 
         float getValue(size_t row, size_t column, size_t channel) override {
             const float val = child_->getValue(row, column, channel);
+            if (val_range_ == 0.0f) {
+                // every value is the same, so there is nothing to scale
+                return val - min_val_;
+            }
             return (val - min_val_) / val_range_;
         }
 
-- 
2.43.0


From d9249dc1e039f67d23aec64c1e4bb01354d40c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 11/79] fix: a record with too few columns is an error instead
 of a read past its end

---
 src/training_data/training_dataset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index 60eef01..ca7aea9 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -353,11 +353,17 @@ namespace happyml {
             vector<string> new_record;
             for (const auto &column: given_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
+                    if (column->start_index_ + i >= record.size()) {
+                        throw runtime_error("Record " + to_string(records_updated) + " has only " + to_string(record.size()) + " columns.");
+                    }
                     new_record.push_back(record[column->start_index_ + i]);
                 }
             }
             for (const auto &column: expected_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
+                    if (column->start_index_ + i >= record.size()) {
+                        throw runtime_error("Record " + to_string(records_updated) + " has only " + to_string(record.size()) + " columns.");
+                    }
                     new_record.push_back(record[column->start_index_ + i]);
                 }
             }
-- 
2.43.0


From 917418f3b4a10d3f3e108e5c34ac3281aad810bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 12/79] fix: renormalizing a row uses each column's own
 settings

---
 src/util/file_reader.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 5d58277..b7910e2 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -253,19 +253,22 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
                 given_tensors.push_back(next_tensor);
+                given_offset++;
             }
             vector<shared_ptr<BaseTensor>> expected_tensors;
+            size_t expected_offset = 0;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
-                                                            renormalize_expected_metadata_[given_offset]->is_normalized, renormalize_expected_metadata_[given_offset]->is_standardized,
-                                                            renormalize_expected_metadata_[given_offset]->min_value, renormalize_expected_metadata_[given_offset]->max_value,
-                                                            renormalize_expected_metadata_[given_offset]->mean, renormalize_expected_metadata_[given_offset]->standard_deviation);
+                                                            renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
+                                                            renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
+                                                            renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
                 expected_tensors.push_back(next_tensor);
+                expected_offset++;
             }
             return {given_tensors, expected_tensors};
         }
-- 
2.43.0


From 5f790cdc848e141d9885562b7d3e7376624112c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 13/79] fix: ad hoc values are laid out and scaled like a data
 set's values

---
 src/training_data/data_encoder.hpp | 98 ++++++++++++++++--------------
 1 file changed, 54 insertions(+), 44 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 84cd037..c8274fd 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -79,14 +79,12 @@ namespace happyml {
         std::shared_ptr<BaseTensor> encode(const std::vector<HappyMLVariant> &text) {
             // purpose: 'I' (image), 'T' (text), 'N' (number), 'L' (label)
             if (metadata->purpose == 'I') {
-                std::vector<std::vector<std::vector<float>>> floats;
-                floats.resize(metadata->channels);
-                for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
+                auto floats = values_of(text);
+                for (auto &channel: floats) {
+                    for (auto &row: channel) {
+                        for (auto &value: row) {
+                            // a data set stores the value as percentage of 255.
+                            value = value / 255.f;
                         }
                     }
                 }
@@ -94,18 +92,7 @@ namespace happyml {
             } else if (metadata->purpose == 'T') {
                 throw runtime_error("Text encoding not implemented yet.");
             } else if (metadata->purpose == 'N') {
-                std::vector<std::vector<std::vector<float>>> floats;
-                floats.resize(metadata->channels);
-                for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
-                        }
-                    }
-                }
-                std::shared_ptr<BaseTensor> base_tensor = tensor(floats);
+                std::shared_ptr<BaseTensor> base_tensor = tensor(values_of(text));
                 if (metadata->is_standardized) {
                     base_tensor = make_shared<StandardizeTensorView>(base_tensor, metadata->mean, metadata->standard_deviation);
                 }
@@ -114,34 +101,21 @@ namespace happyml {
                 }
                 return base_tensor;
             } else if (metadata->purpose == 'L') {
-                for (const auto &next_text: text) {
-                    size_t column_offset = 0;
-                    bool found = false;
-                    for (size_t i = 0; i < metadata->ordered_labels.size(); i++) {
-                        if (metadata->ordered_labels[i] == next_text.to_string()) {
-                            column_offset = i;
-                            found = true;
-                            break;
-                        }
-                    }
-                    if (!found) {
-                        string error_message = "Unknown label " + next_text.to_string() + " for column: " + metadata->name;
-                        throw runtime_error(error_message);
-                    }
-                    vector<vector<vector<float>>> result;
-                    result.resize(metadata->channels);
-                    for (size_t channel = 0; channel < metadata->channels; channel++) {
-                        result[channel].resize(metadata->columns);
+                check_size(text, metadata->rows);
+                // one row for each word
+                vector<vector<vector<float>>> result;
+                result.resize(metadata->channels);
+                for (size_t channel = 0; channel < metadata->channels; channel++) {
+                    result[channel].resize(metadata->rows);
+                    for (size_t row = 0; row < metadata->rows; row++) {
+                        size_t column_offset = label_offset(text[row].to_string());
+                        result[channel][row].resize(metadata->columns);
                         for (size_t column = 0; column < metadata->columns; column++) {
-                            result[channel][column].resize(metadata->rows);
-                            for (size_t row = 0; row < metadata->rows; row++) {
-                                result[channel][column][row] = column == column_offset ? 1.f : 0.f;
-                            }
+                            result[channel][row][column] = column == column_offset ? 1.f : 0.f;
                         }
                     }
-
-                    return tensor(result);
                 }
+                return tensor(result);
             }
             string error_message = "Unknown purpose " + string(1, metadata->purpose) + " for column: " + metadata->name;
             throw runtime_error(error_message);
@@ -149,6 +123,42 @@ namespace happyml {
 
     private:
         shared_ptr<BinaryColumnMetadata> metadata;
+
+        void check_size(const std::vector<HappyMLVariant> &text, size_t required) {
+            if (text.size() < required) {
+                string error_message = "Expected " + to_string(required) + " value(s) for column: " + metadata->name + ", but got " + to_string(text.size());
+                throw runtime_error(error_message);
+            }
+        }
+
+        // values are ordered the way the data set encoders order them: by channel, then row, then column.
+        std::vector<std::vector<std::vector<float>>> values_of(const std::vector<HappyMLVariant> &text) {
+            check_size(text, metadata->channels * metadata->rows * metadata->columns);
+            std::vector<std::vector<std::vector<float>>> floats;
+            floats.resize(metadata->channels);
+            size_t offset = 0;
+            for (size_t channel = 0; channel < metadata->channels; channel++) {
+                floats[channel].resize(metadata->rows);
+                for (size_t row = 0; row < metadata->rows; row++) {
+                    floats[channel][row].resize(metadata->columns);
+                    for (size_t column = 0; column < metadata->columns; column++) {
+                        floats[channel][row][column] = text[offset].as_float();
+                        offset++;
+                    }
+                }
+            }
+            return floats;
+        }
+
+        size_t label_offset(const string &label) {
+            for (size_t i = 0; i < metadata->ordered_labels.size(); i++) {
+                if (metadata->ordered_labels[i] == label) {
+                    return i;
+                }
+            }
+            string error_message = "Unknown label " + label + " for column: " + metadata->name;
+            throw runtime_error(error_message);
+        }
     };
 
     class DataEncoder {
-- 
2.43.0


From 01be12d8b8a2c117b562306866f6d6ec0d32add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 14/79] fix: incomplete statements and unusable numbers are
 parse failures instead of exceptions

---
 src/lang/parser/parser.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index b3631b5..6699a5a 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -35,7 +35,17 @@ namespace happyml {
 
             // cout << "Lexer: " << lexResult->getMessage() << endl << lexResult->getMatchStream()->render() << endl;
             // then build parsed result.
-            return parseCodeBlock(lexResult->getMatchStream());
+            auto stream = lexResult->getMatchStream();
+            try {
+                return parseCodeBlock(stream);
+            } catch (const std::exception &e) {
+                // an incomplete or malformed statement, which ran out of tokens or has an unusable number
+                auto last_token = stream->previous();
+                if (last_token) {
+                    return generateError(string(e.what()) + " ", last_token);
+                }
+                return make_shared<ParseResult>(e.what(), false);
+            }
         }
 
     private:
-- 
2.43.0


From 64c322d0ee56af55507d00610a5e8a2a04a365df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 15/79] fix: help doesn't swallow the first token of the
 statement which follows it

---
 src/lang/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 6699a5a..59e7d59 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -61,6 +61,12 @@ namespace happyml {
             if (!stream->hasNext()) {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
+            // the topic is optional, and the next token could be the start of another statement
+            auto label = stream->peek()->getLabel();
+            if ("_dataset" != label && "_datasets" != label && "_task" != label && "_tasks" != label
+                && "_future" != label && "_word" != label) {
+                return make_shared<ParseResult>(make_shared<HelpStatement>());
+            }
             auto next = stream->next();
             return make_shared<ParseResult>(make_shared<HelpStatement>(next->getValue()));
         }
-- 
2.43.0


From 02e11cc0536b6535389a13646a1376b62845d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 16/79] fix: keywords are recognized whatever their case, as
 documented

---
 src/lang/parser/parser.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 59e7d59..459ca85 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -68,7 +68,7 @@ namespace happyml {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-            return make_shared<ParseResult>(make_shared<HelpStatement>(next->getValue()));
+            return make_shared<ParseResult>(make_shared<HelpStatement>(asLower(next->getValue())));
         }
 
         static shared_ptr<ParseResult> parsePrintStatement(const shared_ptr<TokenStream> &stream) {
@@ -76,10 +76,10 @@ namespace happyml {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
             auto next = stream->next();
-            if ("raw" != next->getValue() && "pretty" != next->getValue()) {
+            if ("_raw" != next->getLabel() && "_pretty" != next->getLabel()) {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
-            bool raw = "raw" == next->getValue();
+            bool raw = "_raw" == next->getLabel();
             next = stream->next();
             auto dataset_name = next->getValue();
             if (!stream->hasNext() || "_limit" != stream->peek()->getLabel()) {
@@ -109,7 +109,7 @@ namespace happyml {
             if (!stream->hasNext()) {
                 return generateError("with statement data type missing ", stream->previous());
             }
-            columnGroup->data_type_ = stream->next()->getValue();
+            columnGroup->data_type_ = asLower(stream->next()->getValue());
             if (!stream->hasNext()) {
                 return generateError("with statement label missing ", stream->previous());
             }
@@ -165,7 +165,7 @@ namespace happyml {
             }
             stream->consume(3); // :// that follows the https or file
             stringstream url;
-            url << scheme->getValue() << "://";
+            url << asLower(scheme->getValue()) << "://";
             auto nextLabel = stream->peek()->getLabel();
             // TODO: this is a bit of a hack, but it works for now. Keywords aren't currently allowed in
             //  the url, which is a problem, since words like "raw' are allowed in the url. I'm going to
@@ -210,16 +210,16 @@ namespace happyml {
                         return generateError("create task with statement malformed: ", next);
                     }
                     auto parameterToken = stream->next();
-                    if ("test" == parameterToken->getValue()) {
+                    if ("_test" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
                         test_dataset_name = stream->next()->getValue();
-                    } else if ("goal" == parameterToken->getValue()) {
+                    } else if ("_goal" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
-                        goal = stream->next()->getValue();
+                        goal = asLower(stream->next()->getValue());
                     } else {
                         return generateError("create task with statement malformed: ", parameterToken);
                     }
@@ -232,7 +232,7 @@ namespace happyml {
                     return generateError("create task using statement malformed: ", usingToken);
                 }
                 auto datasetName = stream->next();
-                auto createTaskResult = make_shared<CreateTaskStatement>(taskType->getValue(),
+                auto createTaskResult = make_shared<CreateTaskStatement>(asLower(taskType->getValue()),
                                                                          taskName->getValue(),
                                                                          goal,
                                                                          datasetName->getValue(),
@@ -271,7 +271,7 @@ namespace happyml {
                     if (!stream->hasNext()) {
                         return generateError("with statement is incomplete ", stream->previous());
                     }
-                    string withType = stream->next()->getValue();
+                    string withType = asLower(stream->next()->getValue());
                     if ("header" == withType) {
                         has_header = true;
                     } else {
-- 
2.43.0


From a4e531f636f4361c653f93d3f888d532edc62002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 17/79] fix: a url may contain keywords and ends at the first
 blank

---
 src/lang/parser/parser.hpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 459ca85..c3ad763 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -158,27 +158,33 @@ namespace happyml {
             return make_shared<ParseResult>("Success", true);
         }
 
+        static bool isUrlPart(const shared_ptr<Token> &token) {
+            auto label = token->getLabel();
+            return "_word" == label || "_slash" == label || "_backslash" == label
+                   || "_dot" == label || "_colon" == label || "_number" == label
+                   || "_underscore" == label || ::isalpha(static_cast<unsigned char>(token->getValue()[0]));
+        }
+
         static string parseLocation(const shared_ptr<TokenStream> &stream) {
             auto scheme = stream->next();
             if (!stream->hasNext(3)) {
                 throw runtime_error("Malformed url at: " + scheme->render());
             }
-            stream->consume(3); // :// that follows the https or file
+            // :// that follows the https or file
+            for (const auto *expected_label: {"_colon", "_slash", "_slash"}) {
+                if (expected_label != stream->next()->getLabel()) {
+                    throw runtime_error("Malformed url at: " + scheme->render());
+                }
+            }
             stringstream url;
             url << asLower(scheme->getValue()) << "://";
-            auto nextLabel = stream->peek()->getLabel();
-            // TODO: this is a bit of a hack, but it works for now. Keywords aren't currently allowed in
-            //  the url, which is a problem, since words like "raw' are allowed in the url. I'm going to
-            //  manually allow "raw" to pass, but all of the keywords should be allowed. The problem is
-            //  if we didn't do this check, we'd keep going for the rest of the file.
-            while ("raw" == stream->peek()->getValue() || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
-                   || "_dot" == nextLabel || "_colon" == nextLabel || "_number" == nextLabel
-                   || "_underscore" == nextLabel) {
-                url << stream->next()->getValue();
-                if (!stream->hasNext()) {
-                    break;
-                }
-                nextLabel = stream->peek()->getLabel();
+            // a url has no blanks in it, so it ends where the next token doesn't follow immediately.
+            // keywords may be part of a url.
+            size_t end_of_previous = stream->previous()->getOffset() + stream->previous()->getLength();
+            while (stream->hasNext() && isUrlPart(stream->peek()) && stream->peek()->getOffset() == end_of_previous) {
+                auto part = stream->next();
+                url << part->getValue();
+                end_of_previous = part->getOffset() + part->getLength();
             }
 
             return url.str();
-- 
2.43.0


From a06f455769a62caf8cbacccc7837a29e627d3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 18/79] fix: an empty line in an interactive session is no read
 past the start of the line

---
 src/lang/interpreter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 48d35d3..5a202fa 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -75,7 +75,7 @@ namespace happyml {
             cout << "> ";
             while (std::getline(std::cin, nextLine)) {
                 nextLine = trimEnd(nextLine);
-                if (nextLine.back() == '\\') {
+                if (!nextLine.empty() && nextLine.back() == '\\') {
                     // Remove the backslash and add the line to the buffer
                     nextLine.pop_back();
                     fullLine += nextLine + '\n';
-- 
2.43.0


From d3d22939b4cd66c1c43d839e50a2425c6466ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 19/79] fix: a statement which fails with an exception is
 reported and leaves the session usable

---
 src/lang/interpreter.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 5a202fa..5d1372d 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -36,8 +36,13 @@ namespace happyml {
             // but we won't do it here because we don't know if the session
             // state would impact how it made its prediction.
             auto executable = parseResult->getExecutable();
-            auto result = executable->execute(executionContext);
-            // TODO: handle errors
+            shared_ptr<ExecutionResult> result;
+            try {
+                result = executable->execute(executionContext);
+            } catch (const std::exception &e) {
+                // a statement that fails doesn't end the session
+                result = make_shared<ExecutionResult>(false, false, e.what());
+            }
             if (!result->isSuccessful()) {
                 // print error
                 cerr << result->getMessage() << endl;
-- 
2.43.0


From 0223df6aad3fc41702867c3a36804d1269ca941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 20/79] fix: a script file which can't be read is reported

---
 src/lang/interpreter.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 5d1372d..fbdf7fc 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -55,6 +55,10 @@ namespace happyml {
             try {
                 ifstream stream;
                 stream.open(filePath, ifstream::in);
+                if (!stream.is_open()) {
+                    cerr << "Failed to load: " << filePath << endl;
+                    return false;
+                }
                 stringstream fullText;
                 fullText << stream.rdbuf();
                 try {
-- 
2.43.0


From c5d8b97ed4ebcdb72025da235fc4bc39f875329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 21/79] fix: nothing is executed after exit

---
 src/lang/statements/code_block_statement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/statements/code_block_statement.hpp b/src/lang/statements/code_block_statement.hpp
index 2f03fcd..f18270b 100644
--- a/src/lang/statements/code_block_statement.hpp
+++ b/src/lang/statements/code_block_statement.hpp
@@ -24,7 +24,7 @@ namespace happyml {
                 lastResult = child->execute(context);
                 // We are discarding all results but the last one. This is fine for handling errors, but
                 // I'm not sure if we should use them for anything. I don't need them now, so this is fine.
-                if (!lastResult->isSuccessful()) {
+                if (!lastResult->isSuccessful() || lastResult->exitRequested()) {
                     break;
                 }
             }
-- 
2.43.0


From 3f5bd102f7d4bc68a029a76bbdd6b03c67e80618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 22/79] fix: numbers too small for 8 bits kept neither their
 sign nor their value on conversion

---
 src/types/quarter_float.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types/quarter_float.hpp b/src/types/quarter_float.hpp
index 9f8a0cf..a903a99 100644
--- a/src/types/quarter_float.hpp
+++ b/src/types/quarter_float.hpp
@@ -98,10 +98,14 @@ namespace happyml {
         const uint32_t clamped_exponent = (exponent < 0xF) * exponent + (exponent == 0xF) * 0xE;
         const uint32_t clamped_mantissa = ((!clamped) * rounded_mantissa) + (clamp_top * 0x7);
         const uint32_t prepped_bits = (sign << 7) | (clamped_exponent << 3) | (clamped_mantissa & 0x7);
+        // the value used for tiny numbers must itself convert back to tiny at every bias
+        const int32_t lowest_tiny_exponent = (bias > 11) * -1 + (bias <= 11) * (-12 + bias);
         const uint32_t special_case_tiny =
-                encoded_value && (!prepped_bits && adjusted_exponent >= (-12 + bias)); // -5 rounds nearest
+                encoded_value && (!prepped_bits && adjusted_exponent >= lowest_tiny_exponent); // -5 rounds nearest
+        // 0b10000000 is taken by the (positive) tiny number, so a negative number that is too small is zero
+        const uint32_t negative_zero = prepped_bits == 0b10000000;
         const uint32_t result_bits = (special_case_tiny) * 0b10000000 +
-                                     (!special_case_tiny) * prepped_bits;
+                                     (!special_case_tiny && !negative_zero) * prepped_bits;
 
         return (encoded_value == FLOAT_NEG_NAN || encoded_value == FLOAT_POS_NAN) * QUARTER_NAN +
                (encoded_value == FLOAT_INF) * QUARTER_POS_INFINITY
-- 
2.43.0


From e05f985381b9ac95fcb66eb6efc52852ac4d89cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 23/79] fix: training a byte pair encoder on an empty token
 read out of bounds

---
 src/ml/byte_pair_encoder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1ed6c8e..1a4245d 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -451,7 +451,7 @@ namespace happyml {
                 // in a more compact vocabulary the second call to train()
                 // It LOOKS like it works, which is why I'm leaving it in.
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     // If the character pair is already in the vocab unordered_map, increment its frequency; otherwise, add it to the vocab unordered_map with a frequency of 1.
                     auto exiting_entry = vocab.find(
@@ -619,7 +619,7 @@ namespace happyml {
                     char c = buffer[i];
                     append_character(c, last_char, token, [&vocab, this](const std::string &new_token) {
                         u16string line16 = this->encode(new_token);
-                        for (size_t i = 0; i < line16.size() - 1; ++i) {
+                        for (size_t i = 0; i + 1 < line16.size(); ++i) {
                             u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                             auto existing_entry = vocab.find(pair);
                             if (existing_entry != vocab.end()) {
@@ -635,7 +635,7 @@ namespace happyml {
             // Process any remaining data after the buffer read
             if (!token.empty()) {
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     auto existing_entry = vocab.find(pair);
                     if (existing_entry != vocab.end()) {
-- 
2.43.0


From 233b088b01978e3405c99f03997daaaf024f0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 24/79] fix: loading byte pair codes kept the encoder's old
 codes and lost its largest code

---
 src/ml/byte_pair_encoder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1a4245d..c81f9fc 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -557,6 +557,7 @@ namespace happyml {
             uint16_t delimiter_code = 0;
             file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code));
             setDelimiterCode(delimiter_code);
+            ordered_bpe_codes_.clear();
 
             while (!file.eof()) {
                 pair<u16string, u16string> code_pair;
@@ -574,6 +575,9 @@ namespace happyml {
                 }
 
                 if (!file.eof()) {
+                    uint16_t const next = std::max(find_max_16bit_value(code_pair.first),
+                                                   find_max_16bit_value(code_pair.second)) + 1;
+                    next_code_ = std::max(next, next_code_);
                     ordered_bpe_codes_.push_back(std::move(code_pair));
                 }
             }
-- 
2.43.0


From e42e89af4ba38a9cbaceb9e0efc654af470ca78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 25/79] fix: one hot encoding wrote past the end of its vectors

---
 src/util/one_hot_encoder.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 0caf61a..f8d1035 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -39,7 +39,7 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(largest_bpe_code, 0.0);
-                if (c <= largest_bpe_code) {
+                if (c < largest_bpe_code) {
                     encoded_chars[c] = 1.0;
                 }
                 encoded_tokens.push_back(encoded_chars);
@@ -56,7 +56,10 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(255, 0.0);
-                encoded_chars[c] = 1.0;
+                const auto index = static_cast<unsigned char>(c);
+                if (index < encoded_chars.size()) {
+                    encoded_chars[index] = 1.0;
+                }
                 encoded_tokens.push_back(encoded_chars);
             }
         }
-- 
2.43.0


From 0d1de58399242a0f3022ea55018a4c3463b958e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 26/79] fix: inserting a key the cache already held evicted
 other entries

---
 src/util/lru_cache.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/lru_cache.h b/src/util/lru_cache.h
index 08b50dd..6bbb34d 100644
--- a/src/util/lru_cache.h
+++ b/src/util/lru_cache.h
@@ -22,6 +22,16 @@ namespace happyml {
         }
 
         void insert(const Key &key, const Value &value) {
+            auto existing = cache_map_.find(key);
+            if (existing != cache_map_.end()) {
+                // Replace the value, and make the entry the most recently used
+                existing->second.first = value;
+                lru_list_.splice(lru_list_.begin(), lru_list_, existing->second.second);
+                return;
+            }
+            if (capacity_ == 0) {
+                return;
+            }
             if (cache_map_.size() >= capacity_) {
                 // Remove the least recently used entry
                 Key least_recent = lru_list_.back();
-- 
2.43.0


From 5ad0406b141a93775733e08603854596685ecc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 27/79] fix: the last error to reach a branching node was
 counted twice

---
 src/ml/neural_network_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index dc2d625..8374e70 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -244,7 +244,7 @@ namespace happyml {
                             break;
                         }
                         if (sum == nullptr) {
-                            sum = make_shared<AddTensorView>(prior_error, output_conn->prior_error);
+                            sum = output_conn->prior_error;
                         } else {
                             sum = make_shared<AddTensorView>(sum, output_conn->prior_error);
                         }
-- 
2.43.0


From 2d432587697b22940501183898e69ea521bd4848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 28/79] fix: a node shared by several outputs or branches was
 updated more than once per batch

---
 src/ml/neural_network.hpp      |  3 ++-
 src/ml/neural_network_node.hpp | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 0eb9e58..1f68fe6 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -488,8 +488,9 @@ namespace happyml {
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
                         size_t currentBatch = ceil(current_record / batchSize);
+                        std::unordered_set<void *> applied;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
-                            outputNodes[outputIndex]->apply(optimizer);
+                            outputNodes[outputIndex]->apply(optimizer, applied);
                         }
                         batchLoss /= (float) batchOffset;
                         epochTrainingLoss += (batchLoss - epochTrainingLoss) / (float) currentBatch;
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 8374e70..ee3933b 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -184,11 +184,20 @@ namespace happyml {
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) {
+            std::unordered_set<void *> visited;
+            apply(optimizer, visited);
+        }
+
+        // A node can be reached through several of its outputs, but it must only be updated once per batch.
+        void apply(const shared_ptr<BaseOptimizer> &optimizer, std::unordered_set<void *> &visited) {
+            if (!visited.insert((void *) this).second) {
+                return;
+            }
             neuralNetworkFunction->apply(optimizer);
             for (const auto &inputConnection: connectionInputs) {
                 const auto conn = inputConnection.lock();
                 const auto from = conn->from.lock();
-                from->apply(optimizer);
+                from->apply(optimizer, visited);
             }
             saved = false;
         }
-- 
2.43.0


From d005eaa429dbe868fc3d96232c6b4b7b35b415cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 29/79] fix: epoch training loss was wrong when the last batch
 was partial

---
 src/ml/neural_network.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 1f68fe6..77893bc 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -422,6 +422,9 @@ namespace happyml {
                 //  set. If they are, give a warning.
             }
             auto total_records = trainingDataset->recordCount();
+            if (batchSize < 1) {
+                throw runtime_error("Batch Size must be at least 1.");
+            }
             if (batchSize > total_records) {
                 throw runtime_error("Batch Size cannot be larger than trainingDataset data set.");
             }
@@ -487,13 +490,14 @@ namespace happyml {
 
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
-                        size_t currentBatch = ceil(current_record / batchSize);
+                        size_t currentBatch = (current_record + batchSize - 1) / batchSize;
                         std::unordered_set<void *> applied;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
                             outputNodes[outputIndex]->apply(optimizer, applied);
                         }
                         batchLoss /= (float) batchOffset;
-                        epochTrainingLoss += (batchLoss - epochTrainingLoss) / (float) currentBatch;
+                        // weighted by the number of records, because the last batch may be smaller than the others
+                        epochTrainingLoss += (batchLoss - epochTrainingLoss) * ((float) batchOffset / (float) current_record);
                         batchLoss = 0.f;
 
                         auto elapsedTime = batchTimer.peekMilliseconds();
-- 
2.43.0


From 4e155720eacc77f54a348de5cf8319d79ec1e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 30/79] fix: the training time limit was compared with the time
 of a single epoch

---
 src/ml/neural_network.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 77893bc..bc1c62f 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -446,7 +446,6 @@ namespace happyml {
                 logTraining(0, 0, 0, ceil(total_records / batchSize), batchSize, 0, 0, 0, overwriteOutputLines);
             }
             size_t epoch = 0;
-            ElapsedTimer epochTimer;
             float epochTrainingLoss;
             float epochTestingLoss;
             int64_t trainingElapsedTimeInMilliseconds;
@@ -560,7 +559,7 @@ namespace happyml {
                 }
                 trainingDataset->restart();
                 epoch++;
-                trainingElapsedTimeInMilliseconds = epochTimer.getMilliseconds();
+                trainingElapsedTimeInMilliseconds = totalTimer.peekMilliseconds();
             } while (!exitStrategy->isDone(epoch, epochTestingLoss, trainingElapsedTimeInMilliseconds));
 
             if (!silentMode) {
-- 
2.43.0


From 6b7c5742e0ce54f0a4ae8652d18c04f2695a269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 31/79] fix: training a network a second time judged it by the
 losses of the first training

---
 src/ml/exit_strategy.hpp  | 9 +++++++++
 src/ml/neural_network.hpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/ml/exit_strategy.hpp b/src/ml/exit_strategy.hpp
index b4d0485..d0d3641 100644
--- a/src/ml/exit_strategy.hpp
+++ b/src/ml/exit_strategy.hpp
@@ -25,6 +25,10 @@ namespace happyml {
 
     class ExitStrategy {
     public:
+        // called when training starts, so a strategy can be used for more than one training
+        virtual void reset() {
+        }
+
         virtual bool isDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) = 0;
 
         virtual string whyDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) = 0;
@@ -59,6 +63,11 @@ namespace happyml {
             lowestLoss = INFINITY;
         }
 
+        void reset() override {
+            lowestLossEpoch = 0;
+            lowestLoss = INFINITY;
+        }
+
         bool isDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) override {
             if (loss + improvementTolerance <= lowestLoss) {
                 lowestLoss = min(loss, lowestLoss);
diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index bc1c62f..7d12fe6 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -446,6 +446,7 @@ namespace happyml {
                 logTraining(0, 0, 0, ceil(total_records / batchSize), batchSize, 0, 0, 0, overwriteOutputLines);
             }
             size_t epoch = 0;
+            exitStrategy->reset();
             float epochTrainingLoss;
             float epochTestingLoss;
             int64_t trainingElapsedTimeInMilliseconds;
-- 
2.43.0


From 7785070122ce27be5c1e2514fb68bb92242b69a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:19 +0000
Subject: [PATCH 32/79] fix: binary accuracy compared as many elements as there
 are outputs instead of all elements

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 7d12fe6..24fc2e8 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -299,7 +299,7 @@ namespace happyml {
                 for (int i = 0; i < testDataset->getExpectedShapes().size(); i++) {
                     auto best_prediction = prediction[i];
                     auto best_actual = actual[i];
-                    for (int j = 0; j < prediction.size(); j++) {
+                    for (int j = 0; j < best_actual->size(); j++) {
                         if (!roughlyEqual(std::round(best_prediction->getValue(j)), std::round(best_actual->getValue(j)))) {
                             matched_all = false;
                             break;
-- 
2.43.0


From 82eabd1423a76b13422b3eeda14f1f50c18d8c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:32 +0000
Subject: [PATCH 33/79] fix: a convolution layer applied every record of a
 batch as a full update instead of their average

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 24 ++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 61d6fb7..2773e57 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -163,17 +163,27 @@ namespace happyml {
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
             PROFILE_BLOCK(profileBlock);
 
+            if (weight_changes.empty()) {
+                return;
+            }
             const size_t filters = outputShape[2];
+            const auto batch_size = (float) weight_changes.size();
+            vector<shared_ptr<BaseTensor>> total_weight_changes = weight_changes.front();
+            weight_changes.pop();
             while (!weight_changes.empty()) {
-                vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
-                weight_changes.pop();
                 for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
-                    auto loss_gradient = weightChanges[outputLayer];
-                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
-                                                                                   weights[outputLayer],
-                                                                                   loss_gradient);
-                    weights[outputLayer] = materializeTensor(adjustedWeights, bits);
+                    total_weight_changes[outputLayer] = make_shared<AddTensorView>(total_weight_changes[outputLayer],
+                                                                                   weight_changes.front()[outputLayer]);
                 }
+                weight_changes.pop();
+            }
+            for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
+                const auto loss_gradient = materializeTensor(
+                        make_shared<ScalarDivideTensorView>(total_weight_changes[outputLayer], batch_size));
+                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                                                                               weights[outputLayer],
+                                                                               loss_gradient);
+                weights[outputLayer] = materializeTensor(adjustedWeights, bits);
             }
         }
 
-- 
2.43.0


From d1d655360c365459eaaf65b08262e5b91048473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:32 +0000
Subject: [PATCH 34/79] fix: all filters of a convolution layer shared one
 optimizer state

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 2773e57..828cc39 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -177,10 +177,15 @@ namespace happyml {
                 }
                 weight_changes.pop();
             }
+            // every filter has weights of its own, so the optimizer must track every filter separately
+            while (filter_registration_ids.size() < filters) {
+                filter_registration_ids.push_back(filter_registration_ids.empty() ? registration_id
+                                                                                  : optimizer->registerForWeightChanges());
+            }
             for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
                 const auto loss_gradient = materializeTensor(
                         make_shared<ScalarDivideTensorView>(total_weight_changes[outputLayer], batch_size));
-                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                const auto adjustedWeights = optimizer->calculateWeightsChange(filter_registration_ids[outputLayer],
                                                                                weights[outputLayer],
                                                                                loss_gradient);
                 weights[outputLayer] = materializeTensor(adjustedWeights, bits);
@@ -205,6 +210,7 @@ namespace happyml {
 
     private:
         int registration_id;
+        vector<int> filter_registration_ids;
         queue<shared_ptr<BaseTensor>> lastInputs; // each input in a batch will queue in order during forward, and deque properly when back-propagating
         queue<vector<shared_ptr<BaseTensor>>> weight_changes;
         vector<shared_ptr<BaseTensor>> weights;
-- 
2.43.0


From 28b7a8ba87edaea735625bfaeb7003a0385f8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 35/79] fix: connect and reload a network's layers in the order
 they were created

---
 src/ml/happyml_dsl.hpp | 138 +++++++++++++++++++++++------------------
 1 file changed, 79 insertions(+), 59 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index fb703bf..0bf30f1 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -110,9 +110,19 @@ namespace happyml {
             // and then it will add any edge records:
             // "edge", from id, to id, to id, to id...
 
+            map<uint32_t, shared_ptr<NNVertex>> vertexes;
+            for (const auto &head: inputReceptors) {
+                head->collectVertexes(vertexes);
+            }
+            for (const auto &vertex: vertexes) {
+                vertex.second->reset();
+            }
             for (const auto &head: inputReceptors) {
                 neuralNetwork->addHeadNode(head->buildLayer(neuralNetwork, networkMetadata));
             }
+            for (const auto &vertex: vertexes) {
+                vertex.second->connectInputs();
+            }
 
             neuralNetwork->setNetworkMetadata(networkMetadata);
             return neuralNetwork;
@@ -124,6 +134,10 @@ namespace happyml {
             return vertexUniqueSequenceCounter;
         }
 
+        void setNextVertexId(uint32_t vertexId) {
+            vertexUniqueSequenceCounter = vertexId - 1;
+        }
+
         // vertex aka node
         // todo: in a perfect world, instead of having multiple constructors
         //  where one is for full layers and one is for convolution layers
@@ -369,10 +383,30 @@ namespace happyml {
                 nne->from = shared_from_this();
                 nne->to = to;
                 edges.push_back(nne);
+                to->inputVertexes.push_back(shared_from_this());
             }
 
             void reset() {
                 this->first_node = nullptr;
+                this->final_node = nullptr;
+            }
+
+            // finds every vertex that can be reached from this one
+            void collectVertexes(map<uint32_t, shared_ptr<NNVertex>> &vertexes) {
+                if (!vertexes.emplace(vertexUniqueId, shared_from_this()).second) {
+                    return;
+                }
+                for (const auto &edge: edges) {
+                    edge->to->collectVertexes(vertexes);
+                }
+            }
+
+            // The order in which a node's inputs are connected matters to nodes that have more than one, because
+            // the order of their input shapes depends on it.
+            void connectInputs() {
+                for (const auto &inputVertex: inputVertexes) {
+                    inputVertex.lock()->final_node->add(first_node);
+                }
             }
 
             shared_ptr<NeuralNetworkForTraining> build() {
@@ -517,12 +551,20 @@ namespace happyml {
                 vector<string> edgeMetadata{"edge", asString(getVertexUniqueId())};
                 for (const auto &edge: edges) {
                     edgeMetadata.push_back(asString(edge->to->getVertexUniqueId()));
-                    auto childNode = edge->to->buildLayer(nn, networkMetadata);
-                    last_node->add(childNode);
+                    edge->to->buildLayer(nn, networkMetadata);
                 }
                 if (edgeMetadata.size() > 2) {
                     networkMetadata.push_back(edgeMetadata);
                 }
+                if (inputVertexes.size() > 1) {
+                    // "inputs", id, from id, from id...
+                    vector<string> inputMetadata{"inputs", asString(getVertexUniqueId())};
+                    for (const auto &inputVertex: inputVertexes) {
+                        inputMetadata.push_back(asString(inputVertex.lock()->getVertexUniqueId()));
+                    }
+                    networkMetadata.push_back(inputMetadata);
+                }
+                final_node = last_node;
                 return first_node;
             }
 
@@ -648,6 +690,7 @@ namespace happyml {
         private:
             weak_ptr<HappymlDSL> parent;
             vector<shared_ptr<NNEdge>> edges;
+            vector<weak_ptr<NNVertex>> inputVertexes; // in the order the edges to this vertex were added
             LayerType node_type;
             vector<vector<size_t>> inputShapes;
             vector<size_t> outputShape;
@@ -660,6 +703,7 @@ namespace happyml {
             float norm_clipping_threshold;
             uint8_t bits;
             shared_ptr<NeuralNetworkNode> first_node;
+            shared_ptr<NeuralNetworkNode> final_node;
             size_t kernel_size{};
             size_t filters{};
             bool producesOutput;
@@ -795,10 +839,8 @@ namespace happyml {
 
     void createVertexFromMetadata(const shared_ptr<HappymlDSL> &dsl,
                                   const vector<string> &vertexMetadata,
-                                  const shared_ptr<HappymlDSL::NNVertex> &parent,
-                                  map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> &createdVertexes,
-                                  map<uint32_t, vector<string>> &vertexes,
-                                  map<uint32_t, vector<uint32_t>> &edgeFromTo) {
+                                  const vector<shared_ptr<HappymlDSL::NNVertex>> &parents,
+                                  map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> &createdVertexes) {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
         // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
         const uint32_t vertexId = stoul(vertexMetadata[1]);
@@ -862,35 +904,14 @@ namespace happyml {
                 }
             }
         } else {
-            if (!parent) {
+            if (parents.empty()) {
                 throw runtime_error("missing parent");
             }
+            const auto &parent = parents[0];
 
             if (layerType == concatenate) {
-                // a concatenated layer has multiple parents.
-
-                // because layers are in the order they were originally created and the concatenation
-                // layer is last, if we are at this point, all parents should exist, we just need to find them
-                // I think the parent order should also be maintained
-                bool all_parents_exist = true;
-                vector<shared_ptr<HappymlDSL::NNVertex>> all_parents;
-                for (const auto &edge_pair: edgeFromTo) {
-                    auto edge_to_ids = edge_pair.second;
-                    // if edge_to_ids contains vertexId, then we need to add the parent to the concatenated layer
-                    if (std::find(edge_to_ids.begin(), edge_to_ids.end(), vertexId) != edge_to_ids.end()) {
-                        auto edge_from_id = edge_pair.first;
-                        if (createdVertexes.count(edge_from_id) == 0) {
-                            all_parents_exist = false;
-                            break;
-                        }
-                        auto edge_from_vertex = createdVertexes[edge_from_id];
-                        all_parents.push_back(edge_from_vertex);
-                    }
-                }
-                if (!all_parents_exist) {
-                    return;
-                }
-                createdVertexes[vertexId] = dsl->add_concatenated_layer(all_parents);
+                // a concatenated layer has multiple parents, and their order is the order of its inputs.
+                createdVertexes[vertexId] = dsl->add_concatenated_layer(parents);
             } else if (filters > 0) {
                 createdVertexes[vertexId] = parent->addLayer(filters,
                                                              kernels,
@@ -917,22 +938,6 @@ namespace happyml {
         createdVertexes[vertexId]->setNormClippingThreshold(clipping_threshold); // set this first because it would enable clipping
         createdVertexes[vertexId]->setUseNormClipping(use_clipping); // set this second because it could disable clipping if required
         createdVertexes[vertexId]->setDropoutRate(dropout_rate);
-
-        if (edgeFromTo.count(vertexId) > 0) {
-            auto edges = edgeFromTo[vertexId];
-            for (auto nextEdge: edges) {
-                if (vertexes.count(nextEdge) < 1) {
-                    throw runtime_error("Bad model definition. Edge not found!");
-                }
-                auto nextVertexMetadata = vertexes[nextEdge];
-                createVertexFromMetadata(dsl,
-                                         nextVertexMetadata,
-                                         createdVertexes[vertexId],
-                                         createdVertexes,
-                                         vertexes,
-                                         edgeFromTo);
-            }
-        }
     }
 
     shared_ptr<NeuralNetworkForTraining> loadNeuralNetworkForTraining(const string &modelName,
@@ -971,17 +976,17 @@ namespace happyml {
                 ->setLearningRate(learningRate)
                 ->setBiasLearningRate(biasLearningRate);
 
-        set<uint32_t> headVertexes;
         map<uint32_t, vector<string>> vertexes;
         map<uint32_t, vector<uint32_t>> edgeFromTo;
+        map<uint32_t, vector<uint32_t>> orderedInputs;
         while (configReader->hasNext()) {
             auto nextRecord = configReader->nextRecord();
             if (nextRecord[0] == "vertex") {
                 uint32_t vertexId = stoul(nextRecord[1]);
                 vertexes[vertexId] = nextRecord;
-                const auto acceptsInput = asBool(nextRecord[2]);
-                if (acceptsInput) {
-                    headVertexes.insert(vertexId);
+            } else if (nextRecord[0] == "inputs") {
+                for (size_t index = 2; index < nextRecord.size(); index++) {
+                    orderedInputs[stoul(nextRecord[1])].push_back(stoul(nextRecord[index]));
                 }
             } else {
                 uint32_t fromLabel = stoul(nextRecord[1]);
@@ -994,14 +999,29 @@ namespace happyml {
             }
         }
         map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> createdVertexes;
-        for (auto headVertexId: headVertexes) {
-            auto vertexMetadata = vertexes[headVertexId];
-            createVertexFromMetadata(dsl,
-                                     vertexMetadata,
-                                     nullptr,
-                                     createdVertexes,
-                                     vertexes,
-                                     edgeFromTo);
+        map<uint32_t, vector<uint32_t>> edgeToFrom = orderedInputs;
+        for (const auto &edge: edgeFromTo) {
+            for (auto toId: edge.second) {
+                if (vertexes.count(edge.first) < 1 || vertexes.count(toId) < 1) {
+                    throw runtime_error("Bad model definition. Edge not found!");
+                }
+                if (orderedInputs.count(toId) < 1) {
+                    edgeToFrom[toId].push_back(edge.first);
+                }
+            }
+        }
+        // The ids are given out in the order that vertexes are created, and knowledge is saved by id, so
+        // we must create the vertexes in their original order and with their original ids.
+        for (const auto &vertex: vertexes) {
+            vector<shared_ptr<HappymlDSL::NNVertex>> parents;
+            for (auto fromId: edgeToFrom[vertex.first]) {
+                if (createdVertexes.count(fromId) < 1) {
+                    throw runtime_error("Bad model definition. Edge not found!");
+                }
+                parents.push_back(createdVertexes[fromId]);
+            }
+            dsl->setNextVertexId(vertex.first);
+            createVertexFromMetadata(dsl, vertex.second, parents, createdVertexes);
         }
 
         auto resultNeuralNetwork = dsl->build();
-- 
2.43.0


From 872209ec46383394f395f7d38d067089cceaefb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 36/79] fix: give a dropout layer the rate it was asked for

---
 src/ml/happyml_dsl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 0bf30f1..68408c8 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -353,6 +353,7 @@ namespace happyml {
                                                  this->outputShape,
                                                  false, false,
                                                  ActivationType::linear, parentObject->nextVertexId());
+                nnv->setDropoutRate(dropout_rate);
                 addEdge(nnv);
                 return nnv;
             }
-- 
2.43.0


From d5dc80b70c1f224c75875eb31b07cdf5b50aac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 37/79] fix: keep a model saved without overwriting together in
 its new place

---
 src/ml/neural_network.hpp |  6 +++---
 src/util/data_util.hpp    | 13 +++++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 24fc2e8..5d099d2 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -225,8 +225,8 @@ namespace happyml {
                     auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
                             chrono::system_clock::now().time_since_epoch()).count());
                     canonicalModelPath += "_" + ms;
-                    cerr << canonicalModelPath << endl;
-                    modelPath = canonicalModelPath.generic_string();
+                    modelPath = unused_path(canonicalModelPath.generic_string());
+                    cerr << modelPath << endl;
                 } else {
                     filesystem::remove_all(modelPath);
                 }
@@ -238,7 +238,7 @@ namespace happyml {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelFolderPath, "default", overwrite);
+            saveKnowledge(modelPath, "default", overwrite);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
diff --git a/src/util/data_util.hpp b/src/util/data_util.hpp
index 6ebc719..74406e3 100644
--- a/src/util/data_util.hpp
+++ b/src/util/data_util.hpp
@@ -33,6 +33,15 @@ namespace happyml {
         return ss.str();
     }
 
+    // two saves can happen in the same millisecond
+    string unused_path(const string &path) {
+        string result = path;
+        for (size_t attempt = 2; filesystem::exists(result); attempt++) {
+            result = path + "_" + to_string(attempt);
+        }
+        return result;
+    }
+
     string initialize_knowledge_path_directory(const string &modelFolderPath, const string &knowledgeLabel, bool overwrite) {
         string fullKnowledgePath = modelFolderPath + "/" + knowledgeLabel;
         if (filesystem::is_directory(fullKnowledgePath)) {
@@ -43,8 +52,8 @@ namespace happyml {
                 auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
                         chrono::system_clock::now().time_since_epoch()).count());
                 canonicalFullKnowledgePath += "_" + ms;
-                cerr << canonicalFullKnowledgePath << endl;
-                fullKnowledgePath = canonicalFullKnowledgePath.generic_string();
+                fullKnowledgePath = unused_path(canonicalFullKnowledgePath.generic_string());
+                cerr << fullKnowledgePath << endl;
             } else {
                 filesystem::remove_all(fullKnowledgePath);
             }
-- 
2.43.0


From 11321cc91da28cb30075a7c56d4a33f45bf03408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 38/79] fix: save the settings of a model with their full
 precision

---
 src/util/portable_bytes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/portable_bytes.hpp b/src/util/portable_bytes.hpp
index 6a7d8ab..47a35b4 100644
--- a/src/util/portable_bytes.hpp
+++ b/src/util/portable_bytes.hpp
@@ -73,7 +73,7 @@ std::string asString(uint64_t i) {
 
 std::string asString(double d) {
     std::stringstream ss;
-    ss << std::fixed << std::setprecision(15) << d;
+    ss << std::setprecision(17) << d;
     return ss.str();
 }
 
-- 
2.43.0


From 87fc073a2af2fa01368a4a3d56e383b54bd8bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 39/79] fix: flatten and unflatten every channel of a layer's
 input

---
 src/ml/layers/flatten_layer.hpp                |  9 ++++++---
 src/types/tensor_views/reshape_tensor_view.hpp | 16 ++++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ml/layers/flatten_layer.hpp b/src/ml/layers/flatten_layer.hpp
index 9aab991..7974149 100644
--- a/src/ml/layers/flatten_layer.hpp
+++ b/src/ml/layers/flatten_layer.hpp
@@ -18,7 +18,8 @@ namespace happyml {
             const auto &nextInput = input[0];
             originalCols = nextInput->columnCount();
             originalRows = nextInput->rowCount();
-            if (originalRows == 1) {
+            originalChannels = nextInput->channelCount();
+            if (originalRows == 1 && originalChannels == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return nextInput;
             }
@@ -27,16 +28,18 @@ namespace happyml {
 
         vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
             PROFILE_BLOCK(profileBlock);
-            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount()) {
+            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount() &&
+                originalChannels == output_error->channelCount()) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return {output_error};
             }
-            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
+            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols, originalChannels)};
         }
 
     private:
         size_t originalRows{};
         size_t originalCols{};
+        size_t originalChannels{};
     };
 }
 #endif //HAPPYML_FLATTEN_LAYER_HPP
diff --git a/src/types/tensor_views/reshape_tensor_view.hpp b/src/types/tensor_views/reshape_tensor_view.hpp
index 10db4d9..4874661 100644
--- a/src/types/tensor_views/reshape_tensor_view.hpp
+++ b/src/types/tensor_views/reshape_tensor_view.hpp
@@ -10,19 +10,17 @@
 #include <execution>
 
 namespace happyml {
-// Change the number of rows and columns, but maintain the same number of elements per channel.
-// You cannot change the number of channels in the current implementation.
+// Change the number of rows, columns, and channels, but maintain the same number of elements.
+// If the number of channels isn't given, it stays the same.
     class ReshapeTensorView : public BaseTensorUnaryOperatorView {
     public:
         ReshapeTensorView(const shared_ptr<BaseTensor> &tensor, const size_t rows,
                           const size_t columns, const size_t channels) : BaseTensorUnaryOperatorView(tensor) {
             this->rows = rows;
             this->columns = columns;
-            if (channels != tensor->channelCount()) {
-                throw runtime_error("A tensor view must be put over a tensor with the same number of channels.");
-            }
+            this->channels = channels;
             this->elements_per_channel = (unsigned long) rows * (unsigned long) columns;
-            if (tensor->elementsPerChannel() != elements_per_channel) {
+            if (tensor->size() != elements_per_channel * channels) {
                 throw runtime_error("A tensor view must be put over a tensor with the same number of elements.");
             }
         }
@@ -31,6 +29,7 @@ namespace happyml {
                           const size_t columns) : BaseTensorUnaryOperatorView(tensor) {
             this->rows = rows;
             this->columns = columns;
+            this->channels = tensor->channelCount();
             this->elements_per_channel = (unsigned long) rows * (unsigned long) columns;
             if (tensor->elementsPerChannel() != elements_per_channel) {
                 throw runtime_error("A tensor view must be put over a tensor with the same number of elements.");
@@ -50,6 +49,10 @@ namespace happyml {
             return columns;
         }
 
+        size_t channelCount() override {
+            return channels;
+        }
+
         float getValue(size_t row, size_t column, size_t channel) override {
             const unsigned long position_offset = ((row * columns) + column) + (channel * elements_per_channel);
             return child_->getValue(position_offset);
@@ -58,6 +61,7 @@ namespace happyml {
     private:
         size_t rows;
         size_t columns;
+        size_t channels;
         unsigned long elements_per_channel;
     };
 }
-- 
2.43.0


From c0df003b62ad164287987de65c3336c6403de503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 40/79] fix: send each input channel its own error back from a
 convolution layer

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 828cc39..36fa837 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -156,8 +156,7 @@ namespace happyml {
 
             weight_changes.push(output_layers_weight_changes);
 
-            const auto resultError = make_shared<SumChannelsTensorView>(inputError);
-            return {resultError};
+            return {inputError};
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
-- 
2.43.0


From e12c0ff4577a2cbfc15e0978834a06cddde6383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 41/79] fix: flatten the input of a full layer that has several
 channels but one row

---
 src/ml/happyml_dsl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 68408c8..3d77750 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -453,7 +453,7 @@ namespace happyml {
                 shared_ptr<NeuralNetworkNode> last_node = nullptr;
                 if (node_type == LayerType::full) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
+                    if (inputShape[0] > 1 || inputShape[2] > 1) {
                         auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
                         last_node = appendNode(last_node, flatten_node);
                     }
-- 
2.43.0


From f3b8019147652604c0b62906b1d0f4bcd94ea940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 42/79] fix: keep the declared shape of a dropout layer's
 output

---
 src/ml/happyml_dsl.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 3d77750..aeec11a 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -489,10 +489,6 @@ namespace happyml {
                     next_node = make_shared<NeuralNetworkNode>(make_shared<NormalizationLayer>());
                 } else if (node_type == LayerType::dropout) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
-                        auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
-                        last_node = appendNode(last_node, flatten_node);
-                    }
                     string dropoutNodeLabel = asString(vertexUniqueId) + "_dropout";
                     next_node = make_shared<NeuralNetworkNode>(make_shared<DropoutLayer>(dropoutNodeLabel, inputShape, dropout_rate));
                 } else if (node_type == LayerType::convolution2dValid) {
-- 
2.43.0


From 715ad62d287b7f8dcb2c9b0a387bb450c815efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 43/79] fix: scale a dropout layer's predictions to match its
 training

---
 src/ml/layers/dropout_layer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/layers/dropout_layer.hpp b/src/ml/layers/dropout_layer.hpp
index 5876c1f..ccf6fb5 100644
--- a/src/ml/layers/dropout_layer.hpp
+++ b/src/ml/layers/dropout_layer.hpp
@@ -16,7 +16,8 @@ namespace happyml {
             if (dropout_rate < 0.0 || dropout_rate > 1.0) {
                 throw runtime_error("DropoutLayer: dropout rate must be between 0 and 1.");
             }
-            forward_scale_ = 1.0f / (1.0f - dropout_rate_);
+            // while training, only this fraction of the inputs is passed on
+            forward_scale_ = 1.0f - dropout_rate_;
             output_shape_ = input_shape_;
         }
 
-- 
2.43.0


From f8e869097a7a597c3fd74b6ffb5abdb354777173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 44/79] fix: keep a convolution layer's weights when knowledge
 fails to load

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 36fa837..0f78ced 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -43,13 +43,14 @@ namespace happyml {
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
-            this->weights = {};
+            vector<shared_ptr<BaseTensor>> loadedWeights;
             auto filters = outputShape[2];
             for (size_t next_weight_layer = 0; next_weight_layer < filters; next_weight_layer++) {
                 string path = fullKnowledgePath + "/" + label + "_" + asString(next_weight_layer) + ".tensor";
                 auto matrix = make_shared<FullTensor>(path);
-                this->weights.push_back(matrix);
+                loadedWeights.push_back(matrix);
             }
+            this->weights = loadedWeights;
         }
 
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
-- 
2.43.0


From ba9e20ab1df52487c7341f6bdd13af90a8194abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:55 +0000
Subject: [PATCH 45/79] fix: fail to load a tensor file that is missing or cut
 short

---
 src/types/tensor_impls/full_tensor.hpp    | 1 +
 src/types/tensor_impls/half_tensor.hpp    | 1 +
 src/types/tensor_impls/pixel_tensor.hpp   | 1 +
 src/types/tensor_impls/quarter_tensor.hpp | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/types/tensor_impls/full_tensor.hpp b/src/types/tensor_impls/full_tensor.hpp
index c1fce49..7a0d15d 100644
--- a/src/types/tensor_impls/full_tensor.hpp
+++ b/src/types/tensor_impls/full_tensor.hpp
@@ -119,6 +119,7 @@ namespace happyml {
         explicit FullTensor(const string &fileName) {
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/half_tensor.hpp b/src/types/tensor_impls/half_tensor.hpp
index a2b3cb0..6ea4352 100644
--- a/src/types/tensor_impls/half_tensor.hpp
+++ b/src/types/tensor_impls/half_tensor.hpp
@@ -56,6 +56,7 @@ namespace happyml {
         explicit HalfTensor(const string &fileName) {
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/pixel_tensor.hpp b/src/types/tensor_impls/pixel_tensor.hpp
index b3530fd..a9a1eb3 100644
--- a/src/types/tensor_impls/pixel_tensor.hpp
+++ b/src/types/tensor_impls/pixel_tensor.hpp
@@ -78,6 +78,7 @@ namespace happyml {
         explicit PixelTensor(const string &fileName) {
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
diff --git a/src/types/tensor_impls/quarter_tensor.hpp b/src/types/tensor_impls/quarter_tensor.hpp
index 3f05ab3..0729143 100644
--- a/src/types/tensor_impls/quarter_tensor.hpp
+++ b/src/types/tensor_impls/quarter_tensor.hpp
@@ -59,6 +59,7 @@ namespace happyml {
             this->bias = bias;
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit);
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
-- 
2.43.0


From 7933991a122f6036be97623bd7eba3d8ea8138e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:16 +0000
Subject: [PATCH 46/79] fix: save a model that was never saved before where it
 belongs

---
 src/ml/neural_network.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 5d099d2..992816a 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -212,7 +212,8 @@ namespace happyml {
 
         void saveAs(const string &modelFolderPath, bool overwrite) {
             auto modelPath = modelFolderPath;
-            if (filesystem::is_directory(modelPath)) {
+            // training leaves an empty directory behind, and there is nothing in it to protect
+            if (filesystem::is_directory(modelPath) && !filesystem::is_empty(modelPath)) {
                 if (!overwrite) {
                     // I don't want to throw an exception here since training a model can take a long time
                     // and people would be upset about losing their work, so we'll just save to a new location.
-- 
2.43.0


From d5de47228c31d4e89fc69a7b8811e6bebcda4f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:33 +0000
Subject: [PATCH 47/79] fix: regularize a convolution layer by its weights
 rather than by its error

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 0f78ced..2be3a92 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -144,7 +144,7 @@ namespace happyml {
                                                                                                             outputErrorForLayer);
                     if (use_l2_regularization) {
                         PROFILE_BLOCK(profileBlock2);
-                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(nextWeightError, regularization_strength);
+                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(weightForInputLayer, regularization_strength);
                         nextWeightError = make_shared<AddTensorView>(nextWeightError, l2_regularization);
                     }
                     const auto nextWeightToInputChannel = make_shared<SumToChannelTensorView>(nextWeightError,
-- 
2.43.0


From c85173ac6a5c83772723acfdabc14098be3053b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 48/79] fix: read a tensor's row from the requested channel

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index aa54f1b..ba05a07 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -203,7 +203,7 @@ namespace happyml {
             vector<float> nextRow;
             size_t columnCount1 = columnCount();
             for (size_t col = 0; col < columnCount1; col++) {
-                nextRow.push_back(getValue(row, col, 0));
+                nextRow.push_back(getValue(row, col, channel));
             }
             return nextRow;
         }
-- 
2.43.0


From 58a4ee6ee2582d31f350b0e51022dbe2f708da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 49/79] fix: select the third tensor's values where the mask
 does not hold

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index ba05a07..a4ff99d 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -737,7 +737,7 @@ namespace happyml {
                                                const shared_ptr<BaseTensor> &tensor3) {
             this->left_child_ = tensor1;
             this->middle_child_ = tensor2;
-            this->right_child_ = tensor2;
+            this->right_child_ = tensor3;
         }
 
         bool contains(const shared_ptr<BaseTensor> &other) override {
-- 
2.43.0


From 4b7b581833eb08e34ba80b8b72697c6d8172f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 50/79] fix: the euclidean norm of a zero tensor was not a
 number

---
 src/types/base_tensors.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index a4ff99d..9047040 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -452,6 +452,9 @@ namespace happyml {
             const size_t cols = columnCount();
             const size_t maxChannels = channelCount();
             auto max_abs_val = (double) max_abs();
+            if (max_abs_val == 0.0) {
+                return 0.0f;
+            }
             for (size_t channel = 0; channel < maxChannels; channel++) {
                 for (size_t row = 0; row < rows; row++) {
                     for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From c3d96523f8cf35e7d639fa89bf0f704c3f324401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 51/79] fix: standardize a tensor by its own mean and standard
 deviation

---
 src/types/tensor_views/standardize_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index cadb636..6b67367 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -19,7 +19,7 @@ namespace happyml {
             for (size_t element = 0; element < total_elements; ++element) {
                 double value = tensor->getValue(element);
                 double delta = value - mean;
-                mean += delta / total_elements;
+                mean += delta / (double) (element + 1);
                 double delta2 = value - mean;
                 M2 += delta * delta2;
             }
-- 
2.43.0


From a99bb8b72ca9fdf3214142ef920e495193727d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 52/79] fix: divide matrices by multiplying rows with columns
 of the inverse

---
 src/types/tensor_views/matrix_divide_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/matrix_divide_tensor_view.hpp b/src/types/tensor_views/matrix_divide_tensor_view.hpp
index 58b177a..491e642 100644
--- a/src/types/tensor_views/matrix_divide_tensor_view.hpp
+++ b/src/types/tensor_views/matrix_divide_tensor_view.hpp
@@ -49,7 +49,7 @@ namespace happyml {
             // Compute the inverse of the right_child_ matrix for the given row, column, channel
             float val = 0;
             for (size_t col = 0; col < left_child_->columnCount(); col++) {
-                val += left_child_->getValue(row, col, channel) * right_child_->getValue(row, col, channel);
+                val += left_child_->getValue(row, col, channel) * right_child_->getValue(col, column, channel);
             }
             return val;
         }
-- 
2.43.0


From b8c5187cc0ec26d0e4c5f05dcf94c178f7a9347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 53/79] fix: pad a full cross correlation by one less than the
 size of its kernel

---
 .../full_2d_cross_correlation_tensor_view.hpp        | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
index 4e5fae2..b636261 100644
--- a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
@@ -25,14 +25,10 @@ namespace happyml {
         Full2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : Valid2DCrossCorrelationTensorView(
                 make_shared<ZeroPadTensorView>(tensor,
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0)),
+                                                           kernel->rowCount() - 1,
+                                                           kernel->rowCount() - 1,
+                                                           kernel->columnCount() - 1,
+                                                           kernel->columnCount() - 1),
                 kernel) {
         }
 
-- 
2.43.0


From 4bedfbdaf2f9fb28ba4775d218b75794f09e853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 54/79] fix: a normalization layer's error did not follow its
 derivative

---
 src/ml/layers/normalization_layer.hpp         |  8 ++--
 .../standardize_derivative_tensor_view.hpp    | 37 +++++++++----------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/ml/layers/normalization_layer.hpp b/src/ml/layers/normalization_layer.hpp
index 199046c..816b22b 100644
--- a/src/ml/layers/normalization_layer.hpp
+++ b/src/ml/layers/normalization_layer.hpp
@@ -30,7 +30,8 @@ namespace happyml {
 
             shared_ptr<StandardizeTensorView> normTensor = make_shared<StandardizeTensorView>(inputTensor);
             if (forTraining) {
-                lastInput = normTensor;
+                lastInput = inputTensor;
+                lastOutput = normTensor;
             }
 #ifdef DEBUG_TRAIN_NAN
             if (normTensor->hasNaNOrInf()) {
@@ -48,7 +49,7 @@ namespace happyml {
                 throw runtime_error("No inputs to backpropagate through.");
             }
 
-            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastInput->get_mean(), lastInput->get_std_dev());
+            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastOutput->get_mean(), lastOutput->get_std_dev());
 #ifdef DEBUG_TRAIN_NAN
             if (normDerivativeTensor->hasNaNOrInf()) {
                 normDerivativeTensor->print();
@@ -60,7 +61,8 @@ namespace happyml {
         }
 
     private:
-        shared_ptr<StandardizeTensorView> lastInput;
+        shared_ptr<BaseTensor> lastInput;
+        shared_ptr<StandardizeTensorView> lastOutput;
     };
 
 }
diff --git a/src/types/tensor_views/standardize_derivative_tensor_view.hpp b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
index df49a40..5875b52 100644
--- a/src/types/tensor_views/standardize_derivative_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
@@ -18,28 +18,24 @@ namespace happyml {
     public:
         explicit StandardizeDerivativeTensorView(const shared_ptr<BaseTensor> &d_output, const shared_ptr<BaseTensor> &input, float mean, float std_dev)
                 : BaseTensorUnaryOperatorView(d_output), mean_(mean), std_dev_(std_dev), input_(input) {
-            total_elements_ = input->size();
+            const size_t total_elements = input->size();
+            double sum_d_output = 0.0;
+            double sum_d_output_standardized = 0.0;
+            for (size_t element = 0; element < total_elements; element++) {
+                const double d_output_value = d_output->getValue(element);
+                sum_d_output += d_output_value;
+                sum_d_output_standardized += d_output_value * (input->getValue(element) - mean) / std_dev;
+            }
+            mean_d_output_ = (float) (sum_d_output / (double) total_elements);
+            mean_d_output_standardized_ = (float) (sum_d_output_standardized / (double) total_elements);
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-            // get corresponding values
-            float d_output_value = child_->getValue(row, column, channel);
-            float input_value = input_->getValue(row, column, channel);
-
-            // calculate common part
-            float common = d_output_value / (std_dev_ * (float) total_elements_);
-
-            // calculate three parts of gradient
-            float dx1 = d_output_value / std_dev_;
-            float dx2 = -common * (input_value - mean_);
-
-            // Recompute common with square of difference
-            float diff = input_value - mean_;
-            common = d_output_value * diff / (std_dev_ * std_dev_ * std_dev_ * (float) total_elements_);
-            float dx3 = - (float) total_elements_ * diff * common;
-
-            // return total gradient
-            return dx1 + dx2 + dx3;
+            // every input moves the mean and the standard deviation, so we remove the part of
+            // the output's gradient that those absorb
+            const float d_output_value = child_->getValue(row, column, channel);
+            const float standardized = (input_->getValue(row, column, channel) - mean_) / std_dev_;
+            return (d_output_value - mean_d_output_ - standardized * mean_d_output_standardized_) / std_dev_;
         }
 
         void printMaterializationPlan() override {
@@ -51,7 +47,8 @@ namespace happyml {
         float mean_;
         float std_dev_;
         shared_ptr<BaseTensor> input_;
-        size_t total_elements_;
+        float mean_d_output_;
+        float mean_d_output_standardized_;
     };
 }
 
-- 
2.43.0


From 9753ae52671e496443cdbcd78d66d1b5dcac7c53 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 03:05:45 +0000
Subject: [PATCH 55/79] fix: the derivative of the mean absolute error pointed
 away from the truth

---
 src/ml/losses/mae_loss.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ml/losses/mae_loss.hpp b/src/ml/losses/mae_loss.hpp
index c872257..7021392 100644
--- a/src/ml/losses/mae_loss.hpp
+++ b/src/ml/losses/mae_loss.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_MAE_LOSS_HPP
 
 #include "../../types/tensor_views/absolute_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as L1 loss
@@ -32,8 +33,9 @@ namespace happyml {
             shared_ptr<BaseTensor> accumulatedLossDerivative;
             // Derivative of mean absolute error = sign(prediction_i - truth_i)
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
-            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
-            return currentLossDerivative;
+            return make_shared<ValueTransformTensorView>(error_diff, [](float difference) {
+                return (float) (difference > 0.0f) - (float) (difference < 0.0f);
+            });
         }
     };
 }
-- 
2.43.0


From e9eec78e0dfec301a3d2809b103ae58eafc36758 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 03:05:45 +0000
Subject: [PATCH 56/79] fix: the derivative of the smooth mean absolute error
 pointed away from distant truths

---
 src/ml/losses/smae_loss.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ml/losses/smae_loss.hpp b/src/ml/losses/smae_loss.hpp
index b1074c5..194712c 100644
--- a/src/ml/losses/smae_loss.hpp
+++ b/src/ml/losses/smae_loss.hpp
@@ -8,6 +8,7 @@
 
 #include "../../types/tensor_views/less_than_scalar_tensor_view.hpp"
 #include "../../types/tensor_views/masked_select_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as Smooth L1 loss, Smooth Mean Absolute Error loss, or Huber loss
@@ -51,7 +52,9 @@ namespace happyml {
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
             shared_ptr<BaseTensor> abs_error_diff = make_shared<AbsoluteTensorView>(error_diff);
             shared_ptr<BaseTensor> smooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, 1.0f / smoothness);
-            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ValueTransformTensorView>(error_diff, [](float difference) {
+                return (float) (difference > 0.0f) - (float) (difference < 0.0f);
+            });
 
             shared_ptr<BaseTensor> smooth_mask = make_shared<LessThanScalarTensorView>(abs_error_diff, smoothness);
             shared_ptr<BaseTensor> currentLossDerivative = make_shared<MaskedSelectTensorView>(smooth_mask, smooth_derivative, unsmooth_derivative);
-- 
2.43.0


From de6802304953c8425700cc52c6bb564dfede306e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 03:05:45 +0000
Subject: [PATCH 57/79] fix: use the derivative of the sigmoid approximation
 itself

---
 src/ml/activators/sigmoid_approx_activation_function.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ml/activators/sigmoid_approx_activation_function.hpp b/src/ml/activators/sigmoid_approx_activation_function.hpp
index a89a09d..1ea8bb2 100644
--- a/src/ml/activators/sigmoid_approx_activation_function.hpp
+++ b/src/ml/activators/sigmoid_approx_activation_function.hpp
@@ -20,11 +20,10 @@ namespace happyml {
         }
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
-            // result = sigmoid(x) * (1.0 - sigmoid(x))
+            // result = 0.5 / (1.0 + |x|)^2
             auto transformFunction = [](float original) {
-                // todo: validate math.
-                auto sig = 0.5f * ((original / (1.0f + abs(original))) + 1);
-                return sig * (1.f - sig);
+                const float scale = 1.0f + abs(original);
+                return 0.5f / (scale * scale);
             };
             return std::make_shared<ValueTransformTensorView>(input, transformFunction);
         }
-- 
2.43.0


From 2e4fd590566cc86345b5804eb12674bf7a3b9578 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 03:05:45 +0000
Subject: [PATCH 58/79] fix: softmax multiplied the error of its input by that
 input

---
 src/ml/activators/softmax_activation_function.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ml/activators/softmax_activation_function.hpp b/src/ml/activators/softmax_activation_function.hpp
index 69686a8..2eea968 100644
--- a/src/ml/activators/softmax_activation_function.hpp
+++ b/src/ml/activators/softmax_activation_function.hpp
@@ -9,6 +9,7 @@
 #include "../types/tensor_views/value_transform_with_double_tensor_view.hpp"
 #include "../../types/tensor_views/exponential_tensor_view.hpp"
 #include "../../types/tensor_views/scalar_subtract_tensor_view.hpp"
+#include "../../types/tensor_impls/uniform_tensor.hpp"
 
 
 namespace happyml {
@@ -27,8 +28,9 @@ namespace happyml {
         }
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
-            // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss
-            return input;
+            // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss,
+            // which already gives the error of the input of the softmax, so it has to pass through as it is.
+            return make_shared<UniformTensor>(input->getShape(), 1.0f);
         }
     };
 }
-- 
2.43.0


From cc0d57d4104afbb9b36fabe1fec0aa820099f104 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:16:44 +0000
Subject: [PATCH 59/79] fix: a dataset read under other metadata kept its own
 label numbering

---
 src/util/file_reader.hpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index b7910e2..9e60fe6 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -245,6 +245,7 @@ namespace happyml {
             for (const auto &metadata: given_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_given_metadata_.empty()) {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_given_metadata_[given_offset]);
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -260,6 +261,7 @@ namespace happyml {
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_expected_metadata_[expected_offset]);
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -490,6 +492,35 @@ namespace happyml {
             return metadata;
         }
 
+        // A label is stored as the offset of its text in the ordered labels of its own file. Metadata of another
+        // file may order the same labels differently or know other labels.
+        static shared_ptr<BaseTensor> relabel(const shared_ptr<BaseTensor> &original,
+                                              const shared_ptr<BinaryColumnMetadata> &from,
+                                              const shared_ptr<BinaryColumnMetadata> &to) {
+            if (from->purpose != 'L' || to->purpose != 'L' || from->ordered_labels == to->ordered_labels) {
+                return original;
+            }
+            vector<vector<vector<float>>> values(original->channelCount());
+            for (size_t channel = 0; channel < original->channelCount(); channel++) {
+                for (size_t row = 0; row < original->rowCount(); row++) {
+                    vector<float> relabeled(to->ordered_labels.size(), 0.f);
+                    for (size_t column = 0; column < original->columnCount(); column++) {
+                        if (original->getValue(row, column, channel) < 0.5f) {
+                            continue;
+                        }
+                        const string &label = from->ordered_labels[column];
+                        auto found = std::find(to->ordered_labels.begin(), to->ordered_labels.end(), label);
+                        if (found == to->ordered_labels.end()) {
+                            throw runtime_error("Unknown label " + label + " for column: " + to->name);
+                        }
+                        relabeled[found - to->ordered_labels.begin()] = 1.f;
+                    }
+                    values[channel].push_back(relabeled);
+                }
+            }
+            return make_shared<FullTensor>(values);
+        }
+
         [[nodiscard]] shared_ptr<BaseTensor> loadTensor(const shared_ptr<BinaryColumnMetadata> &metadata) {
             shared_ptr<BaseTensor> next_tensor;
             if (metadata->purpose == 'I') {
-- 
2.43.0


From f2b02201fb7cf9bdf6c6fd92fa02fa1ba4c12017 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:16:44 +0000
Subject: [PATCH 60/79] fix: creating a task retried forever when no attempt
 was accurate

---
 src/util/task_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 3cc1929..514886e 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -509,8 +509,8 @@ namespace happyml {
             int attempt = 0;
             float next_search_size = 640.0f;
 
+            int retries = 0;
             while (!found) {
-                int retries = 0;
                 float best_accuracy = 0.0f;
                 string best_attempt_key;
                 shared_ptr<BinaryDataSet> searchDataSource;
-- 
2.43.0


From 4cdda77be745d77741324892baa72caea236b0da Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:17:05 +0000
Subject: [PATCH 61/79] fix: execute a task under the labels and scaling it was
 trained with

---
 src/util/task_utils.hpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 514886e..972ce9e 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -163,6 +163,33 @@ namespace happyml {
         return true;
     }
 
+    // Throws unless a dataset has the columns that a task was trained with. Labels may be numbered differently
+    // and numbers may be scaled differently, because the dataset will be read under the metadata of the task.
+    void check_columns_of_task(const string &task_name, const vector<shared_ptr<BinaryColumnMetadata>> &task_metadata,
+                               const vector<shared_ptr<BinaryColumnMetadata>> &dataset_metadata) {
+        bool same = task_metadata.size() == dataset_metadata.size();
+        for (size_t i = 0; same && i < task_metadata.size(); i++) {
+            const auto &trained = task_metadata[i];
+            const auto &found = dataset_metadata[i];
+            // column names are not case-sensitive
+            string trained_name = trained->name;
+            string found_name = found->name;
+            std::transform(trained_name.begin(), trained_name.end(), trained_name.begin(), ::tolower);
+            std::transform(found_name.begin(), found_name.end(), found_name.begin(), ::tolower);
+            same = trained_name == found_name && trained->purpose == found->purpose
+                   && trained->rows == found->rows && trained->channels == found->channels
+                   && (trained->purpose == 'L' || trained->columns == found->columns);
+        }
+        if (!same) {
+            stringstream message;
+            message << "The dataset does not have the columns of the task " << task_name << ":";
+            for (auto &trained: task_metadata) {
+                message << " " << trained->name;
+            }
+            throw runtime_error(message.str());
+        }
+    }
+
     bool execute_task_with_dataset(const string &task_name, const string &dataset_file_path, const string &task_folder_path) {
         // TODO: we need to cache the task in the context so we don't have to reload it.
 
@@ -178,20 +205,23 @@ namespace happyml {
         auto loadedNeuralNetwork = loadNeuralNetworkForTraining(task_name,
                                                                 task_folder_path);
 
-        string dataset_full_file_path = dataset_file_path + "/dataset.bin";
-        BinaryDatasetReader reader(dataset_full_file_path);
+        // The network only understands the labels and the scaling of the dataset it was trained with.
+        BinaryDatasetReader reader(task_full_path + "/dataset.bin");
         vector<shared_ptr<RawDecoder>> given_decoders = build_given_decoders(false, reader);
         vector<shared_ptr<RawDecoder>> expected_decoders = build_expected_decoders(false, reader);
         vector<string> given_column_names = reader.get_given_names();
         vector<string> expected_column_names = reader.get_expected_names();
         auto given_metadata = reader.get_given_metadata();
-        auto expected_metadata = reader.get_expected_metadata();
         reader.close();
 
+        string dataset_full_file_path = dataset_file_path + "/dataset.bin";
+        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata,
+                                                  vector<shared_ptr<BinaryColumnMetadata>>{});
+        check_columns_of_task(task_name, given_metadata, dataset->getGivenMetadata());
+
         vector<string> merged_headers = pretty_print_merge_headers(expected_column_names, given_column_names);
         vector<size_t> widths;
         cout << "Results: " << endl;
-        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, expected_metadata);
         auto nextRecord = dataset->nextRecord();
         while (nextRecord) {
             auto given_values = nextRecord->getGiven();
-- 
2.43.0


From 8d082e89ea36f0fbf31f950856ff3d92a411dc42 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:17:28 +0000
Subject: [PATCH 62/79] fix: executing a damaged task or a missing dataset
 threw instead of failing

---
 src/lang/statements/execute_task_statement.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lang/statements/execute_task_statement.hpp b/src/lang/statements/execute_task_statement.hpp
index f110cf6..5ffe44c 100644
--- a/src/lang/statements/execute_task_statement.hpp
+++ b/src/lang/statements/execute_task_statement.hpp
@@ -34,6 +34,16 @@ namespace happyml {
             // TODO: we ignore label for now. The label is hardcoded as "default" in a few spots and that needs to be refactored.
             // TODO: we need to cache the model so we don't have to reload it
 
+            try {
+                return execute_task(task_folder_path, dataset_path);
+            } catch (const std::exception &e) {
+                string message = "Failed to execute task " + task_name_ + ": " + e.what();
+                return make_shared<ExecutionResult>(false, false, message);
+            }
+        }
+
+    private:
+        shared_ptr<ExecutionResult> execute_task(const string &task_folder_path, const string &dataset_path) {
             if (input_map_.empty()) {
                 if(dataset_name_.empty()) {
                     string message = "Failed to execute task " + task_name_ + " because no input or dataset was provided.";
@@ -60,7 +70,6 @@ namespace happyml {
             return make_shared<ExecutionResult>(false, true, "Complete.");
         }
 
-    private:
         string task_name_;
         string task_label_;
         string dataset_name_;
-- 
2.43.0


From b3e5f877d06f21d7cdeffbd2722c8a77137197d7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:17:28 +0000
Subject: [PATCH 63/79] fix: a task without the metadata of its dataset passed
 as complete

---
 src/util/task_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 972ce9e..469e057 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -434,8 +434,9 @@ namespace happyml {
 
             string task_full_path = task_folder_path + task_name;
             if (filesystem::exists(task_full_path)) {
+                // the metadata of the dataset is the last file to be written
                 string config = task_full_path + "/model.config";
-                if (filesystem::exists(config)) {
+                if (filesystem::exists(config) && filesystem::exists(task_full_path + "/dataset.bin")) {
                     cout << "Task " << task_name << " already exists. Skipping." << endl;
                     return true;
                 }
-- 
2.43.0


From d139aaa2783e2c162f4c166784e4b3c13c92c855 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:17:28 +0000
Subject: [PATCH 64/79] fix: refuse to test a task with a dataset of other
 columns

---
 src/util/task_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 469e057..ac7cc87 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -456,6 +456,8 @@ namespace happyml {
                 testDataSource = make_shared<BinaryDataSet>(test_dataset_full_file_path,
                                                             dataSource->getGivenMetadata(),
                                                             dataSource->getExpectedMetadata());
+                check_columns_of_task(task_name, dataSource->getGivenMetadata(), testDataSource->getGivenMetadata());
+                check_columns_of_task(task_name, dataSource->getExpectedMetadata(), testDataSource->getExpectedMetadata());
             } else {
                 dataSource = make_shared<BinaryDataSet>(dataset_full_file_path, 0.9);
                 testDataSource = make_shared<BinaryDataSet>(dataset_full_file_path, -0.1);
-- 
2.43.0


From 01b7d72fa80159f826219e2d4c7158ae366bb18b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 65/79] fix: refuse a dataset with labels that a task does not
 know

---
 src/util/task_utils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index ac7cc87..b8842d7 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -179,6 +179,11 @@ namespace happyml {
             same = trained_name == found_name && trained->purpose == found->purpose
                    && trained->rows == found->rows && trained->channels == found->channels
                    && (trained->purpose == 'L' || trained->columns == found->columns);
+            for (const auto &label: found->ordered_labels) {
+                if (same && std::find(trained->ordered_labels.begin(), trained->ordered_labels.end(), label) == trained->ordered_labels.end()) {
+                    throw runtime_error("The task " + task_name + " does not know the label " + label + " of column: " + trained->name);
+                }
+            }
         }
         if (!same) {
             stringstream message;
-- 
2.43.0


From 88465a8b503c6603ac50202261c2ca0533e1fba6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 66/79] fix: a failed attempt forgot which parameters it tried

---
 src/util/task_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index b8842d7..de50565 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -418,6 +418,8 @@ namespace happyml {
             log_file << "Accuracy: " << fixed << setprecision(2) << (attempt_result->accuracy * 100) << "%" << endl;
         } catch (const exception &e) {
             attempt_result = make_shared<TrainingResult>();
+            attempt_result->learningRateAdjustmentFactor = learningRateAdjustmentFactor;
+            attempt_result->complexity_modifier = complexity_modifier;
         }
         return attempt_result;
     }
-- 
2.43.0


From 91e7e240de614a6e392e607161f63df49a1d5958 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:47:39 +0000
Subject: [PATCH 67/79] fix: the search for training parameters never ended
 once a pair was tried twice

---
 src/util/task_utils.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index de50565..716fafd 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -634,15 +634,9 @@ namespace happyml {
                         next_results.erase(next_results.begin() + top_results, next_results.end());
                         cout << "Leader board kept: " << next_results.size() << endl;
                         vector<pair<double, float>> next_complexity_lr_pairs;
-                        for (auto complexity_lr_pair: complexity_lr_pairs) {
-                            double complexity_modifier = complexity_lr_pair.first;
-                            float learningRateAdjustmentFactor = complexity_lr_pair.second;
-                            for (const auto &result: next_results) {
-                                if (result->complexity_modifier == complexity_modifier && result->learningRateAdjustmentFactor == learningRateAdjustmentFactor) {
-                                    next_complexity_lr_pairs.emplace_back(complexity_modifier, learningRateAdjustmentFactor);
-                                    break;
-                                }
-                            }
+                        // a pair may have been tried more than once, so the kept results decide how many pairs are left
+                        for (const auto &result: next_results) {
+                            next_complexity_lr_pairs.emplace_back(result->complexity_modifier, result->learningRateAdjustmentFactor);
                         }
                         complexity_lr_pairs = next_complexity_lr_pairs;
                         cout << "Complexity/learning rate pairs left: " << complexity_lr_pairs.size() << endl;
-- 
2.43.0


From 7671d2650a13e1e5deb1a528698c458c72b45bee Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 04:52:09 +0000
Subject: [PATCH 68/79] fix: denormalize did not undo normalize where all
 values are the same

---
 src/types/tensor_views/denormalize_tensor_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/tensor_views/denormalize_tensor_view.hpp b/src/types/tensor_views/denormalize_tensor_view.hpp
index 0c5376d..240921c 100644
--- a/src/types/tensor_views/denormalize_tensor_view.hpp
+++ b/src/types/tensor_views/denormalize_tensor_view.hpp
@@ -19,6 +19,10 @@ namespace happyml {
 
         float getValue(size_t row, size_t column, size_t channel) override {
             const float val = child_->getValue(row, column, channel);
+            if (val_range_ == 0.0f) {
+                // nothing was scaled
+                return val + min_val_;
+            }
             return (val * val_range_) + min_val_;
         }
 
-- 
2.43.0


From b980830b9939673d80212fea7299ae163d8b0237 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:24:09 +0000
Subject: [PATCH 69/79] fix: text that merely starts with a number was read as
 that number

---
 src/lang/happyml_variant.hpp       | 8 +++++++-
 src/training_data/data_encoder.hpp | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lang/happyml_variant.hpp b/src/lang/happyml_variant.hpp
index 5a6e281..c99422c 100644
--- a/src/lang/happyml_variant.hpp
+++ b/src/lang/happyml_variant.hpp
@@ -86,7 +86,13 @@ namespace happyml {
                 return static_cast<float>(int_value_);
             } else if (type_ == Type::STRING) {
                 try {
-                    return std::stof(string_value_);
+                    size_t used = 0;
+                    const float value = std::stof(string_value_, &used);
+                    // text that merely starts with a number isn't a number
+                    if (string_value_.find_first_not_of(" \t\r\n", used) != string::npos) {
+                        throw std::invalid_argument(string_value_);
+                    }
+                    return value;
                 } catch (std::exception &e) {
                     string error = "Cannot convert to float: " + string_value_;
                     throw std::runtime_error(error);
diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index c8274fd..e36be77 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -48,7 +48,8 @@ namespace happyml {
         float value = 0.0f;
         if (!text.empty()) {
             auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-            if (error_check != std::errc()) {
+            // text that merely starts with a number isn't a number
+            if (error_check != std::errc() || !strip(string(ptr, text.data() + text.size())).empty()) {
                 string message = "Couldn't convert text to float: " + text;
                 throw runtime_error(message.c_str());
             }
-- 
2.43.0


From a2165c877d678de875e121cc3edc1f8b1187382e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 70/79] fix: the search for hyperparameters ignored its limits
 on training

---
 src/ml/hyperband/configuration_evaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 64880aa..8b85d11 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -224,6 +224,7 @@ namespace happyml {
                                                                   improvement_tolerance,
                                                                   2,
                                                                   0.25f);
+            model->setExitStrategy(exit_strategy);
             model->setSilentMode(true);
             shared_ptr<BinaryDataSet> data_set = make_shared<BinaryDataSet>(dataset_path_, dataset_split_);
             shared_ptr<BinaryDataSet> test_data_set = make_shared<BinaryDataSet>(test_dataset_path_, test_dataset_split_);
-- 
2.43.0


From 28183afe620eaf6c1b5056f4bee7f3717877bf43 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 71/79] fix: the search for hyperparameters kept the worst
 configurations

---
 src/ml/hyperband/hyperband.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 571cdb4..1027639 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -74,9 +74,9 @@ namespace happyml {
 
             std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
-                                  // return true if config1 is worse than config2
-                                  return (config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric) ||
-                                         (!config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric);
+                                  // return true if config1 is better than config2
+                                  return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
+                                         (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
             configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
-- 
2.43.0


From ca74ec6cb3194035277f17006e7b6dcfa53c96b5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 72/79] fix: a diverged configuration stayed the best one

---
 src/ml/hyperband/configuration_evaluator.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 8b85d11..f966694 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -36,6 +36,7 @@ namespace happyml {
             shared_ptr<BinaryDataSet> temp = make_shared<BinaryDataSet>(dataset_path_, dataset_split_);
             expected_decoders_ = build_expected_decoders(false, temp);
             minimize_metric_ = loss_type_ != LossType::categoricalCrossEntropy && loss_type_ != LossType::binaryCrossEntropy;
+            best_evaluation_metric_ = worstEvaluationMetric();
         }
 
         void remove_temp_folder() {
@@ -49,6 +50,10 @@ namespace happyml {
             shared_ptr<NeuralNetworkForTraining> model = buildModel(configuration);
             shared_ptr<TrainingResult> trainingResult = trainModel(model, configuration, allocatedResources, max_epochs_, max_time_);
             float evaluationMetric = evaluateModel(model, trainingResult);
+            if (std::isnan(evaluationMetric)) {
+                // training diverged
+                evaluationMetric = worstEvaluationMetric();
+            }
             {
                 std::lock_guard<std::mutex> guard(mutex_);
                 storeResults(configuration, evaluationMetric);
@@ -73,6 +78,10 @@ namespace happyml {
             return best_evaluation_metric_;
         }
 
+        [[nodiscard]] float worstEvaluationMetric() const {
+            return minimize_metric_ ? INFINITY : -INFINITY;
+        }
+
         [[nodiscard]] bool getMinimizeMetric() const {
             return minimize_metric_;
         }
-- 
2.43.0


From 7adc7b71e87689aa381ac6044676d7078f1c7e31 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 73/79] fix: a configuration that cannot be evaluated ended the
 process

---
 src/ml/hyperband/hyperband.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 1027639..00f38eb 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -31,7 +31,13 @@ namespace happyml {
                     std::cout << "Round " << (round + 1) << ": ";
                     std::for_each(std::execution::par, configurations.begin(), configurations.end(), [&](shared_ptr<Hyperparameters> &configuration) {
                         cout << "{";
-                        configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                        // whatever escaped from here would end the process
+                        try {
+                            configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                        } catch (std::exception &e) {
+                            configuration->minimize_metric = configuration_evaluator_->getMinimizeMetric();
+                            configuration->evaluation_metric = configuration_evaluator_->worstEvaluationMetric();
+                        }
                         cout << "}";
                     });
                     cout << endl;
-- 
2.43.0


From f9c5092b813e90904e36e04e509d490d6f95e22f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 74/79] fix: a search among one configuration found no model

---
 src/ml/hyperband/hyperband.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 00f38eb..b5ea8da 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -25,7 +25,8 @@ namespace happyml {
                 }
                 std::vector<shared_ptr<Hyperparameters>> configurations = generateInitialConfigurations(num_configurations, bits_per_hyperparameter);
                 std::cout << "Searching for the best configuration among " << num_configurations << " likely options." << endl;
-                for (int round = 0; num_configurations > 1; round++) {
+                // a single configuration is evaluated as well, there would be no model otherwise
+                for (int round = 0; round == 0 || num_configurations > 1; round++) {
                     int allocated_resources = std::max(2, max_resources / static_cast<int>(pow(reduction_factor, round)));
 
                     std::cout << "Round " << (round + 1) << ": ";
-- 
2.43.0


From 4a2f74fa26fac9aa9a595e5bf0b95ec03b662e42 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 75/79] fix: a search that never reduces its configurations
 never ended

---
 src/ml/hyperband/hyperband.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index b5ea8da..898d947 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -16,6 +16,9 @@ namespace happyml {
     public:
         Hyperband(shared_ptr<HyperparameterSpace> &hyperparameter_space, shared_ptr<ConfigurationEvaluator> &configuration_evaluator, int max_resources, int reduction_factor)
                 : hyperparameter_space_(hyperparameter_space), configuration_evaluator_(configuration_evaluator), max_resources(max_resources), reduction_factor(reduction_factor) {
+            if (reduction_factor < 2) {
+                throw invalid_argument("The reduction factor must be at least two.");
+            }
         }
 
         shared_ptr<NeuralNetworkForTraining> run(size_t num_configurations = -1, float target_metric = 0.95f, int bits_per_hyperparameter = 32) {
-- 
2.43.0


From 41b5e4e024cd8df979be255c2ca9b8e38fe0c4bd Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 76/79] verif: observe the evaluations of a search
 (HAPPYML_VERIF)

---
 src/ml/hyperband/configuration_evaluator.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index f966694..87d90f9 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -39,6 +39,12 @@ namespace happyml {
             best_evaluation_metric_ = worstEvaluationMetric();
         }
 
+#ifdef HAPPYML_VERIF
+        // observes an evaluation, and answers the metric to go on with
+        std::function<float(const shared_ptr<NeuralNetworkForTraining> &, const shared_ptr<Hyperparameters> &, int,
+                            const shared_ptr<TrainingResult> &, float)> verif_evaluated;
+#endif
+
         void remove_temp_folder() {
             // if exists
             if (std::filesystem::exists(best_model_repo_)) {
@@ -50,6 +56,11 @@ namespace happyml {
             shared_ptr<NeuralNetworkForTraining> model = buildModel(configuration);
             shared_ptr<TrainingResult> trainingResult = trainModel(model, configuration, allocatedResources, max_epochs_, max_time_);
             float evaluationMetric = evaluateModel(model, trainingResult);
+#ifdef HAPPYML_VERIF
+            if (verif_evaluated) {
+                evaluationMetric = verif_evaluated(model, configuration, allocatedResources, trainingResult, evaluationMetric);
+            }
+#endif
             if (std::isnan(evaluationMetric)) {
                 // training diverged
                 evaluationMetric = worstEvaluationMetric();
-- 
2.43.0


From 2e73f7cace30a49a733882470d6ff8e05ac1b1c2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 06:51:24 +0000
Subject: [PATCH 77/79] fix: a process that ended while it wrote a dataset left
 half of it behind

---
 src/util/dataset_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 182d474..67c6ca2 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -254,8 +254,10 @@ namespace happyml {
             }
         }
 
+        // the dataset exists as soon as this file does, so it gets its name when it is complete
         auto new_dataset_path = dataset_path + "/dataset.bin";
-        BinaryDatasetWriter binaryDatasetWriter(new_dataset_path, given_metadata, expected_metadata, 0);
+        auto incomplete_dataset_path = new_dataset_path + ".incomplete";
+        BinaryDatasetWriter binaryDatasetWriter(incomplete_dataset_path, given_metadata, expected_metadata, 0);
         size_t row_count = binaryDatasetReader.rowCount();
         for (size_t index = 0; index < row_count; ++index) {
             auto row = binaryDatasetReader.readRow(index);
@@ -275,6 +277,7 @@ namespace happyml {
         }
         binaryDatasetWriter.close();
         binaryDatasetReader.close();
+        filesystem::rename(incomplete_dataset_path, new_dataset_path);
     }
 
 
-- 
2.43.0


From f5348eabc2df7abc6bb1561a70284d581fc57ae7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 06:51:24 +0000
Subject: [PATCH 78/79] fix: a process that ended while it wrote the metadata
 of a task left a task that passed as complete

---
 src/util/task_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 716fafd..6b09d5f 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -680,8 +680,11 @@ namespace happyml {
             neuralNetwork->saveWithOverwrite();
 
             string task_dataset_metadata_path = task_full_path + "/dataset.bin";
-            BinaryDatasetWriter writer(task_dataset_metadata_path, reader.get_given_metadata(), reader.get_expected_metadata());
+            // the task is complete as soon as this file exists, so it gets its name when it is complete
+            string incomplete_metadata_path = task_dataset_metadata_path + ".incomplete";
+            BinaryDatasetWriter writer(incomplete_metadata_path, reader.get_given_metadata(), reader.get_expected_metadata());
             writer.close();
+            filesystem::rename(incomplete_metadata_path, task_dataset_metadata_path);
             reader.close();
             log_file.close();
         } catch (exception &e) {
-- 
2.43.0


From 45db01dd59afcba76b845319d71a0cc034d62be7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 06:52:05 +0000
Subject: [PATCH 79/79] fix: a process that ended while it saved a model lost
 the one it replaced or left half of the new one

---
 src/ml/byte_pair_encoder.hpp |  8 +++++---
 src/ml/happyml_dsl.hpp       |  3 ++-
 src/ml/neural_network.hpp    | 21 +++++++++++--------
 src/util/data_util.hpp       | 40 +++++++++++++++++++++++++++++++-----
 4 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index c81f9fc..ba471d8 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -522,9 +522,9 @@ namespace happyml {
         // model in that folder. It is not a good practice with happyml for two different models to
         // share output folders.
         bool save(const string &modelFolderPath, const string &knowledgeLabel, bool overwrite = true) {
-            string const fullKnowledgePath = initialize_knowledge_path_directory(modelFolderPath, knowledgeLabel,
-                                                                                 overwrite);
-            string const filePath = fullKnowledgePath + "/" + name_ + ".bpe";
+            string const fullKnowledgePath = choose_knowledge_path_directory(modelFolderPath, knowledgeLabel,
+                                                                             overwrite);
+            string const filePath = begin_replacing_directory(fullKnowledgePath) + "/" + name_ + ".bpe";
             std::ofstream file(filePath, std::ios::binary);
 
             if (!file.is_open()) {
@@ -543,10 +543,12 @@ namespace happyml {
             }
 
             file.close();
+            finish_replacing_directory(fullKnowledgePath);
             return true;
         }
 
         bool load(const string &modelFolderPath, const string &knowledgeLabel) {
+            recover_replaced_directory(without_trailing_separators(modelFolderPath + "/" + knowledgeLabel));
             string const path = modelFolderPath + "/" + knowledgeLabel + "/" + name_ + ".bpe";
             std::ifstream file(path, std::ios::binary);
 
diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index aeec11a..35cdfcc 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -939,7 +939,8 @@ namespace happyml {
 
     shared_ptr<NeuralNetworkForTraining> loadNeuralNetworkForTraining(const string &modelName,
                                                                       const string &repoRootPath = "repo") {
-        string modelPath = repoRootPath + "/" + modelName;
+        string modelPath = without_trailing_separators(repoRootPath + "/" + modelName);
+        recover_replaced_directory(modelPath);
         string configPath = modelPath + "/model.config";
         // if model.config doesn't exist the model failed during training
         auto configReader = make_shared<DelimitedTextFileReader>(configPath, ':');
diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 992816a..98d695b 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -211,7 +211,8 @@ namespace happyml {
         }
 
         void saveAs(const string &modelFolderPath, bool overwrite) {
-            auto modelPath = modelFolderPath;
+            auto modelPath = without_trailing_separators(modelFolderPath);
+            recover_replaced_directory(modelPath);
             // training leaves an empty directory behind, and there is nothing in it to protect
             if (filesystem::is_directory(modelPath) && !filesystem::is_empty(modelPath)) {
                 if (!overwrite) {
@@ -228,18 +229,17 @@ namespace happyml {
                     canonicalModelPath += "_" + ms;
                     modelPath = unused_path(canonicalModelPath.generic_string());
                     cerr << modelPath << endl;
-                } else {
-                    filesystem::remove_all(modelPath);
                 }
             }
-            filesystem::create_directories(modelPath);
-            string modelProperties = modelPath + "/model.config";
+            string incompletePath = begin_replacing_directory(modelPath);
+            string modelProperties = incompletePath + "/model.config";
             auto writer = make_unique<DelimitedTextFileWriter>(modelProperties, ':');
             for (const auto &record: networkMetadata) {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelPath, "default", overwrite);
+            saveKnowledge(incompletePath, "default", overwrite);
+            finish_replacing_directory(modelPath);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
@@ -256,11 +256,13 @@ namespace happyml {
         }
 
         void saveKnowledge(const string &modelFolderPath, const string &knowledgeLabel, bool overwrite) {
-            string fullKnowledgePath = initialize_knowledge_path_directory(modelFolderPath, knowledgeLabel, overwrite);
+            string fullKnowledgePath = choose_knowledge_path_directory(modelFolderPath, knowledgeLabel, overwrite);
+            string incompletePath = begin_replacing_directory(fullKnowledgePath);
             for (const auto &headNode: headNodes) {
                 headNode->markUnsaved();
-                headNode->saveKnowledge(fullKnowledgePath);
+                headNode->saveKnowledge(incompletePath);
             }
+            finish_replacing_directory(fullKnowledgePath);
         }
 
         void removeKnowledge(const string &knowledgeLabel) {
@@ -279,7 +281,8 @@ namespace happyml {
         }
 
         void loadKnowledge(const string &modelFolderPath, const string &knowledgeLabel) {
-            string fullKnowledgePath = modelFolderPath + "/" + knowledgeLabel;
+            string fullKnowledgePath = without_trailing_separators(modelFolderPath + "/" + knowledgeLabel);
+            recover_replaced_directory(fullKnowledgePath);
             for (const auto &headNode: headNodes) {
                 headNode->markUnsaved();
                 headNode->loadKnowledge(fullKnowledgePath);
diff --git a/src/util/data_util.hpp b/src/util/data_util.hpp
index 74406e3..dfaa107 100644
--- a/src/util/data_util.hpp
+++ b/src/util/data_util.hpp
@@ -42,8 +42,41 @@ namespace happyml {
         return result;
     }
 
-    string initialize_knowledge_path_directory(const string &modelFolderPath, const string &knowledgeLabel, bool overwrite) {
-        string fullKnowledgePath = modelFolderPath + "/" + knowledgeLabel;
+    // A directory is replaced as a whole: it is written beside its place, the previous one is moved away, and it
+    // takes its place. Whenever the process ends, there is a complete one to be found.
+    void recover_replaced_directory(const string &path) {
+        // ended between the two moves
+        if (!filesystem::exists(path) && filesystem::exists(path + ".saving") && filesystem::exists(path + ".previous")) {
+            filesystem::rename(path + ".previous", path);
+        }
+    }
+
+    string begin_replacing_directory(const string &path) {
+        recover_replaced_directory(path);
+        filesystem::remove_all(path + ".previous");
+        filesystem::remove_all(path + ".saving");
+        filesystem::create_directories(path + ".saving");
+        return path + ".saving";
+    }
+
+    void finish_replacing_directory(const string &path) {
+        if (filesystem::is_directory(path)) {
+            filesystem::rename(path, path + ".previous");
+        }
+        filesystem::rename(path + ".saving", path);
+        filesystem::remove_all(path + ".previous");
+    }
+
+    string without_trailing_separators(string path) {
+        while (path.size() > 1 && (path.back() == '/' || path.back() == filesystem::path::preferred_separator)) {
+            path.pop_back();
+        }
+        return path;
+    }
+
+    string choose_knowledge_path_directory(const string &modelFolderPath, const string &knowledgeLabel, bool overwrite) {
+        string fullKnowledgePath = without_trailing_separators(modelFolderPath + "/" + knowledgeLabel);
+        recover_replaced_directory(fullKnowledgePath);
         if (filesystem::is_directory(fullKnowledgePath)) {
             if (!overwrite) {
                 auto canonicalFullKnowledgePath = filesystem::canonical(fullKnowledgePath);
@@ -54,11 +87,8 @@ namespace happyml {
                 canonicalFullKnowledgePath += "_" + ms;
                 fullKnowledgePath = unused_path(canonicalFullKnowledgePath.generic_string());
                 cerr << fullKnowledgePath << endl;
-            } else {
-                filesystem::remove_all(fullKnowledgePath);
             }
         }
-        filesystem::create_directories(fullKnowledgePath);
         return fullKnowledgePath;
     }
 
-- 
2.43.0

