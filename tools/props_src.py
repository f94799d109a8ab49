#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/props_src.py writes it)."""
import json, os
P = []


def p(id, title, st, over, qt, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": " ".join(st.split()),
              "quantifier": {"over": over, "text": qt}, "why_tests_cant": why, "anchors": a})


p("D01", "A created dataset holds exactly the distinct selected rows of its source",
  """When 'create dataset' succeeds on a delimited source file, the stored dataset holds exactly one record for every distinct
  combination of given values among the source's data rows and nothing else: each record's given columns come before its expected
  columns, keep the declared names, types and shapes in position order, and carry the values of one source row having those given values.
  When the declaration is unusable (columns that overlap, no given column, an unknown column type, an unsupported file kind or location, a missing or empty file,
  a data row too short for the declaration, or text that is no number in a number column) it fails and no dataset of that name appears;
  when the name is already taken it says so and the existing dataset keeps its bytes.
  (Sources are .csv and .tsv; a row that is blank in the only selected column may be skipped; a label column takes one source column.)
  Either way the source file keeps its bytes and no intermediate file is left beside it after success.""",
  ["inputs", "configurations", "histories"],
  "every delimited source (quoting, headers, duplicate rows, repeated givens, column order and widths, csv and tsv) and every column declaration",
  "test_parser executes one declaration against one titanic file; no test reads the stored rows back against the source.",
  ["src/lang/statements/create_dataset_statement.hpp", "src/util/dataset_utils.hpp", "src/training_data/training_dataset.hpp",
   "src/util/text_file_sorter.hpp", "src/util/file_writer.hpp"],
  [("CreateDatasetStatement::execute pipeline", "src/lang/statements/create_dataset_statement.hpp"),
   ("update_column_positions", "src/training_data/training_dataset.hpp"),
   ("create_binary_dataset_from_delimited_values", "src/util/dataset_utils.hpp"),
   ("has_overlap", "src/util/dataset_utils.hpp")],
  ["result of the statement, files under the scratch repository, rows of the stored dataset read back"])

p("D02", "Delimited text records survive a write and read unchanged",
  """Any list of records whose cells carry no leading or trailing whitespace, written with the delimited text writer and read back with the
  delimited text reader using the same delimiter, comes back as the same records in the same order with the same cells, including cells that
  contain delimiters, double quotes, newlines or escape-like sequences. Reading a hand-written file yields the fields a quote-aware splitter
  assigns (delimiters and line breaks inside quotes are data, a doubled quote inside quotes is one quote, an unclosed quote is an error), skips
  exactly one header line per file when asked to, and a directory is read as all lines of all its files.""",
  ["inputs", "configurations"],
  "every list of records over every cell content and delimiter, every file layout",
  "test_delimited_file_reader/writer check a handful of fixed records; the escape and quote state machines have unbounded input.",
  ["src/util/file_reader.hpp", "src/util/file_writer.hpp", "src/util/text_encoder_decoder.hpp"],
  [("DelimitedTextFileWriter::writeRecord", "src/util/file_writer.hpp"), ("DelimitedTextFileReader::nextRecord", "src/util/file_reader.hpp"),
   ("TextEncoderDecoder", "src/util/text_encoder_decoder.hpp"), ("TextLinePathReader", "src/util/file_reader.hpp")])

p("D03", "File sorting yields each distinct line once, in order, at any chunk size",
  """Sorting a text file produces a file holding exactly the distinct non-empty lines of the input in byte order (or all of them, with their
  multiplicity, when duplicates are kept), after the unchanged header line when there is one, and the result does not depend on how many
  lines are processed per chunk. The input file and every other file beside it keep their bytes and no temporary file remains.""",
  ["inputs", "configurations"],
  "every file content, header flag, duplicate flag and chunk size",
  "test_file_sorter sorts one or two small files with one chunk size; chunk boundaries interact with duplicates and merge order.",
  ["src/util/text_file_sorter.hpp"],
  [("chunked external merge", "src/util/text_file_sorter.hpp: sort, merge_chunks")])

p("D04", "A binary dataset file returns the rows and column descriptions written to it",
  """A binary dataset file read back reports the same given and expected column descriptions (kind, shape, name, labels, scaling parameters)
  and, for every row index in any order, exactly the tensors of that row as written; indexes past the end are refused.
  With duplicate suppression on (within its cache size) a row is dropped, and reported as dropped, exactly when an earlier kept row had
  the same given values; with it off every row is kept.""",
  ["inputs", "configurations", "histories"],
  "every list of column descriptions and rows, every access order, duplicate suppression on and off",
  "test_binary_dataset_* write one layout and read sequentially; header layout and offsets depend on every column's shape, labels and name.",
  ["src/util/file_writer.hpp", "src/util/file_reader.hpp", "src/util/lru_cache.h"],
  [("writeHeader/readHeader", "src/util/file_writer.hpp, src/util/file_reader.hpp"), ("readRow", "src/util/file_reader.hpp"),
   ("compute_given_hash + LruCache", "src/util/file_writer.hpp")])

p("D05", "Number columns are rescaled by their own statistics and decode back",
  """In a created dataset every number column is described by the mean, standard deviation, minimum and maximum of its own values over the
  stored rows, is marked standardized exactly when that standard deviation exceeds one, and stores for each value the value standardized (if marked) and
  then scaled to the minimum-maximum range; undoing these steps in reverse order returns the source value, and label and image columns are stored unscaled.
  Opening such a dataset under another dataset's column descriptions presents each column's values rescaled with that same column's target
  parameters (target columns whose values are not all equal).""",
  ["inputs", "configurations"],
  "every set of numeric values per column and every mixture of column kinds, and every pair of column descriptions",
  "existing tests check tensor views on one vector; none checks a stored column against its source or re-opens a dataset under other metadata.",
  ["src/util/dataset_utils.hpp", "src/util/file_reader.hpp", "src/util/tensor_stats.hpp"],
  [("normalize_and_standardize_dataset", "src/util/dataset_utils.hpp"), ("readRow renormalization", "src/util/file_reader.hpp"),
   ("standardization statistics", "src/util/tensor_stats.hpp")])

p("D06", "Each pass over a dataset yields every record of its split exactly once",
  """Between a restart and exhaustion a training dataset (in memory or file backed, shuffled or not) yields each of its records exactly once,
  then nothing until restarted, and its record count says how many. The two complementary splits of one file are disjoint, together cover
  every row, and stay the same rows across restarts, reshuffles and reopenings.""",
  ["inputs", "configurations", "histories"],
  "every dataset size, split fraction, shuffler and call history (reads, restarts, reshuffles)",
  "tests read small unshuffled sets once; split arithmetic and the index mapping depend on size, fraction and history.",
  ["src/training_data/training_dataset.hpp", "src/util/shuffler.hpp"],
  [("BinaryDataSet offsets and nextRecord", "src/training_data/training_dataset.hpp"), ("Shuffler permutation", "src/util/shuffler.hpp")])

p("D07", "Ad hoc inputs are encoded exactly as stored data",
  """Values supplied directly to a task (numbers, labels, image pixels, of any declared shape) are turned into the same tensor, with the same
  shape and the same element positions and scaling, as the same values read from a file and stored for that column.
  A label the column has never seen, or too few values for the shape, is refused with an error instead of being encoded.""",
  ["inputs", "configurations"],
  "every column kind, shape and value list",
  "no test encodes an ad hoc value.",
  ["src/training_data/data_encoder.hpp", "src/util/task_utils.hpp"],
  [("HappyMLVariantEncoder::encode", "src/training_data/data_encoder.hpp"), ("TextToScalarEncoder/TextToPixelEncoder/TextToUniqueCategoryEncoder", "src/training_data/data_encoder.hpp")])

p("D08", "Printing a dataset shows its rows in order, decoded, up to the limit",
  """Printing a dataset shows the column names, expected columns before given ones, and then the first rows of the dataset in stored order,
  as many as the limit allows (all of them without a limit), each row once. Number columns show the original source values, label columns
  the source label; raw printing shows the stored values instead. (How an image cell is drawn is left open, and with a limit of zero the header is optional.)""",
  ["inputs", "configurations"],
  "every dataset, limit and raw flag",
  "no test prints a dataset.",
  ["src/util/pretty_print_row.hpp", "src/lang/statements/print_statement.hpp", "src/util/encoder_decoder_builder.hpp", "src/training_data/data_decoder.hpp"],
  [("pretty_print", "src/util/pretty_print_row.hpp"), ("decoder selection", "src/util/encoder_decoder_builder.hpp")])

p("L01", "The lexer splits every script into longest-match tokens and loses nothing",
  """Lexing any text either fails with a message or returns tokens whose texts, taken in order together with the skipped blanks and comments,
  reproduce the text; each token is the longest match at its position under the documented token rules, with the earlier rule winning ties, and
  keywords are recognised regardless of letter case. Every token carries the offset and the source it came from.""",
  ["inputs", "programs"],
  "every text",
  "test_lexer lexes a few fixed scripts.",
  ["src/lang/lexer/lexer.hpp", "src/lang/lexer/lexer_patterns.hpp", "src/lang/lexer/token.hpp"],
  [("lex loop", "src/lang/lexer/lexer.hpp"), ("patterns", "src/lang/lexer/lexer_patterns.hpp")])

p("L02", "Parsing accepts exactly the documented statements and never throws",
  """Parsing any text ends with either success or a failure message and never an exception or crash.
  It succeeds exactly when the script is a sequence of well-formed statements of the documented grammar (create dataset, create task, execute task,
  print, help, exit), and then yields those statements in order with the names, options, numbers and column descriptions written in the script.
  Keywords may be in any letter case. (Forms the documentation leaves open - trailing or missing commas in lists, repeated input names, names that
  are no words, numbers with a fraction or beyond nine digits where a whole number belongs - may be accepted or refused, but not crash.)""",
  ["inputs", "programs"],
  "every script, in particular every truncation and single-token change of a valid script",
  "the interpreter tests parse about a dozen scripts; most truncations and option orders are never parsed.",
  ["src/lang/parser/parser.hpp", "src/lang/lexer/token.hpp"],
  [("recursive descent", "src/lang/parser/parser.hpp"), ("TokenStream bounds", "src/lang/lexer/token.hpp")])

p("L03", "A session runs statements in order and stops at the first failure or exit",
  """Running a script executes its statements in source order, each at most once, stops at the first statement that fails (reporting that
  failure) or asks to exit, and executes nothing at all when any part of the script does not parse.
  A multi-line interactive session behaves the same as submitting each completed statement block in turn, and a failed block (or a script file that
  cannot be read, which is reported as a failure) leaves the session usable; only exit ends it.""",
  ["programs", "histories"],
  "every sequence of statements and statement outcomes, nested code blocks and script files",
  "test_interpreter runs single statements; stop, exit and nesting order are never exercised.",
  ["src/lang/interpreter.hpp", "src/lang/statements/code_block_statement.hpp"],
  [("CodeBlockStatement::execute", "src/lang/statements/code_block_statement.hpp"), ("interpretCommands/interpretFile/interactiveInterpret", "src/lang/interpreter.hpp")])

p("N01", "A network computes its graph: forward, backward and update reach each node properly",
  """Predicting with any acyclic network of nodes gives each node its parents' outputs in connection order, evaluates each node once per
  input set, and returns one output per output node in order. During training each node receives, once per record, the average of the errors
  flowing back from all the nodes it feeds (each counted once; errors a node sends back are scaled down to its clipping limit where clipping is on), and every
  node's update is applied once per batch. Parameters are counted once per node.""",
  ["inputs", "configurations", "schedules"],
  "every acyclic graph (branches, concatenations, several outputs) and every record",
  "tests train single-chain models to a loss threshold; no test uses a branching graph.",
  ["src/ml/neural_network_node.hpp", "src/ml/neural_network.hpp"],
  [("doForward/backward/apply", "src/ml/neural_network_node.hpp")])

p("N02", "Training uses each record once per epoch and keeps the best knowledge",
  """Each training epoch feeds every training record through the network exactly once and applies the averaged error once per batch and
  for the last partial batch. The losses it compares are averages over all records of that epoch (or of the test set), the model ends
  with the knowledge that had the lowest reported test loss (training loss when there is no test set), or with the last knowledge when asked to keep that, and the returned loss is that lowest one.
  A batch size that is not between one and the number of records is refused, as is a loss that is no number, and no intermediate file stays behind.
  The reported accuracy is the share of test records (up to the limit) for which every element, or every category, of every output is right.""",
  ["inputs", "configurations", "histories"],
  "every dataset size, batch size, number of epochs and sequence of losses",
  "tests only check that a few models reach a low loss.",
  ["src/ml/neural_network.hpp"],
  [("train/test loops, checkpoint, compute_*_accuracy", "src/ml/neural_network.hpp")])

p("N03", "Training stops exactly when the exit strategy's documented limits are met",
  """The decision to stop after an epoch depends only on the epochs, losses and elapsed time since the training started and on the configured limits. Before the minimum number of
  epochs it never stops; from then on it stops exactly when the maximum number of epochs is reached, the loss is at or below the zero tolerance, the loss lies above the
  lowest loss by at least the tolerated degradation (relative to it), the training took at least the time limit, or the lowest loss was not improved by the required amount for as many epochs as the patience allows.
  The reason it gives is one of those that hold. A training that follows another one with the same strategy is judged by its own losses, epochs and time only.""",
  ["histories", "configurations"],
  "every limit combination and every history of losses, times and trainings",
  "no test drives an exit strategy.",
  ["src/ml/exit_strategy.hpp", "src/ml/neural_network.hpp"],
  [("DefaultExitStrategy::isDone/whyDone", "src/ml/exit_strategy.hpp"), ("train loop, elapsed time", "src/ml/neural_network.hpp")])

p("N04", "A saved model loads back as the same network with the same knowledge",
  """Saving a model and loading it from the same place gives a network with the same structure that produces the same outputs for every
  input, for every network that can be built, and knowledge saved under a label is restored by loading that label, independent of what was saved
  under other labels or when. Saving without permission to overwrite leaves what was saved before untouched and keeps the new model together in one place,
  saving with it replaces the model and whatever knowledge was stored with it, and training continues from a loaded model as it would have from the original.
  Loading a missing or damaged model or label fails and leaves the network as it was.""",
  ["configurations", "histories", "inputs"],
  "every model structure and every history of training, saving and loading",
  "tests save and load one chain-shaped model.",
  ["src/ml/happyml_dsl.hpp", "src/ml/neural_network.hpp", "src/util/data_util.hpp", "src/ml/layers/*"],
  [("saveAs/load_neural_network_for_training", "src/ml/happyml_dsl.hpp"), ("saveKnowledge/loadKnowledge", "src/ml/neural_network.hpp, src/ml/layers")])

p("N05", "Each optimizer applies its update rule to each parameter independently",
  """For every optimizer, the sequence of updated values of a parameter equals the rule (plain step; momentum 0.9; or adaptive moments
  with decay rates 0.9 and 0.999, element by element) applied to that parameter's own gradients and its own history, regardless of what other parameters
  registered with the same optimizer receive and in which order. Weights follow the learning rate and biases the bias learning rate; only the decaying variants
  change a rate, at most once per epoch. Fully connected, bias and convolution layers (each filter is a parameter of its own) update with the average of their batch's gradients.""",
  ["histories", "configurations", "schedules"],
  "every interleaving of updates of several parameters, every gradient sequence",
  "tests check one or two updates of one parameter.",
  ["src/ml/optimizers/sgdm_optimizer.hpp", "src/ml/optimizers/adam_optimizer.hpp", "src/ml/optimizers/mbgd_optimizer.hpp"],
  [("calculateWeightsChange/calculateBiasChange", "src/ml/optimizers")])

p("N06", "Loss gradients and layer errors follow the derivatives of what they compute",
  """Every loss reports a value and an error whose sign and size follow the derivative of that value with respect to the prediction, and every layer's
  forward result, backward error and weight gradient follow its definition for every input, so that a small step against the error lowers the loss.
  (A loss that is a mean starts from the error of the sum. Softmax followed by categorical cross entropy is differentiated together, any other use of softmax is
  left open, and so is a layer that feeds several others: errors are averaged there by design, see N01.)""",
  ["inputs"],
  "every prediction, truth and layer input of every shape",
  "tests check a few fixed vectors for some losses.",
  ["src/ml/losses/*", "src/ml/layers/*", "src/ml/activators/*"],
  [("calculate_error_for_one_prediction/partial_derivative", "src/ml/losses")])

p("N07", "Hyperparameter search keeps the best configurations and returns the best",
  """A hyperband search evaluates each bracket's configurations with the documented number of rounds and resources, keeps at each round the
  best-scoring fraction, and returns the configuration with the best score it saw. Every configuration it tries takes its values from the
  declared space.""",
  ["configurations", "histories"],
  "every resource budget, reduction factor and score assignment",
  "no test runs the search with controlled scores.",
  ["src/ml/hyperband/*"],
  [("Hyperband::run", "src/ml/hyperband/hyperband.hpp")])

p("K01", "A task answers with the trained model for its own columns, or reports why not",
  """Creating a task from an existing dataset leaves one complete, loadable task of that name and never alters an existing one; executing it
  yields one decoded prediction per input record, made under the column names, labels and scaling of the dataset it was trained on.
  A missing task or dataset, a column mismatch or an unknown label ends in a failure message, without an exception and without changing any stored task or dataset.""",
  ["histories", "inputs", "configurations"],
  "every history of create and execute statements over several datasets and tasks",
  "no test creates or executes a task.",
  ["src/util/task_utils.hpp", "src/lang/statements/create_task_statement.hpp", "src/lang/statements/execute_task_statement.hpp"],
  [("create_label_task/execute_task_*", "src/util/task_utils.hpp")])

p("C01", "A crash never leaves a half-made dataset, model or task that passes as complete",
  """If the process dies at any point while creating a dataset or saving a model, then afterwards either the name does not exist or it is complete and readable
  with its full contents; an interrupted save that was allowed to overwrite leaves the previous complete version or the new one.
  The user's source files are intact whatever the point of interruption.""",
  ["crash_points", "histories"],
  "every point between two file system effects of a create or save",
  "no test interrupts anything.",
  ["src/util/dataset_utils.hpp", "src/util/file_writer.hpp", "src/ml/happyml_dsl.hpp", "src/ml/neural_network.hpp", "src/lang/execution_context.hpp"],
  [("order of file creation", "src/util/dataset_utils.hpp, src/ml/neural_network.hpp")])

p("T01", "Tensor operations compute element by element what their names say",
  """For every tensor (of any storage kind) and every composition of tensor operations, the resulting shape and every element equal the
  mathematical definition of the operation applied to the operands' elements, whole-tensor and bulk accessors agree with element access, and the operands keep their values. Operands whose shapes do not
  fit the operation are refused. (Documented guards count as the definition: a logarithm clamps its argument to the positive range and an
  element-wise division by zero divides by 1e-8. The diagonal view, whose documentation and code disagree, is left open.)""",
  ["inputs", "programs"],
  "every shape, element values exactly representable, and every composition of operations",
  "test_tensor covers each view with one or two fixed shapes.",
  ["src/types/base_tensors.hpp", "src/types/tensor_views/*", "src/types/tensor_impls/*"],
  [("getValue of each view", "src/types/tensor_views")])

p("T02", "Reduced precision numbers round trip exactly and order correctly",
  """Every 8-bit code that denotes a number (or an infinity, or the canonical NaN) converts to a float and back to the same code at every bias, conversion of a float yields a
  neighbouring representable value (the value itself when it is representable), saturates beyond the largest one and preserves sign (or gives zero) and order;
  16-bit values behave the same, and 8-bit arithmetic converts the float result of its operands.""",
  ["inputs"],
  "every code, every bias, every float in range",
  "test_quarter_float samples some values per bias.",
  ["src/types/quarter_float.hpp", "src/types/half_float.hpp"],
  [("floatToQuarter/quarterToFloat", "src/types/quarter_float.hpp")])

p("T03", "Byte pair encoding is lossless, deterministic and survives save and load",
  """Whatever text a byte pair encoder was trained on, decoding an encoded token returns the original token, encoding is deterministic,
  and a saved encoder, loaded into any other encoder, encodes and decodes every token identically. The largest code an encoder reports
  is above every code it uses; training on more tokens keeps the codes learned before.""",
  ["inputs", "histories"],
  "every training text and token, every history of training, saving and loading",
  "test_byte_pair_encoding uses one text and a few tokens.",
  ["src/ml/byte_pair_encoder.hpp"],
  [("encode/decode/train/save/load", "src/ml/byte_pair_encoder.hpp")])

p("T04", "Utility containers behave as the structures they stand for",
  """The bounded cache never exceeds its capacity, drops the entry inserted longest ago first (inserting a key again makes it the newest, asking
  does not) and answers membership accordingly for every history of calls; the prefix dictionary answers exactly the keys added (membership,
  prefixes, values, longest completion); one-hot vectors have a single one at the index of what they encode (zero vectors for unknown words and codes, and for a character byte beyond the vector's positions),
  category decoding inverts them, and the best and top categories of any vector are those with the largest values, largest first.""",
  ["histories", "inputs"],
  "every call history and key set",
  "a test inserts a few keys once.",
  ["src/util/lru_cache.h", "src/types/trie.hpp", "src/util/one_hot_encoder.hpp", "src/training_data/data_decoder.hpp"],
  [("LruCache", "src/util/lru_cache.h"), ("Trie", "src/types/trie.hpp"), ("BestTextCategoryDecoder", "src/training_data/data_decoder.hpp")])

if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
