NOTE["D01"] = "the pipeline of file effects (with crashes and retries) is model-checked in spec/Pipeline.tla; what the stored dataset must hold is specified over the source records and declarations in spec/Dataset.tla and judges every recorded session of the real code"
NOTE["D05"] = "scaling is specified exactly (means, variances, thresholds, and what stored elements stand for) in spec/Dataset.tla; TLC judges every dataset the real code creates and every renormalizing reopening"
NOTE["D07"] = "the encoder is specified as the inverse of what stored cells stand for (spec/Dataset.tla); TLC compares every ad hoc encoding the real code performs with it and with the stored rows"
NOTE["D08"] = "the printed table is specified line by line from the stored rows (spec/T_D08.tla over spec/Dataset.tla); TLC parses and judges every table the real code prints"
NOTE["L01"] = "longest-match tokenisation is specified in spec/Lexer.tla and model-checked (total, lossless, deterministic) over all short texts; every recorded lexing of the real code must equal the specified token sequence"
NOTE["L02"] = "the grammar of the documented statements is specified over tokens in spec/Grammar.tla; TLC parses every recorded script itself and compares success and the statements the real parser built"
NOTE["L03"] = "sessions (blocks, stop at failure, exit, nesting) are specified and model-checked in spec/Session.tla; TLC predicts the effects of every recorded session of the real interpreter"
NOTE["T02"] = "the 8 and 16 bit formats are specified in spec/SmallFloat.tla (the conversion design is model-checked around every number of 20 biases); TLC judges all 256 codes per bias, all 65536 16-bit codes and thousands of conversions made by the real code"
NOTE["T03"] = "encoders are specified as sequences of codes in spec/BytePair.tla (lossless for every model learnable over a small alphabet, model-checked); TLC recomputes every encoding, decoding, save and load the real code performs"
NOTE["T04"] = "the cache, the prefix dictionary and one-hot vectors are specified in spec/Containers.tla (the cache model-checked against its history); TLC judges every recorded call history of the real containers"
NOTE["N01"] = "networks are specified as a dataflow machine in spec/Network.tla, model-checked over every acyclic graph of 4 nodes (thorough: 5) and every firing order; TLC judges every forward, backward and update event recorded from the real nodes on random graphs"
NOTE["N02"] = "the training loop (epochs, batches, losses, kept version) is specified in spec/Train.tla and model-checked for all small settings; TLC judges every recorded training of the real loop with probe layers whose version shows what was kept, and every reported accuracy"
NOTE["N03"] = "the stopping rule is specified over histories in spec/ExitStrategy.tla (incremental state against the definition over the whole history, model-checked); TLC judges every recorded history of the real strategy, alone and inside real trainings with measured times"

NOTE["N05"] = "the update rules are specified element by element in fixed point in spec/Optimizer.tla (state is the fold of the parameter's own gradients, model-checked over every interleaving); TLC judges every step the real optimizers and layers take"
NOTE["N04"] = "what is in memory and what is stored is a machine over abstract knowledge (spec/ModelStore.tla, model-checked over histories, with the written description of a network shown to read back); TLC judges every recorded history of saves, loads and trainings on random network graphs: same knowledge, same answers and same files"
NOTE["T01"] = "every operation is specified element by element in fixed point in spec/Tensor.tla (algebraic laws model-checked over small tensors); TLC evaluates every recorded program of compositions and compares shapes, elements and bulk accessors"
NOTE["N06"] = "answers, errors and weight gradients of every layer and the value and error of every loss are specified in fixed point in spec/Layers.tla; TLC shows them to be derivatives of one another (unit probes for the linear layers, differences over a grid for the others) and judges every forward, backward and update recorded from real layers, every real loss, and that a real training step of a random network gains what its length promises"
NOTE["K01"] = "tasks (columns learnt, damage, what can be executed, what a network of known weights answers) are specified in spec/Task.tla over spec/Dataset.tla and model-checked; TLC judges every recorded history of creating tasks, planting networks with known weights, damaging tasks and executing them on datasets and inputs"

NOTE["N07"] = "searches (brackets, rounds, resources, what is kept, the best) are specified in spec/Hyperband.tla and model-checked over every assignment of scores, diverged and failing ones included; TLC judges every evaluation and result of recorded searches of the real code, with given scores (through the one hook) and with real ones"
NOTE["C01"] = "a save and a create are specified as sequences of file effects that can stop anywhere (spec/CrashPoint.tla, spec/Pipeline.tla), model-checked for what may be found afterwards; the real process is ended before every one of its effects and half-way through every write, and TLC judges what a fresh process finds there and after trying again"
