#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
D = "demo/demo_lib/demo_lib/"
E = "inference_engine/itcl_inference_engine/"
Q = "quantizer/itcl_quantizer/"
C = "core/itcl_quantization/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- remote
p("R01", "A remote inference never returns rows that answer another request",
  "A remote inference over the message broker either returns, in row order, exactly the accelerator's answers to the requests of that very call, or reports failure. Late, duplicated, reordered, foreign or malformed result messages, and results of earlier or abandoned calls, never show up in what it returns.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence of calls, every interleaving of the calling thread with the broker callback thread, and every loss, duplication, delay, reordering, disconnection, device crash or stall and garbage message on the result topic",
  "No test exercises the broker client at all (paho is not installed); the failure needs a result that crosses the timeout of one request and lands in the next one.",
  [D+"fpga.py", D+"mqtt.py"],
  [("one pending request at a time, result buffer cleared before each request", D+"fpga.py: InferFPGAMQTT.__call__"),
   ("result callback hands the decoded tensor to the waiting call", D+"fpga.py: InferFPGAMQTT.on_result")],
  [("result buffer and event", "the last received result and whether one arrived", D+"fpga.py: InferFPGAMQTT")],
  ["value returned by a remote inference call", "messages seen by the broker"])
p("R02", "Requests of one call cover the batch exactly once within the size limit",
  "Each remote inference first publishes the network it was given and then requests that together carry every input row exactly once, in order, none larger than the configured maximum batch size; this holds for every batch length, shorter than the limit and not divisible by it included.",
  ["inputs", "schedules", "fault_sequences"],
  "every batch length, row width and maximum batch size, under every result latency and interleaving; a failed call may stop early but what it did publish is a prefix of that sequence",
  "No test calls the remote client; the demo only ever runs one batch size that equals the limit.",
  [D+"fpga.py"],
  [("splitting of the batch", D+"fpga.py: InferFPGAMQTT.__call__"), ("wire format of a request", D+"fpga.py: Input")],
  (), ["messages seen by the broker"])
p("R03", "Remote calls end within their timeouts and recover once faults stop",
  "Every remote inference or remote loss evaluation returns, or reports failure, within the configured timeout for each request it published (plus scheduling slack), whatever is lost; when nothing goes wrong it ends as its last answer arrives, not when a timeout runs out. Once faults stop and the connection is back, the next call succeeds without rebuilding the client.",
  ["fault_sequences", "schedules", "histories"],
  "every sequence of message losses, device crashes and restarts, stalls, garbage messages, wall-clock jumps and broker disconnections, followed by a fault-free suffix",
  "Liveness after an arbitrary fault history cannot be sampled by unit tests, and none drives the client.",
  [D+"fpga.py", D+"mqtt.py"],
  [("bounded wait on the result event", D+"fpga.py: InferFPGAMQTT.__call__, LossFPGA.__call__"),
   ("failure reporting", D+"mqtt.py: log_exception"), ("result topic subscription", D+"fpga.py: constructors")],
  (), ["simulated time at which a call ends", "outcome of the first call of the fault-free suffix"])
p("R04", "No message on the broker can stop or poison the client",
  "Whatever arrives on the result topics (non-UTF-8 bytes, truncated or wrongly typed JSON, missing fields, impossible shapes), the thread that receives messages stays alive, nothing of it reaches a caller as a result, and a well-formed answer arriving afterwards within the timeout is still delivered.",
  ["fault_sequences", "inputs", "schedules"],
  "every payload, at every moment of every call, for inference and loss clients created the way the demo creates them",
  "No test delivers a message; robustness quantifies over all payloads and moments.",
  [D+"fpga.py", D+"mqtt.py"],
  [("exceptions in callbacks are suppressed", D+"mqtt.py: create_client, log_exception"),
   ("result callbacks", D+"fpga.py: on_result of both clients")],
  (), ["liveness of the receiving thread", "outcome of calls during which garbage arrived"])
p("R05", "A remote loss is the accelerator's answer to the network of that call",
  "A remote loss evaluation publishes exactly the network it was given, once, and either returns the loss the accelerator reported for that network in a message received after the call began, or raises an error; a loss received before the call is never returned, and no answer in time is always an error.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence of evaluations, every interleaving of caller and callback thread, and every loss, duplication, delay and device stall",
  "No test calls it; the failure needs an answer to cross a call boundary.",
  [D+"fpga.py"],
  [("event cleared before publishing", D+"fpga.py: LossFPGA.__call__"), ("timeout raises", D+"fpga.py: LossFPGA.__call__")],
  [("last loss and event", "latest reported loss", D+"fpga.py: LossFPGA")],
  ["value returned or raised", "messages seen by the broker"])
# ---------------------------------------------------------------- engine
p("E01", "Concurrent inference on a shared network equals isolated inference",
  "A loaded network can be shared by any number of threads: every inference returns bit for bit what the same call returns when it runs alone on a freshly loaded copy, whatever other inferences or network loads run at the same time. An array already returned to a caller never changes afterwards.",
  ["schedules", "inputs", "programs"],
  "every interleaving, at bytecode granularity, of concurrent inference calls and network constructions, for networks of every supported layer type of both engines, recurrent and look-up-table layers included",
  "The tests run one layer on one input in one thread; nothing about sharing can be observed there.",
  [E+"network/sequential.py", E+"layers/itclq/lstm.py", E+"layers/common/lut.py", E+"layers/tflite/fullyconnected.py", E+"layers/onnx/q_linear_mmul.py", C+"quantization/lut.py"],
  [("layers keep no per-call state that they read back", E+"layers/"), ("recurrent state is local to the call", E+"layers/itclq/lstm.py: LSTM.infer")],
  [("intermediate results", "debugging copies of layer outputs", E+"network/sequential.py")],
  ["return values of every call", "returned arrays at the end of the run"])
p("E02", "An aborted inference leaves no trace",
  "If an inference fails at any point (bad input, memory exhaustion, interruption), later inferences on the same network return exactly what they return on a fresh network. No inference, failed or not, modifies the caller's input or the model description it was built from.",
  ["crash_points", "fault_sequences", "histories"],
  "every point of every inference at which an exception can be raised, and every sequence of failing and succeeding calls",
  "No test makes an inference fail midway or calls a network twice.",
  [E+"network/sequential.py", E+"layers/itclq/lstm.py", E+"layers/common/lut.py", E+"layers/tflite/fullyconnected.py"],
  [("input copied on entry", E+"network/sequential.py: infer"), ("no state written before completion is read later", E+"layers/")],
  (), ["results after an aborted call", "caller's arrays and model description"])
p("E03", "Each row's answer is independent of its batch and of call history",
  "For every network that accepts batches, the outputs of a row do not depend on the other rows of its batch, on how a batch is split into calls, on the order of the calls, on how many calls came before, or on whether the layers' values are logged.",
  ["histories", "inputs", "schedules"],
  "every way to split, reorder, repeat and interleave the rows of a data set over calls and threads",
  "The tests infer single fixed inputs once.",
  [E+"layers/onnx/softmax.py", E+"layers/itclq/lstm.py", E+"layers/tflite/fullyconnected.py", E+"network/sequential.py"],
  [("row-wise layer arithmetic", E+"layers/"), ("recurrent state starts from zero in each call", E+"layers/itclq/lstm.py")],
  (), ["rows returned under different batchings"])
p("E04", "A model file is loaded completely and faithfully or not at all",
  "Loading a model file yields a network only if the whole file was read, and that network's description and answers are those of the description that was written. A file that is missing, torn, still being written, unreadable, or that names an unknown engine or layer raises an error and yields no network.",
  ["fault_sequences", "crash_points", "schedules"],
  "every truncation point, read error, short read and interleaving with a writer, for every supported network",
  "No stable test loads a model file.",
  [E+"network/sequential.py", E+"layers/tflite/build_layer.py", E+"layers/onnx/build_operator.py"],
  [("whole-document JSON parse", E+"network/sequential.py: from_json_file"), ("unknown layers rejected", E+"layers/tflite/build_layer.py, layers/onnx/build_operator.py")],
  (), ["exception or network returned by loading"])
# ---------------------------------------------------------------- quantizer
p("Q01", "Equalising quantization parameters never makes the network worse",
  "Whatever the loss function returns and however the random search goes, parameter equalisation ends with a network whose loss is not higher than before it started; the loss it reports is the loss of the network it leaves behind, and that network is the best one it accepted.",
  ["histories", "inputs", "schedules"],
  "every sequence of random moves, every loss function (plateaus, ties, infinite and not-a-number values included), every network and data type",
  "The quantizer has no runnable tests; the guarantee ranges over all random histories.",
  [Q+"equalizers/param_equalizer/bfs_equalizer.py", Q+"equalizers/param_equalizer/abstract_param_optimizer.py", Q+"equalizers/param_equalizer/param_equalizer.py", Q+"tensor_extractor/tensor.py"],
  [("keep the best, restore it on rejection", Q+"equalizers/param_equalizer/bfs_equalizer.py: optimize"),
   ("copying parameters requantizes dependants", Q+"equalizers/param_equalizer/abstract_param_optimizer.py: copy")],
  (), ["loss of the network before and after", "every loss evaluation in between"])
p("Q02", "Adaptive rounding never makes the network worse",
  "Whatever the loss function returns and however the annealing goes, adaptive rounding of a layer ends with the best rounding it evaluated applied to the network: the loss afterwards is not higher than before, equals the loss it reports, and a zero loss is kept once found.",
  ["histories", "inputs"],
  "every sequence of random flips and acceptance decisions, every loss function, every network of dense and recurrent layers",
  "The quantizer has no runnable tests; the guarantee ranges over all random histories.",
  [Q+"equalizers/adaround/annealer.py", Q+"equalizers/adaround/adaround.py", Q+"tensor_extractor/tensor.py", Q+"tensor_extractor/keras/layers/keras_dense.py", Q+"tensor_extractor/keras/layers/keras_lstm.py"],
  [("annealing followed by a descent to a local minimum", Q+"equalizers/adaround/annealer.py"), ("best rounding applied at the end", Q+"equalizers/adaround/adaround.py: round")],
  (), ["loss before and after each layer", "every rounding evaluated"])
p("Q03", "Integers, bias scales and tables always match the current parameters",
  "Whenever the network is evaluated or written during quantization, every stored integer tensor is the quantization of its float tensor under the node's current scale, zero point and rounding, every dense bias scale is the product of its input and kernel scales, and every activation table is the one its current input and output parameters and rounding define; scales stay positive and zero points stay within the type of their tensor.",
  ["histories", "programs"],
  "every sequence of parameter and rounding updates made by the optimizers, for every network and random history",
  "Needs long random update histories over linked nodes; nothing of the quantizer is tested.",
  [Q+"tensor_extractor/tensor.py", Q+"tensor_extractor/keras/layers/keras_dense.py", Q+"tensor_extractor/keras/layers/activations.py", Q+"tensor_extractor/keras/layers/keras_lstm.py"],
  [("update hooks that requantize dependants", Q+"tensor_extractor/keras/layers/keras_dense.py: quantize"), ("requantization on parameter change", Q+"tensor_extractor/tensor.py")],
  [("hook lists", "dependants to requantize", Q+"tensor_extractor/tensor.py: NodeTensorBase")],
  ["model description at each loss evaluation"])
p("Q04", "The model file is replaced atomically or not at all",
  "A build that fails, is killed, loses power, or hits a full or failing disk at any instant leaves the previous model file at the output path untouched, or the complete new one, never a torn file. A build that succeeds leaves a file that loads into a network identical to the one it returns.",
  ["crash_points", "fault_sequences"],
  "every instant of the build, every write, flush, sync, rename and close that can fail or be cut short, every failure of the loss function or of model loading",
  "No test runs a build; crash and disk faults need injection.",
  [Q+"tensor_extractor/keras/keras_builder.py", Q+"util/network.py", Q+"quantizer/distributions/distribution.py"],
  [("model written at the end of the build", Q+"tensor_extractor/keras/keras_builder.py: build"), ("serialisation to plain numbers", Q+"tensor_extractor/tensor.py: as_json")],
  (), ["bytes at the output path after the crash", "network loaded from them"])
p("Q05", "A failing loss function aborts the build loudly",
  "If the loss function raises at any evaluation, the build raises that error and never returns a network or writes a model file; errors are never taken for a loss value.",
  ["fault_sequences", "crash_points"],
  "every evaluation index at which the loss function can fail, every exception type, every optimizer combination",
  "No test runs a build with a failing loss.",
  [Q+"tensor_extractor/keras/keras_builder.py", Q+"equalizers/param_equalizer/param_equalizer.py", Q+"equalizers/adaround/adaround.py", Q+"equalizers/adaround/annealer.py", Q+"equalizers/param_equalizer/bfs_equalizer.py"],
  [("exceptions propagate through the optimizers", Q+"equalizers/")],
  (), ["exception raised by the build", "output path"])
p("Q06", "A network handed to the loss function is a snapshot",
  "The network given to the loss function, its description included, never changes after it was handed over, while and after the optimizers continue, so that it may be evaluated later or on another thread; evaluating or even modifying it does not influence the network being optimized.",
  ["schedules", "histories"],
  "every interleaving of background evaluations with the optimizer, every random history",
  "Needs evaluation that overlaps with optimisation; nothing of the quantizer is tested.",
  [Q+"util/network.py", Q+"tensor_extractor/operator.py", Q+"tensor_extractor/tensor.py", Q+"equalizers/param_equalizer/param_equalizer.py", Q+"equalizers/adaround/adaround.py"],
  [("description rebuilt for each evaluation", Q+"util/network.py: as_sequential_network")],
  (), ["snapshots compared with their copies at the end"])
p("Q07", "Builds are isolated and repeatable",
  "The model a build produces depends only on its own model, data, configuration and random seed: not on earlier, failed or concurrent builds in the process. A build modifies neither the source model, the representative data nor the configuration.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence and interleaving of builds, aborted ones included",
  "Needs several builds in one process; nothing of the quantizer is tested.",
  [Q+"tensor_extractor/keras/keras_builder.py", Q+"tensor_extractor/keras/layers/keras_dense.py", Q+"tensor_extractor/keras/layers/keras_lstm.py", Q+"config/models/keras.py", Q+"tensor_extractor/operator.py"],
  [("layers copied before they are altered", Q+"tensor_extractor/keras/layers/keras_dense.py"), ("per-build objects", Q+"tensor_extractor/keras/keras_builder.py")],
  (), ["model files of repeated builds", "inputs after the build"])
p("Q08", "QUBO rounding applies exactly what the sampler answered",
  "For every answer the annealing sampler gives, optimal or not, the rounding applied to a dense layer is binary, shaped like its kernel and bias, and equal to that answer; the problem submitted for each output unit has as its energy, up to a constant, the mean squared output error of that rounding on the representative data. A sampler failure raises and leaves the rounding as it was.",
  ["fault_sequences", "inputs"],
  "every sampler answer and failure point, every layer size, data set and quantization parameters",
  "The optimizer needs quantum-annealing libraries that no test has; sampler answers are nondeterministic.",
  [Q+"equalizers/adaround/qubo.py", Q+"equalizers/adaround/qubocalculation.py", Q+"equalizers/adaround/Calculationsint.py", Q+"equalizers/adaround/adaround.py"],
  [("problem construction per output unit", Q+"equalizers/adaround/qubocalculation.py"), ("sample decoding", Q+"equalizers/adaround/qubocalculation.py: Tensor_Redondeo")],
  (), ["problems submitted", "rounding of the layer afterwards"])
p("Q09", "A build can be reproduced on another day and machine",
  "The same source model, data, configuration, loss function and seeds of the random generators give the same quantized model (up to generated_at), through the same evaluations, and that model the same answers, in every process: the clock, the speed of the machine or of the loss, system entropy, hash seed and memory addresses of the interpreter, process number, processor count, host, environment and working directory have no influence.",
  ["configurations", "schedules", "inputs"],
  "every clock and clock speed, entropy, hash seed, object address, process and host identity under which the same build is repeated",
  "A test runs once, in one process, on one machine: nothing that differs between machines can show.",
  [Q+"tensor_extractor/keras/keras_builder.py", Q+"equalizers/param_equalizer/abstract_param_optimizer.py", Q+"equalizers/param_equalizer/bfs_equalizer.py", Q+"equalizers/adaround/annealer.py", Q+"equalizers/eq_bundler.py", Q+"util/network.py"],
  [("all randomness from the seeded generators", Q+"equalizers/param_equalizer/abstract_param_optimizer.py"), ("ordered collection of nodes", Q+"equalizers/eq_bundler.py")],
  (), ["model file and model of both processes", "losses evaluated", "answers of the models"])
p("S01", "Faults on the way to the accelerator never change the quantized model",
  "A quantization whose loss is computed by remote inference either fails, or produces exactly the model it produces with the same random seed when nothing goes wrong on the broker.",
  ["schedules", "fault_sequences", "histories"],
  "every loss, duplication, delay and reordering of requests and results, device stall, garbage message and interleaving during the whole quantization",
  "The whole system (quantizer, engine, broker client, device) is never run together by any test.",
  [D+"fpga.py", Q+"tensor_extractor/keras/keras_builder.py", Q+"equalizers/param_equalizer/bfs_equalizer.py", E+"network/sequential.py"],
  [("remote inference as loss", "demo/x3_fpga/quantize_x3.py"), ("result matching", D+"fpga.py")],
  (), ["model file of the faulty run against the fault-free run"])
p("P01", "The demonstration program ends, and success means a reported and complete model",
  "Every start of demo/x3_fpga/quantize_x3.py ends within bounded time, whatever happens to the broker, the accelerator, the messages or the disk. If it ends with "
  "status 0, tmp.json holds the complete quantized model, the same one whichever accelerator evaluates it (cpu, fpga or fpga-loss), and the loss of that model has "
  "been printed, also when the output goes to a file or a pipe; if anything prevented that, the status is not 0 and tmp.json is as before or complete. For fpga-loss the "
  "data set sent to the accelerator is the one the model is quantized with. When nothing goes wrong the status is 0. (An update of the network that is lost unnoticed is "
  "the known finding of S01.)",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "every loss, delay and duplication of messages, broker outage, device crash or stall, disk error and schedule of the program's threads, every accelerator, model and batch",
  "No test starts the program; it needs a broker, an accelerator and model files.",
  ["demo/x3_fpga/quantize_x3.py", D+"fpga.py", D+"mqtt.py", Q+"tensor_extractor/keras/keras_builder.py"],
  [("background network thread", "demo/x3_fpga/quantize_x3.py: mqtt_thread"), ("exit status", "demo/x3_fpga/quantize_x3.py: os._exit"),
   ("data set and loss on the accelerator", "demo/x3_fpga/quantize_x3.py: REPR_DATASET")],
  (), ["exit status", "standard output", "tmp.json", "messages to the accelerator"])
# ---------------------------------------------------------------- converters
M = "model_converters/"
p("C01", "A converted model says exactly what its source says, or the conversion fails",
  "Converting a Keras model (keras2json.convert), an ONNX model (model2json) or a TFLite file (itcl_tflite2json.convert) yields a description with exactly the source's "
  "operators in order, its tensors, shapes, types, names, scales, zero points and attributes, and for table-driven activations the table of the rounded activation, "
  "whatever other conversions ran before it, failed, were interrupted or run beside it in the same process. A source with an unsupported layer, a missing tensor or a "
  "damaged, missing or unreadable file makes the conversion raise instead of yielding a description. The source model is not changed, and a description that was "
  "handed over is not changed by later conversions.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every supported source model (including layers without bias, models whose parameters changed between two conversions, and different models with the same names), every "
  "history and interleaving of conversions in one process, every point of interruption, and read errors and damaged files",
  "The only converter test covers one activation table; nothing runs two conversions in one process, and the converters' libraries are absent.",
  [M+"keras2json/keras2json/_convert.py", M+"onnx2json/2json.py", M+"onnx2json/helpers/graph.py", M+"tflite2json/itcl_tflite2json/__init__.py",
   M+"tflite2json/itcl_tflite2json/operators/BaseOperator.py"],
  [("layer by layer translation", M+"keras2json/keras2json/layers/"), ("operator builders", M+"onnx2json/helpers/nodeBuilders/"),
   ("tensors looked up by name in the interpreter", M+"tflite2json/itcl_tflite2json/operators/BaseOperator.py")],
  [("settings", "depth and minimum removal of reduced tables, shared by all conversions", M+"tflite2json/itcl_tflite2json/util/settings.py")],
  ["the description returned or written", "the source model afterwards"])
p("C02", "A converter replaces an output file completely or not at all",
  "Each output file of a converter (TFLite convert and its folder program, the Keras and the ONNX folder programs) is at every moment, for every reader and after every "
  "process crash, power loss, disk error, interruption or failing source model, either what it was before or the complete new description. A run that reports success "
  "left the new description in every output; a run that could not convert a model of the folder reports failure; and a run after the fault succeeds, whatever "
  "the earlier ones left in the folder.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "every crash point (any operation or any step of code), every loss of unsynced data, disk error, short write and full disk, every order in which a folder is listed, every "
  "kind of previous output (none, older, other bytes, equal size, link), and concurrent readers and second runs",
  "No test writes a converted model, and none can crash in the middle of it.",
  ["core/itcl_quantization/json/files.py", M+"tflite2json/itcl_tflite2json/__init__.py", M+"tflite2json/itcl_tflite2json/_tflite2json.py", M+"keras2json/_main.py",
   M+"onnx2json/2json.py"],
  [("write to a temporary file, sync, replace", "core/itcl_quantization/json/files.py: write_json"), ("loop over the models of a folder", M+"keras2json/_main.py")],
  (), ["the output files"])
# ---------------------------------------------------------------- not applicable (pure)
p("N01", "Quantize and dequantize are inverse up to half a step",
  "For every data type, scale and zero point, quantizing a value in range and dequantizing it returns the value up to half a scale step, and values out of range saturate.",
  ["inputs"], "every value, scale, zero point and data type",
  "Tests sample a few values.", [C+"quantization/operators.py"],
  [("rounding and clipping", C+"quantization/operators.py: Quantization")])
p("N02", "A reduced look-up table equals the full table",
  "For every table, depth and minimum reduction, indexing the reduced table (also after serialisation) gives the entry of the full table.",
  ["inputs"], "every table, depth and index", "Tests sample random tables of a few functions.",
  [C+"quantization/lut.py"], [("head and tail pruning", C+"quantization/lut.py: ReducedLUT")])
p("N03", "Integer inference approximates the float network",
  "The integer-only inference of a quantized network stays within the accumulated quantization error of the float network it came from.",
  ["inputs", "programs"], "every network and input", "Tests check single layers on fixed inputs.",
  [E+"layers/tflite/fullyconnected.py", E+"layers/itclq/lstm.py", Q+"tensor_extractor/keras/layers/keras_dense.py"],
  [("integer multiplier and shift", E+"layers/tflite/fullyconnected.py")])
p("N04", "A converted model answers like its source model",
  "The inference of the description of a supported TFLite, ONNX or Keras model equals that of the source model up to quantization.",
  ["programs"], "every supported model", "The converters' dependencies are absent and no test runs them.",
  ["model_converters/tflite2json/itcl_tflite2json/_tflite2json.py"], [("operator-by-operator conversion", "model_converters/")])
p("N05", "Widening arithmetic never overflows silently",
  "Adding, subtracting or multiplying typed integers gives the exact result, in a type wide enough to hold it.",
  ["inputs"], "every pair of values and types", "Tests sample a few pairs.",
  [C+"quantization/operators.py"], [("double-width computation", C+"quantization/operators.py: Dtype")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
