"""Text for the evidence files and the manifest."""

_R_REAL = ["demo_lib.fpga (InferFPGAMQTT, LossFPGA)", "demo_lib.mqtt.create_client and its callbacks",
           "itcl_inference_engine SequentialNetwork (schema of the published network)"]
_R_STUB = ["paho client library (same interface: connect, reconnect with back-off, callbacks on the loop thread, QoS)",
           "MQTT broker and TCP connection", "accelerator", "clock, timers, thread scheduler"]
_R_ASSUME = ["the stand-in of the paho client behaves as the library documents (ordered delivery per connection, "
             "subscriptions lost with a clean session)",
             "threads switch only inside code of the repository or at a blocking call; one thread runs at a time"]

DESCRIBE = {
    "R01": {"rule": "seeded random histories of remote inference calls with lost, late, duplicated, reordered, damaged, foreign and "
                    "replayed messages; nontrivial = a call succeeded while a fault was injected, or a call failed",
            "real": _R_REAL, "stub": _R_STUB, "assumptions": _R_ASSUME},
    "R02": {"rule": "seeded batches of 1..9 rows with size limits, with and without faults; nontrivial = more than one request or a fault",
            "real": _R_REAL, "stub": _R_STUB, "assumptions": _R_ASSUME},
    "R03": {"rule": "seeded histories with losses, cuts, broker outages, device crashes and wall-clock jumps, ended by a fault-free "
                    "recovery call; nontrivial = at least one fault",
            "real": _R_REAL, "stub": _R_STUB, "assumptions": _R_ASSUME},
    "R04": {"rule": "seeded histories with malformed messages timed around requests and answers; nontrivial = garbage was delivered",
            "real": _R_REAL, "stub": _R_STUB, "assumptions": _R_ASSUME},
    "R05": {"rule": "seeded histories of remote loss calls with lost, late, duplicated and damaged answers; nontrivial = at least one fault",
            "real": _R_REAL, "stub": _R_STUB,
            "assumptions": _R_ASSUME + ["histories of the listed known finding (class stale-loss) are excused and counted"]},
}

_E_REAL = ["itcl_inference_engine (all networks, layers, loader)", "itcl_quantization (tables, integer types)", "numpy"]
_E_STUB = ["thread scheduler, clock", "file layer (real files in a scratch directory behind a fault-injecting seam)"]
_E_ASSUME = ["threads switch only inside code of the repository (bytecode granularity) or at a blocking call; a numpy call is atomic"]
DESCRIBE.update({
    "E01": {"rule": "seeded random networks (TFLite, legacy, LSTM, ONNX), 2..4 threads inferring and loading concurrently, preempted at "
                    "bytecodes of the repository; nontrivial = more context switches than thread starts",
            "real": _E_REAL, "stub": _E_STUB[:1], "assumptions": _E_ASSUME},
    "E02": {"rule": "seeded inferences aborted by bad input or by an exception injected at a random step (MemoryError, KeyboardInterrupt, ...), "
                    "followed by good ones, with a second thread in part of the runs; nontrivial = an inference was aborted",
            "real": _E_REAL, "stub": _E_STUB[:1], "assumptions": _E_ASSUME},
    "E03": {"rule": "seeded batches split, reordered, repeated and interleaved across calls and threads; nontrivial = at least two rows",
            "real": _E_REAL, "stub": _E_STUB[:1],
            "assumptions": _E_ASSUME + ["floating-point outputs are compared up to 1e-11 relative, integer outputs exactly"]},
    "E04": {"rule": "seeded model files: whole, missing, torn, half overwritten, damaged bytes, unknown engine or layer, being rewritten during "
                    "the load, and read errors, short reads, failing opens; nontrivial = anything but a whole file without faults",
            "real": _E_REAL, "stub": _E_STUB, "assumptions": _E_ASSUME},
})

_RN = "Seeded search over schedules, message faults and timings of the real client code against a simulated broker and device; " \
      "not exhaustive. Trusts the stand-ins of the paho library, broker and device."
_EN = "Seeded search over interleavings, abort points and file faults of the real engine on random small networks; not exhaustive."
NOTES = {
    "R01": ("seeded broker/device faults, answers carry nonces and are attributed to requests afterwards", _RN),
    "R02": ("seeded batches and faults, published requests checked against the batch", _RN),
    "R03": ("seeded faults on a virtual clock, bounded duration and bounded recovery after faults stop", _RN),
    "R04": ("seeded malformed messages around answers, receiver liveness and delivery checked", _RN),
    "R05": ("seeded broker/device faults, losses carry nonces and are attributed to networks afterwards", _RN),
    "E01": ("seeded thread interleavings on shared networks, compared with isolated runs", _EN),
    "E02": ("seeded exception injection at bytecode steps, later answers compared with fresh networks", _EN),
    "E03": ("seeded call histories and batch splits, compared with single-row answers of fresh networks", _EN),
    "E04": ("seeded file faults and concurrent writers during loads, loaded network compared with what was written", _EN),
}

_Q_REAL = ["itcl_quantizer (builder, layers, distributions, equalizers, rounding optimizers, QUBO problem construction)", "itcl_quantization",
           "itcl_inference_engine (network handed to the loss function)", "numpy"]
_Q_STUB = ["tensorflow.keras (layers with the same arithmetic in float32, model files as JSON)", "simanneal (same acceptance rule)",
           "dimod, neal, greedy, dwave, qiskit (problem containers; answers come from the simulated sampler)", "pydantic (plain classes)",
           "random streams (one per simulated thread, seeded)", "clock, thread scheduler, file layer"]
_Q_ASSUME = ["source models are random small networks (1..3 dense layers of up to 4 units, optionally an LSTM of up to 3 units) with up to 6 rows of "
             "representative data", "models whose calibration is degenerate (a constant zero tensor) cannot be quantized and are skipped and counted"]


def _q(rule, *more):
    return {"rule": rule, "real": _Q_REAL, "stub": _Q_STUB, "assumptions": _Q_ASSUME + list(more)}


DESCRIBE.update({
    "Q01": _q("seeded models, losses (ties, zeros, NaN, infinities, float32, real error) and random streams through the equalizers and builds; every "
              "evaluation is recorded; nontrivial = at least two different networks were evaluated"),
    "Q02": _q("seeded models, losses and random streams through adaptive rounding (annealer and local search) and builds; every evaluation is "
              "recorded; nontrivial = at least two different networks were evaluated"),
    "Q03": _q("seeded histories of optimizers, builds and node operations; every description handed to the loss, left behind or written is audited "
              "against the float weights; every run counts"),
    "Q04": _q("seeded builds killed at a random file operation or bytecode (optionally losing power), on failing or full disks, interrupted by an "
              "exception, or concurrent with another build and a reader; every run whose model can be quantized counts",
              "a power loss keeps any prefix of the directory operations and of the data not yet synced; what was synced is kept"),
    "Q05": _q("seeded builds whose loss raises one of 30 kinds of exception at a chosen evaluation, once or from then on; nontrivial = it was raised"),
    "Q06": _q("seeded builds whose loss function keeps, re-checks (also on another thread, preempted at bytecodes) or destroys the networks it is "
              "given; nontrivial = at least two networks were kept"),
    "Q07": _q("seeded sequences of builds, failed builds and concurrent builds in one process sharing models, data or configuration, against each build "
              "alone; nontrivial = the models could be quantized",
              "the answers of samplers are a fixed function of the problem; random numbers are a stream per thread"),
    "Q08": _q("seeded QUBO roundings whose sampler answers at random, with the best, the worst or constant answers, or fails at a chosen call; all "
              "roundings of each unit are enumerated to compare energies with output errors; nontrivial = a problem was submitted",
              "energies are compared up to 1e-3 of the spread of the errors plus the single-precision error of the float outputs",
              "units with a weight next to an integer multiple of the scale in more than five places are skipped and counted"),
    "Q09": _q("seeded builds and optimizers, each repeated with the same decisions in a second interpreter (another hash seed, other object hashes) under another "
              "drawn clock, clock speed, duration of the loss, entropy, process number, host, processor count, environment and directory; nontrivial = "
              "networks were evaluated",
              "objects of the code under test get their hashes (the order of sets of them) from the simulator instead of their addresses"),
    "P01": {"rule": "seeded starts of the program with each accelerator, small models and batches, a terminal or a pipe as output, with message faults, cuts, "
                    "outages, device crashes and disk errors, against the same start on the CPU without faults; nontrivial = at least one fault",
            "real": ["demo/x3_fpga/quantize_x3.py"] + _R_REAL[:2] + _Q_REAL + ["inference engine on the simulated accelerator"],
            "stub": _R_STUB[:2] + _R_STUB[3:] + _Q_STUB[:4] + ["typer (options of the command line)", "os._exit and standard output of the process"],
            "assumptions": _R_ASSUME + _Q_ASSUME + ["the program is started in its own folder",
                                                    "starts in which an update of the network was lost are judged on their end and file only"]},
    "S01": {"rule": "seeded quantizations whose loss is remote inference, with message faults, cuts, broker outages, device crashes and stalls, against the "
                    "same quantization without faults; nontrivial = at least one fault",
            "real": _R_REAL[:2] + _Q_REAL + ["inference engine on the simulated accelerator"], "stub": _R_STUB[:2] + _R_STUB[3:] + _Q_STUB[:4],
            "assumptions": _R_ASSUME + _Q_ASSUME + ["histories of the listed known finding (class lost-network) are excused and counted"]},
})
_QN = "Seeded search over loss values, random streams, faults and schedules of the real quantizer on random small models; not exhaustive. Trusts the " \
      "stand-ins for keras, simanneal and the sampler libraries."
NOTES.update({
    "Q01": ("seeded losses and random streams through the equalizers, outcome judged over the recorded evaluations", _QN),
    "Q02": ("seeded losses and random streams through adaptive rounding, outcome judged over the recorded evaluations", _QN),
    "Q03": ("seeded histories of optimizers and node operations, invariant audited at every evaluation", _QN),
    "Q04": ("seeded crash points, power loss, disk faults, interruptions and concurrent writers/readers of the model file", _QN),
    "Q05": ("seeded exception injection at loss evaluations of builds", _QN),
    "Q06": ("seeded interleavings of the optimizer with holders of its snapshots", _QN),
    "Q07": ("seeded histories and interleavings of builds in one process against isolated builds", _QN),
    "Q08": ("simulated sampler with seeded answers and failures, applied rounding compared with an enumeration of all roundings", _QN),
    "Q09": ("seeded builds repeated in another interpreter with drawn clock, speed, entropy, hashes and host, results compared", _QN),
    "P01": ("the demonstration program simulated as a process with message, broker, device and disk faults, its outcome compared with a fault-free CPU run", _QN),
    "S01": ("seeded broker/device faults during whole quantizations, compared with the fault-free execution", _QN),
})

_C_REAL = ["model_converters: keras2json, onnx2json, tflite2json (all converters and folder programs)",
           "itcl_quantization (tables, reduced tables, write_json)", "numpy"]
_C_STUB = ["tensorflow.keras models, tensorflow.lite interpreter, tflite accessors, onnx messages (same interfaces; model files as JSON)", "yaml (nested maps)",
           "clock, thread scheduler", "file layer (real files in a scratch directory behind a fault-injecting seam), order of folder listings"]
_C_ASSUME = ["source models are random small models (1..4 layers) of the supported kinds, per-tensor quantization, TFLite tensor names unique in a model",
             "the stand-ins of the model formats answer as the libraries document"]
DESCRIBE.update({
    "C01": {"rule": "seeded sequences, interrupted sequences and concurrent sets of conversions of random models, twins with equal names, changed models, "
                    "unsupported layers and damaged or unreadable files; nontrivial = at least two conversions",
            "real": _C_REAL, "stub": _C_STUB,
            "assumptions": _C_ASSUME + ["a source is not rewritten while it is being converted",
                                        "an entry of a table may be either neighbour when its exact value is within 1e-7 of the middle"]},
    "C02": {"rule": "seeded converter runs killed at a random file operation or step (optionally losing power), on failing or full disks, interrupted by an "
                    "exception, over folders with a failing model, or beside a second run and a reader; every run counts",
            "real": _C_REAL, "stub": _C_STUB,
            "assumptions": _C_ASSUME + ["a power loss keeps any prefix of the directory operations and of the data not yet synced; what was synced is kept"]},
})
_CN = "Seeded search over models, histories, interleavings and faults of the real converters; not exhaustive. Trusts the stand-ins for Keras, TFLite and ONNX " \
      "(none is installed)."
NOTES.update({
    "C01": ("seeded histories, interleavings, interruptions and read faults of conversions, each compared with what its source model says", _CN),
    "C02": ("seeded crash points, power loss, disk faults, interruptions, failing models and concurrent readers of the converted files", _CN),
})
