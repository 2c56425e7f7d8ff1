PROPERTY = "P01"
NEEDS = "The fpga-loss accelerator with a model whose plot data are not its training data (the small one)."
BREAKS = "The accelerator measures the loss on the data of the plot, the model is quantized with the training data: other losses than on the CPU choose and describe the model."
F = "demo/x3_fpga/quantize_x3.py"
EDITS = [(F, '''        repr_dataset = InputOutput.from_numpy("test", x_train, y_train)
''', '''        repr_dataset = InputOutput.from_numpy("test", x[:batch], y[:batch])
''')]
HELPERS = ["_build.py", "_remote.py", "_program.py"]
DEMO = """
from program import *

d = Device()
status, out, net = start(d, "--accelerator", "fpga-loss", "--model", "small", "--batch", "6")
if status != 0 or net is None:
    fail(f"status {status}")
x = np.load(path("create_model/x_train.npy"))[:6]
if d.set is None or d.set[0].shape != x.shape or not np.array_equal(d.set[0], x):
    fail("the data set sent to the accelerator is not the one the model is quantized with")
"""
