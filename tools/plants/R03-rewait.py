PROPERTY = "R03"
NEEDS = """Loss messages without a usable loss that keep arriving, less than one timeout apart, while a remote loss evaluation waits."""
BREAKS = """A message without a loss wakes the caller, who then waits for another full timeout: the evaluation never ends while such messages
keep coming."""
F = "demo/demo_lib/demo_lib/fpga.py"
EDITS = [
    (F, '''        was_timeout = not self._result_event.wait(timeout=self._timeout)

        if was_timeout:
            raise RuntimeError("Timeout, no result received")

        return self._loss
''', '''        while self._result_event.wait(timeout=self._timeout):
            if self._loss is not None:
                return self._loss
            self._result_event.clear()

        raise RuntimeError("Timeout, no result received")
'''),
    (F, '''        self._loss = float(res_dict["loss"])
''', '''        loss = res_dict.get("loss")
        self._loss = None if loss is None else float(loss)
'''),
]
HELPERS = ["_remote.py"]
DEMO = """
import threading
import time
from remote import Client, Net
from demo_lib.fpga import LossFPGA

c = Client()
c.suppress_exceptions = True
f = LossFPGA(c, "L", "M", timeout=0.3)
stop = threading.Event()

def junk():
    while not stop.wait(0.1):
        c.deliver("L", {"status": "busy"})

threading.Thread(target=junk, daemon=True).start()
done = threading.Event()

def call():
    try:
        f(Net())
    except Exception:
        pass
    done.set()

threading.Thread(target=call, daemon=True).start()
ok = done.wait(3.0)
stop.set()
assert ok, "the evaluation did not end within its timeout of 0.3 s"
"""
