PROPERTY = "R04"
NEEDS = """A malformed message on the topic of the losses (whose handler logs nothing and catches nothing itself), then any later call."""
BREAKS = """suppress_exceptions is set before reinitialise(), which resets it: the first malformed loss message ends the receiving thread and
every later call times out."""
F = "demo/demo_lib/demo_lib/mqtt.py"
EDITS = [(F, '''    client.reinitialise(client_id=name, clean_session=True)
    client.username_pw_set(user, pwd)
    client.connect(host, port, keep_alive)
    client.suppress_exceptions = True  # Do not die on an exception inside a callback
''', '''    client.suppress_exceptions = True  # Do not die on an exception inside a callback
    client.reinitialise(client_id=name, clean_session=True)
    client.username_pw_set(user, pwd)
    client.connect(host, port, keep_alive)
''')]
HELPERS = ["_remote.py"]
DEMO = """
from remote import Net
from demo_lib.fpga import LossFPGA
from demo_lib.mqtt import create_client

c = create_client("n", "u", "p", "localhost", 1883, 60)
f = LossFPGA(c, "L", "M", timeout=0.3)
c.device = lambda t, p: c.deliver("L", {"loss": 4.5})
assert f(Net()) == 4.5
for junk in (b"\\xff\\xfe", b'{"loss": ', b'{"other": 1}', b'{"loss": "x"}', b"[]", b"null"):
    c.deliver("L", junk)
    assert c.alive, ("a malformed message ended the receiving thread", junk)
    assert f(Net()) == 4.5
"""
