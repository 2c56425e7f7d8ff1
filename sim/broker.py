"""Simulated MQTT broker, network and accelerator.

Everything happens as events on the simulator's heap.  Connections are ordered (TCP); what is lost is lost because a
connection drops, the broker sheds QoS 0 traffic, or the device fails.  The device's answers may be delayed, duplicated,
reordered or damaged.
"""
from __future__ import annotations

import json


class Conn:
    __slots__ = ("client", "subs", "alive", "t_out", "t_in", "n")

    def __init__(self, client, n):
        self.client = client
        self.subs = []
        self.alive = True
        self.t_out = 0.0     # arrival time of the last packet towards the broker
        self.t_in = 0.0
        self.n = n


def matches(sub, topic):
    s, t = sub.split("/"), topic.split("/")
    for i, p in enumerate(s):
        if p == "#":
            return True
        if i >= len(t) or (p != "+" and p != t[i]):
            return False
    return len(s) == len(t)


class Broker:
    def __init__(self, sim, faults=None, latency=(0.001,)):
        self.sim = sim
        self.ch = sim.ch
        self.conns = []
        self.up = True
        self.latency = latency
        self.faults = faults or {}
        self.published = []          # (t, topic, payload) in client order, as handed to the client library
        self.publisher = []          # thread of each
        self.devices = []
        self.uid = 0
        self.rx = {}                 # uid -> [begin, end] sequence stamps of callback processing
        self.msgs = {}               # uid -> (topic, payload)
        self.stamp = 0
        self.on_publish_observed = None
        sim.broker = self

    # fault helper: only draws while the kind is enabled
    def fault(self, kind):
        p = self.faults.get(kind, 0)
        if p and self.ch.chance(p):
            self.sim.count(kind)
            self.sim.log("fault", kind)
            return True
        return False

    def tick(self):
        self.stamp += 1
        return self.stamp

    # ---- client library side
    def connect(self, client):
        if not self.up:
            raise ConnectionRefusedError(111, "Connection refused")
        c = Conn(client, len(self.conns))
        c.t_out = c.t_in = self.sim.now
        self.conns.append(c)
        self.sim.log("connect", c.n)
        self._to_client(c, ("connack", c, False))
        return c

    def drop(self, conn):
        conn.alive = False
        conn.subs = []

    def observe_publish(self, client, topic, data, qos):
        self.published.append((self.tick(), topic, data, qos))
        self.publisher.append(self.sim.cur.id)
        self.sim.log("publish", topic.rsplit("/", 1)[-1], topic[:14], len(data))
        if self.on_publish_observed:
            self.on_publish_observed(topic, data, qos)
        return len(self.published) - 1

    def send(self, conn, packet):
        t = max(conn.t_out, self.sim.now + self.ch.pick(self.latency))
        conn.t_out = t
        self.sim.at(t, lambda: self._arrive(conn, packet), "to-broker")

    def received(self, client, uid, what):
        self.rx.setdefault(uid, [None, None])[0 if what == "begin" else 1] = self.tick()
        self.sim.log("callback", what, uid)

    # ---- broker side
    def _arrive(self, conn, packet):
        if not conn.alive or not self.up:
            return
        kind = packet[0]
        if kind == "subscribe":
            for t in packet[1]:
                if t not in conn.subs:
                    conn.subs.append(t)
        elif kind == "unsubscribe":
            conn.subs = [s for s in conn.subs if s not in packet[1]]
        elif kind == "publish":
            topic, data, qos = packet[1], packet[2], packet[3]
            if qos == 0 and self.fault("drop_request"):
                return
            self.route(topic, data, qos, packet[5])

    def route(self, topic, data, qos=0, pub=-1):
        """A message reached the broker: hand it to devices and subscribers."""
        for d in self.devices:
            if any(matches(s, topic) for s in d.topics):
                d.offer(topic, data, pub)
        for c in list(self.conns):
            if c.alive and any(matches(s, topic) for s in c.subs):
                self.uid += 1
                self.msgs[self.uid] = (topic, data)
                self._to_client(c, ("message", c, topic, data, self.uid))

    def _to_client(self, conn, item):
        t = max(conn.t_in, self.sim.now + self.ch.pick(self.latency))
        conn.t_in = t

        def deliver():
            if conn.alive and conn.client._conn is conn:
                conn.client._push(item)
        self.sim.at(t, deliver, "to-client")

    # ---- faults
    def cut(self):
        """Every connection breaks now; packets in flight are lost."""
        self.sim.log("fault", "disconnect")
        self.sim.count("disconnect")
        for c in self.conns:
            if c.alive:
                self.drop(c)
                if c.client._conn is c:
                    c.client._inbox.clear()
                    c.client._conn = None
                    c.client._push(("lost", c, 7))

    def go_down(self, dt):
        self.sim.count("broker_down")
        self.up = False
        self.cut()

        def up():
            self.up = True
        self.sim.after(dt, up, "broker-up")

    def vanish(self):
        """Down for good."""
        self.sim.count("broker_gone")
        self.up = False
        self.cut()

    def connected(self):
        return self.up and any(c.alive for c in self.conns)


class Device:
    """The accelerator: keeps the last network, answers requests one after the other.

    Every answer carries a nonce, so that each is attributable to the one request it answers.
    """

    def __init__(self, broker, model_topic, infer_topic=None, result_topic=None, loss_topic=None,
                 proc=(0.002,), answer=None, loss=None, needs_model=True):
        self.b = broker
        self.sim = broker.sim
        self.ch = broker.ch
        self.model_topic, self.infer_topic = model_topic, infer_topic
        self.result_topic, self.loss_topic = result_topic, loss_topic
        self.topics = [t for t in (model_topic, infer_topic) if t]
        self.proc = proc
        self.model = None
        self.model_no = 0
        self.epoch = 0
        self.up = True
        self.free_at = 0.0
        self.nonce = 0
        self.style = None        # what the numbers of this device look like
        self.by_id = {}          # identifier -> what was answered
        self.answers = {}        # number of the publish -> list of answer dicts (id, shape, tensor)
        self.losses = []         # (model_no, value)
        self.models = []         # parsed networks in order of arrival
        self.seen = []           # parsed requests
        self.bad = []            # requests that do not follow the wire format
        self.answer = answer or self._answer
        self.loss = loss or self._loss
        self.needs_model = needs_model
        broker.devices.append(self)

    def offer(self, topic, data, pub=-1):
        if not self.up:
            self.sim.count("lost_at_dead_device")
            return
        d = self.ch.pick(self.proc)
        if self.b.fault("stall_device"):
            d += self.ch.pick((0.5, 2.0, 3.5, 8.0))
        t = max(self.free_at, self.sim.now) + d
        self.free_at = t
        ep = self.epoch

        def work():
            if self.up and ep == self.epoch:
                self.handle(topic, data, pub)
        self.sim.at(t, work, "device")

    def crash(self, dt):
        self.sim.count("device_crash")
        self.sim.log("fault", "device_crash")
        self.up = False
        self.epoch += 1
        self.model = None

        def up():
            self.up = True
            self.free_at = self.sim.now
        self.sim.after(dt, up, "device-up")

    def vanish(self):
        """Down for good."""
        self.sim.count("device_gone")
        self.up = False
        self.epoch += 1

    def handle(self, topic, data, pub=-1):
        if topic == self.model_topic:
            try:
                self.model = json.loads(data.decode("utf-8"))
            except ValueError:
                self.bad.append(("model", data[:80]))
                return
            self.model_no += 1
            self.models.append(self.model)
            if self.loss_topic:
                v = self.loss(self.model)
                self.losses.append((self.model, v))
                self.reply(self.loss_topic, {"loss": v})
            return
        if topic == self.infer_topic:
            try:
                req = json.loads(data.decode("utf-8"))["input"]
                rid, shape, tensor = req["id"], req["shape"], req["tensor"]
            except Exception:
                self.bad.append(("request", data[:80]))
                return
            self.seen.append(req)
            if self.model is None and self.needs_model:
                self.sim.count("request_without_model")
                return
            out = self.answer(self.model, req)
            if out is None:
                return
            key = repr(rid)
            if key in self.by_id and self.b.late_dups:    # the earlier answer to this identifier arrives once more
                self.sim.count("late_duplicate")
                self.b.route(self.result_topic, self.by_id[key])
            self.by_id[key] = json.dumps(out).encode()
            self.answers.setdefault(pub, []).append(out)
            self.reply(self.result_topic, out)

    def _answer(self, model, req):
        self.nonce += 1
        rows = req["shape"][0]
        if self.style is None:
            self.style = self.ch.draw(6)
            self.width = self.ch.pick((40, 130)) if self.ch.chance(0.03) else 0
        w = self.width or 1 + len(str(req["id"])) % 2
        v = (float, int, lambda n: n + 1 / 3, lambda n: -float(n), lambda n: n * 1e-9, lambda n: n - 1000)[self.style]
        t = [v(self.nonce * 1000 + i) for i in range(rows * w)]
        return {"id": req["id"], "shape": [rows, w], "tensor": t}

    def _loss(self, model):
        self.nonce += 1
        n = self.nonce
        if self.style is None:
            self.style = self.ch.draw(7)
            self.odd = (self.ch.draw(3), self.ch.pick(ODD)) if self.ch.chance(0.06) else None
        if self.odd and n == self.odd[0] + 1:       # at most once, so that it stays attributable
            return self.odd[1]
        return (n + 0.5, n, n + 1 / 3, -n - 0.25, n * 1e-9 + 1e-10, n - 1.0, n * 1e300)[self.style]

    def reply(self, topic, obj):
        b = self.b
        data = json.dumps(obj).encode()
        if b.fault("damage_first"):
            self.publish_later(topic, damage(self.ch, obj, data), 0.0)
        if b.fault("damage_reply"):
            self.publish_later(topic, damage(self.ch, obj, data), 0.0)
            return
        if b.fault("drop_reply"):
            return
        delay = 0.0
        if b.fault("delay_reply"):
            delay = self.ch.pick((0.05, 0.9, 0.999, 1.0, 1.001, 1.5, 3.0, 6.0)) * b.delay_unit
        self.publish_later(topic, data, delay)
        if b.fault("dup_reply"):
            self.publish_later(topic, data, delay + self.ch.pick((0.0, 0.01, 0.5, 1.0, 2.5)) * b.delay_unit)

    def publish_later(self, topic, data, delay):
        if delay:
            self.sim.after(delay, lambda: self.b.route(topic, data), "late-reply")
        else:
            self.b.route(topic, data)


Broker.delay_unit = 3.0
Broker.late_dups = False


ODD = (float("inf"), float("-inf"), float("nan"))


def damage(ch, obj, data):
    """A spoilt version of an answer: never acceptable as one."""
    k = ch.draw(9)
    o = dict(obj)
    if k == 0:
        return data[: max(1, len(data) // 2)]
    if k == 1:
        return b"\xff\xfe" + data
    if k == 2:
        return b""
    if "tensor" in o:
        if k == 3:
            o.pop(ch.pick(("tensor", "shape", "id")))
        elif k == 4:
            o["shape"] = [o["shape"][0] + 1, o["shape"][1]]
        elif k == 5:
            o["tensor"] = o["tensor"][:-1]
        elif k == 6:
            o["tensor"] = "garbage"
        elif k == 7:
            o["tensor"] = ["x"] * len(o["tensor"])
        else:
            n = o["shape"][0] + 1
            o["tensor"] = [0.0] * (n * o["shape"][1])
            o["shape"] = [n, o["shape"][1]]
    else:
        o = [{"loss": None}, {"loss": "high"}, {"los": 1.0}, [1.0], {"loss": [1.0, 2.0]}, 3][k - 3]
    return json.dumps(o).encode()


GARBAGE = [
    b"", b"\x80\x81", b"{", b"[]", b"null", b"42", b'"x"', b"{}", b'{"id": "0"}', b'{"id": "0", "shape": [1, 1]}',
    b'{"id": "0", "shape": [2, 2], "tensor": [1.0]}', b'{"id": "0", "shape": null, "tensor": {}}',
    b'{"id": [], "shape": [1,1], "tensor": [5.0]}', b'{"id": "0", "shape": [1, 1], "tensor": [null]}',
    b'{"shape": [1, 1], "tensor": [7.0]}', b'{"id": {}, "shape": "a", "tensor": "b"}',
    b'{"loss": null}', b'{"loss": "low"}', b'{"loss": {}}', b"[" * 3000, b'{"id": null, "shape": [1,1], "tensor": [9.0]}',
    b'\xef\xbb\xbf{}', b'{"error": "device busy"}', b'{"id": "0", "shape": [1], "tensor": [1' + b"0" * 400 + b']}', b"NaN", b"-Infinity",
    b'{"loss": ' + b"[" * 2000, b'{"id": "0", "shape": [1e400, 1], "tensor": [1.0]}', b'{"id": "0", "shape": [true, 1], "tensor": 1.0}', b"9" * 5000, b'{"id": "0", "shape": [-1, 0], "tensor": []}',
]
