"""Stand-in for paho.mqtt.client 1.6.1 on the simulated broker (sim/broker.py).

Same observable rules as the library: QoS 0 publishes are lost without a connection, a clean session forgets its
subscriptions when the connection drops, callbacks run on the thread inside loop_forever, an exception in a callback ends
that thread unless suppress_exceptions is set, reinitialise() resets every attribute.
"""
from __future__ import annotations

import time
from collections import deque

from sim import core

MQTTv31, MQTTv311, MQTTv5 = 3, 4, 5
MQTT_ERR_AGAIN = -1
MQTT_ERR_SUCCESS = 0
MQTT_ERR_NOMEM = 1
MQTT_ERR_PROTOCOL = 2
MQTT_ERR_INVAL = 3
MQTT_ERR_NO_CONN = 4
MQTT_ERR_CONN_REFUSED = 5
MQTT_ERR_NOT_FOUND = 6
MQTT_ERR_CONN_LOST = 7
MQTT_ERR_PAYLOAD_SIZE = 9
MQTT_ERR_UNKNOWN = 13
MQTT_ERR_QUEUE_SIZE = 15
CONNACK_ACCEPTED = 0
MQTT_LOG_INFO, MQTT_LOG_NOTICE, MQTT_LOG_WARNING, MQTT_LOG_ERR, MQTT_LOG_DEBUG = 1, 2, 4, 8, 16
MQTT_CLEAN_START_FIRST_ONLY = 3


def error_string(rc):
    return {0: "No error.", 4: "The client is not currently connected."}.get(rc, "Unknown error.")


def connack_string(rc):
    return "Connection Accepted." if rc == 0 else "Connection Refused: unknown reason."


def topic_matches_sub(sub, topic):
    s, t = sub.split("/"), topic.split("/")
    for i, p in enumerate(s):
        if p == "#":
            return True
        if i >= len(t) or (p != "+" and p != t[i]):
            return False
    return len(s) == len(t)


class MQTTMessageInfo:
    def __init__(self, mid, rc=0):
        self.mid = mid
        self.rc = rc
        self._done = rc == 0

    def is_published(self):
        if self.rc == MQTT_ERR_QUEUE_SIZE:
            raise ValueError("Message is not queued due to ERR_QUEUE_SIZE")
        return self._done

    def wait_for_publish(self, timeout=None):
        if self.rc == MQTT_ERR_QUEUE_SIZE:
            raise ValueError("Message is not queued due to ERR_QUEUE_SIZE")
        if self.rc == MQTT_ERR_NO_CONN:
            raise RuntimeError("Message publish failed: The client is not currently connected.")
        return None

    def __iter__(self):
        return iter((self.rc, self.mid))

    def __getitem__(self, i):
        return (self.rc, self.mid)[i]


class MQTTMessage:
    def __init__(self, mid=0, topic=b""):
        self.timestamp = 0.0
        self.mid = mid
        self._topic = topic
        self.payload = b""
        self.qos = 0
        self.retain = False
        self.dup = False
        self.state = 0
        self.properties = None

    @property
    def topic(self):
        return self._topic.decode("utf-8")

    @topic.setter
    def topic(self, v):
        self._topic = v


class Client:
    def __init__(self, client_id="", clean_session=None, userdata=None, protocol=MQTTv311, transport="tcp",
                 reconnect_on_failure=True):
        if clean_session is None:
            clean_session = True
        if not clean_session and not client_id:
            raise ValueError("A client id must be provided if clean session is False.")
        self._client_id = client_id.encode() if isinstance(client_id, str) else client_id
        self._clean_session = clean_session
        self._userdata = userdata
        self._reconnect_on_failure = reconnect_on_failure
        self._conn = None
        self._inbox = deque()
        self._waiter = None
        self._host = ""
        self._port = 1883
        self._keepalive = 60
        self._mid = 0
        self._disconnecting = False
        self._filtered = []
        self._queue = []            # QoS>0 messages waiting for a connection
        self._thread = None
        self._min_delay, self._max_delay = 1, 120
        self._delay = None
        self._logger = None
        self._connected_flag = False
        self.on_connect = None
        self.on_connect_fail = None
        self.on_disconnect = None
        self.on_message = None
        self.on_publish = None
        self.on_subscribe = None
        self.on_unsubscribe = None
        self.on_log = None
        self.on_pre_connect = None
        self.on_socket_open = self.on_socket_close = None
        self.suppress_exceptions = False

    def reinitialise(self, client_id="", clean_session=True, userdata=None):
        if self._conn is not None:
            self._world().drop(self._conn)
        self.__init__(client_id, clean_session, userdata)

    # ---- plumbing
    def _world(self):
        s = core.ACTIVE
        if s is None or getattr(s, "broker", None) is None:
            raise core.HarnessError("no simulated broker")
        return s.broker

    def _next_mid(self):
        self._mid = self._mid % 65535 + 1
        return self._mid

    def _wake(self):
        if self._waiter is not None:
            core.ACTIVE.wake(self._waiter)

    def _wait(self, deadline=None):
        s = core.ACTIVE
        self._waiter = s.cur
        try:
            s.block(deadline)
        finally:
            self._waiter = None

    def _push(self, item):
        self._inbox.append(item)
        self._wake()

    # ---- configuration
    def username_pw_set(self, username, password=None):
        self._user = username, password

    def user_data_set(self, u):
        self._userdata = u

    def will_set(self, *a, **k):
        pass

    will_clear = tls_set = tls_insecure_set = ws_set_options = proxy_set = will_set

    def max_inflight_messages_set(self, n):
        pass

    def max_queued_messages_set(self, n):
        return self

    def message_retry_set(self, n):
        pass

    def reconnect_delay_set(self, min_delay=1, max_delay=120):
        self._min_delay, self._max_delay = min_delay, max_delay

    def enable_logger(self, logger=None):
        self._logger = logger

    def disable_logger(self):
        self._logger = None

    def is_connected(self):
        return self._connected_flag and self._conn is not None

    # ---- connection
    def connect(self, host, port=1883, keepalive=60, bind_address="", bind_port=0, clean_start=3, properties=None):
        self._host, self._port, self._keepalive = host, port, keepalive
        return self.reconnect()

    def connect_async(self, host, port=1883, keepalive=60, *a, **k):
        self._host, self._port, self._keepalive = host, port, keepalive

    def reconnect(self):
        w = self._world()
        if self._conn is not None:
            w.drop(self._conn)
        self._inbox.clear()
        self._disconnecting = False
        self._conn = w.connect(self)       # ConnectionRefusedError when the broker is unreachable
        return MQTT_ERR_SUCCESS

    def disconnect(self, reasoncode=None, properties=None):
        self._disconnecting = True
        if self._conn is None:
            return MQTT_ERR_NO_CONN
        c = self._conn
        self._conn = None
        self._world().drop(c)
        self._push(("lost", c, 0))
        return MQTT_ERR_SUCCESS

    # ---- messages
    def publish(self, topic, payload=None, qos=0, retain=False, properties=None):
        if topic is None or len(topic) == 0:
            raise ValueError("Invalid topic.")
        if "+" in topic or "#" in topic:
            raise ValueError("Publish topic cannot contain wildcards.")
        if qos < 0 or qos > 2:
            raise ValueError("Invalid QoS level.")
        if isinstance(payload, str):
            data = payload.encode("utf-8")
        elif isinstance(payload, (bytes, bytearray)):
            data = bytes(payload)
        elif isinstance(payload, (int, float)):
            data = str(payload).encode("ascii")
        elif payload is None:
            data = b""
        else:
            raise TypeError("payload must be a string, bytearray, int, float or None.")
        s = core.ACTIVE
        s.point("publish")
        mid = self._next_mid()
        w = self._world()
        n = w.observe_publish(self, topic, data, qos)
        if self._conn is None:
            s.count("publish_without_connection")
            if qos == 0:
                return MQTTMessageInfo(mid, MQTT_ERR_NO_CONN)
            self._queue.append((topic, data, qos, retain, n))
            return MQTTMessageInfo(mid, MQTT_ERR_NO_CONN)
        w.send(self._conn, ("publish", topic, data, qos, retain, n))
        if self.on_publish:
            self._push(("published", self._conn, mid))
        return MQTTMessageInfo(mid, MQTT_ERR_SUCCESS)

    def subscribe(self, topic, qos=0, options=None, properties=None):
        if isinstance(topic, tuple):
            topic, qos = topic
        if isinstance(topic, str):
            lst = [(topic, qos)]
        elif isinstance(topic, list):
            lst = [(t, q) for t, q in topic]
        else:
            raise ValueError("No topic specified, or incorrect topic type.")
        for t, q in lst:
            if q < 0 or q > 2:
                raise ValueError("Invalid QoS level.")
            if not t:
                raise ValueError("Invalid topic.")
        core.ACTIVE.point("subscribe")
        if self._conn is None:
            return MQTT_ERR_NO_CONN, None
        mid = self._next_mid()
        self._world().send(self._conn, ("subscribe", [t for t, _ in lst]))
        if self.on_subscribe:
            self._push(("suback", self._conn, mid))
        return MQTT_ERR_SUCCESS, mid

    def unsubscribe(self, topic, properties=None):
        core.ACTIVE.point("unsubscribe")
        if self._conn is None:
            return MQTT_ERR_NO_CONN, None
        self._world().send(self._conn, ("unsubscribe", [topic] if isinstance(topic, str) else list(topic)))
        return MQTT_ERR_SUCCESS, self._next_mid()

    def message_callback_add(self, sub, callback):
        if callback is None or sub is None:
            raise ValueError("sub and callback must both be defined.")
        self._filtered = [(s, c) for s, c in self._filtered if s != sub] + [(sub, callback)]

    def message_callback_remove(self, sub):
        if sub is None:
            raise ValueError("sub must defined.")
        self._filtered = [(s, c) for s, c in self._filtered if s != sub]

    def topic_callback(self, sub):
        def deco(f):
            self.message_callback_add(sub, f)
            return f
        return deco

    # ---- loops
    def _call(self, cb, *args):
        try:
            cb(*args)
        except Exception as err:
            core.ACTIVE.count("exception_in_callback")
            _ = "Caught exception in user defined callback function %s: %s" % (cb.__name__, type(err).__name__)
            if not self.suppress_exceptions:
                raise

    def _handle(self, item):
        """One packet; returns an error code when the connection is gone."""
        kind = item[0]
        if kind == "message":
            _, conn, topic, data, uid = item
            m = MQTTMessage(0, topic.encode("utf-8"))
            m.payload = data
            m.timestamp = time.monotonic()
            w = self._world()
            w.received(self, uid, "begin")
            try:
                cbs = [c for s, c in self._filtered if topic_matches_sub(s, topic)]
                if not cbs and self.on_message is not None:
                    cbs = [self.on_message]
                for c in cbs:
                    self._call(c, self, self._userdata, m)
            finally:
                w.received(self, uid, "end")
        elif kind == "connack":
            self._connected_flag = True
            self._delay = None
            if self.on_connect:
                self._call(self.on_connect, self, self._userdata, {"session present": item[2]}, 0)
            q, self._queue = self._queue, []
            for item in q:
                if self._conn is not None:
                    self._world().send(self._conn, ("publish", *item))
        elif kind == "suback":
            if self.on_subscribe:
                self._call(self.on_subscribe, self, self._userdata, item[2], (0,))
        elif kind == "published":
            if self.on_publish:
                self._call(self.on_publish, self, self._userdata, item[2])
        elif kind == "lost":
            if self._conn is item[1]:
                self._conn = None
            self._connected_flag = False
            if self.on_disconnect:
                self._call(self.on_disconnect, self, self._userdata, item[2])
            return MQTT_ERR_SUCCESS if item[2] == 0 else MQTT_ERR_CONN_LOST
        return None

    def loop(self, timeout=1.0, max_packets=1):
        s = core.ACTIVE
        if timeout < 0.0:
            raise ValueError("Invalid timeout.")
        if not self._inbox:
            if self._conn is None:
                return MQTT_ERR_NO_CONN
            self._wait(s.now + timeout)
        if self._inbox:
            rc = self._handle(self._inbox.popleft())
            if rc is not None:
                return rc
        return MQTT_ERR_SUCCESS

    def loop_forever(self, timeout=1.0, max_packets=1, retry_first_connection=False):
        s = core.ACTIVE
        if self._conn is None and not self._inbox and not self._disconnecting:
            while True:
                try:
                    self.reconnect()
                    break
                except OSError:
                    if not retry_first_connection:
                        raise
                    self._sleep_reconnect()
        while True:
            rc = MQTT_ERR_SUCCESS
            while rc == MQTT_ERR_SUCCESS:
                while not self._inbox and not (self._thread_terminate or self._conn is None):
                    self._wait()
                if self._inbox:
                    r = self._handle(self._inbox.popleft())
                    if r is not None:
                        rc = r
                        break
                elif self._conn is None:
                    rc = MQTT_ERR_NO_CONN
                if self._thread_terminate and not self._inbox:
                    rc = 1
            if self._disconnecting or self._thread_terminate or not self._reconnect_on_failure:
                return rc
            while True:
                self._sleep_reconnect()
                if self._disconnecting or self._thread_terminate:
                    return rc
                try:
                    self.reconnect()
                    s.count("reconnect")
                    break
                except OSError:
                    if self.on_connect_fail:
                        self._call(self.on_connect_fail, self, self._userdata)

    _thread_terminate = False

    def _sleep_reconnect(self):
        s = core.ACTIVE
        self._delay = self._min_delay if self._delay is None else min(self._delay * 2, self._max_delay)
        end = s.now + self._delay
        while s.now < end and not self._disconnecting and not self._thread_terminate:
            self._wait(end)

    def loop_start(self):
        import threading
        if self._thread is not None:
            return MQTT_ERR_INVAL
        self._thread_terminate = False
        self._thread = threading.Thread(target=self.loop_forever, kwargs={"retry_first_connection": True})
        self._thread.daemon = True
        self._thread.start()

    def loop_stop(self, force=False):
        if self._thread is None:
            return MQTT_ERR_INVAL
        self._thread_terminate = True
        self._wake()
        if self._thread.ident != core.ACTIVE.cur.id + 1:
            self._thread.join()
            self._thread = None

    def loop_read(self, *a):
        return MQTT_ERR_SUCCESS

    loop_write = loop_misc = loop_read
