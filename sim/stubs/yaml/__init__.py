"""Stand-in: JSON (a subset of YAML) and plain nested maps of scalars."""
import json


class YAMLError(Exception):
    pass


class FullLoader:
    pass


class SafeLoader:
    pass


Loader = CLoader = CSafeLoader = UnsafeLoader = FullLoader


def _scalar(t):
    t = t.split(" #")[0].strip()
    if t in ("", "~", "null", "Null", "NULL"):
        return None
    if t in ("true", "True", "TRUE"):
        return True
    if t in ("false", "False", "FALSE"):
        return False
    if len(t) > 1 and t[0] == t[-1] and t[0] in "'\"":
        return t[1:-1]
    for f in (int, float):
        try:
            return f(t)
        except ValueError:
            pass
    return t


def _maps(text):
    root = {}
    stack = [(-1, root)]
    for line in text.splitlines():
        s = line.strip()
        if not s or s.startswith("#") or s in ("---", "..."):
            continue
        k, sep, v = s.partition(":")
        if not sep or s.startswith("- ") or v and not v.startswith(" "):
            raise YAMLError(f"the stand-in does not read {line!r}")
        ind = len(line) - len(line.lstrip())
        while stack[-1][0] >= ind:
            stack.pop()
        if v.strip():
            stack[-1][1][k.strip()] = _scalar(v)
        else:
            d = stack[-1][1][k.strip()] = {}
            stack.append((ind, d))
    return root


def safe_load(s, Loader=None):
    t = s.read() if hasattr(s, "read") else s
    if isinstance(t, bytes):
        t = t.decode("utf-8")
    try:
        return json.loads(t)
    except ValueError:
        pass
    if not t.strip():
        return None
    return _maps(t)


load = full_load = safe_load


def safe_dump(d, f=None, **_):
    t = json.dumps(d)
    return t if f is None else f.write(t)


dump = safe_dump
