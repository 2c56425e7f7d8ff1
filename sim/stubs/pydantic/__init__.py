"""Stand-in for the part of pydantic the configuration classes use."""
import copy
import sys
import types
import typing

_MISSING = object()


class ValidationError(ValueError):
    pass


class FieldInfo:
    def __init__(self, default=_MISSING, default_factory=None):
        self.default, self.default_factory = default, default_factory


def Field(default=_MISSING, *, default_factory=None, **_):
    if default is ...:
        default = _MISSING
    return FieldInfo(default, default_factory)


def _check(tp, v, where):
    origin = typing.get_origin(tp)
    if tp is typing.Any or tp is object:
        return v
    if tp is None or tp is type(None):
        if v is not None:
            raise ValidationError(f"{where}: not None")
        return None
    if origin is typing.Union or origin is types.UnionType:
        args = typing.get_args(tp)
        for a in args:
            if isinstance(a, type) and type(v) is a:
                return _check(a, v, where)
        for a in args:
            try:
                return _check(a, v, where)
            except ValidationError:
                continue
        raise ValidationError(f"{where}: {v!r} matches none of {args}")
    if origin is typing.Literal:
        if v not in typing.get_args(tp):
            raise ValidationError(f"{where}: {v!r} is not one of {typing.get_args(tp)}")
        return v
    if origin in (dict,):
        k, e = typing.get_args(tp)
        if not isinstance(v, dict):
            raise ValidationError(f"{where}: not a dict")
        return {_check(k, a, where): _check(e, b, where) for a, b in v.items()}
    if origin in (list,):
        (e,) = typing.get_args(tp)
        if not isinstance(v, (list, tuple)):
            raise ValidationError(f"{where}: not a list")
        return [_check(e, a, where) for a in v]
    if isinstance(tp, type) and issubclass(tp, BaseModel):
        if isinstance(v, tp):
            return v
        if isinstance(v, dict):
            return tp(**v)
        raise ValidationError(f"{where}: not a {tp.__name__}")
    if tp is bool:
        if isinstance(v, bool) or v in (0, 1):
            return bool(v)
        raise ValidationError(f"{where}: not a bool")
    if tp is int:
        if isinstance(v, bool):
            return int(v)
        try:
            if int(v) == float(v):
                return int(v)
        except (TypeError, ValueError):
            pass
        raise ValidationError(f"{where}: {v!r} is not an int")
    if tp is float:
        try:
            return float(v)
        except (TypeError, ValueError):
            raise ValidationError(f"{where}: {v!r} is not a float") from None
    if tp is str:
        if isinstance(v, str):
            return v
        raise ValidationError(f"{where}: {v!r} is not a str")
    if isinstance(tp, type):
        if isinstance(v, tp):
            return v
        raise ValidationError(f"{where}: {v!r} is not a {tp}")
    return v


class BaseModel:
    def __init__(self, **kw):
        hints = {}
        for c in reversed(type(self).__mro__):
            ann = c.__dict__.get("__annotations__", {})
            for n, t in ann.items():
                if isinstance(t, str):
                    t = eval(t, vars(sys.modules[c.__module__]))  # noqa: S307
                hints[n] = t
        for n, t in hints.items():
            if n.startswith("_") or typing.get_origin(t) is typing.ClassVar:
                continue
            if n in kw:
                v = _check(t, kw[n], f"{type(self).__name__}.{n}")
            else:
                d = getattr(type(self), n, _MISSING)
                if isinstance(d, FieldInfo):
                    d = d.default_factory() if d.default_factory else d.default
                elif d is not _MISSING:
                    d = copy.deepcopy(d)
                if d is _MISSING:
                    raise ValidationError(f"{type(self).__name__}.{n}: field required")
                v = d
            self.__dict__[n] = v

    def _dump(self):
        def f(v):
            if isinstance(v, BaseModel):
                return v._dump()
            if isinstance(v, dict):
                return {k: f(e) for k, e in v.items()}
            if isinstance(v, (list, tuple)):
                return [f(e) for e in v]
            return v
        return {k: f(v) for k, v in self.__dict__.items()}

    def dict(self, **_):
        return self._dump()

    model_dump = dict

    def json(self, **_):
        import json
        return json.dumps(self._dump())

    model_dump_json = json

    def copy(self, deep=False, **_):
        return copy.deepcopy(self) if deep else copy.copy(self)

    model_copy = copy

    @classmethod
    def parse_obj(cls, d):
        return cls(**d)

    model_validate = parse_obj

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(f'{k}={v!r}' for k, v in self.__dict__.items())})"
