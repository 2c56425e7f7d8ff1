"""Stand-in for the part of typer the programs use: run() turns the parameters of a function into options of the command line."""
import enum
import inspect
import sys
import typing


class Exit(Exception):
    def __init__(self, code=0):
        super().__init__(code)
        self.exit_code = code


class Abort(Exception):
    pass


class BadParameter(Exception):
    pass


def echo(message=None, file=None, nl=True, err=False, **_):
    print("" if message is None else message, end="\n" if nl else "", file=file or (sys.stderr if err else sys.stdout))


secho = echo


def _convert(tp, text):
    if isinstance(tp, type) and issubclass(tp, enum.Enum):
        return tp(text)
    if tp is bool:
        return text.lower() in ("1", "true", "yes")
    return tp(text) if tp in (int, float, str) else text


def run(function):
    hints = typing.get_type_hints(function)
    names = {"--" + n.replace("_", "-"): n for n in inspect.signature(function).parameters}
    args, kw = list(sys.argv[1:]), {}
    try:
        while args:
            a = args.pop(0)
            a, eq, v = a.partition("=")
            kw[names[a]] = _convert(hints.get(names[a], str), v if eq else args.pop(0))
    except (KeyError, IndexError, ValueError) as e:
        print(f"Usage error: {e!r}", file=sys.stderr)
        raise SystemExit(2) from None
    try:
        function(**kw)
    except Exit as e:
        raise SystemExit(e.exit_code) from None
    except Abort:
        raise SystemExit(1) from None
    raise SystemExit(0)
