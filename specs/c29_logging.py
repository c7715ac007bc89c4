"""C29: aiomisc_log (configuration, JSON lines) and aiomisc.log (hooks)."""
import asyncio
import contextvars
import io
import itertools
import json
import logging
import logging.handlers
import sys
import time
import traceback

from pyvc import core
from pyvc.aio import NS
from pyvc.load import load, need

from .c26_servers import Thing, guard

ASSUME = ["the logging module makes records and calls its handlers as documented; json.dumps writes one line",
          "ThreadedHandler keeps its contract (C19)",
          "names of extra attributes are non-empty strings, not those of the fields of the format, and their values "
          "are no mappings whose keys JSON cannot hold"]
BOUNDED = {"line": "every level, message, exception and date format with up to two extra attributes and arguments",
           "config": "every format, up to two handlers", "loop_config": "up to two handlers",
           }
LEVEL = "other"
EXPLANATION = ("the hooks for unhandled exceptions are verified for every case; the JSON format and the configuration "
               "over a finite enumeration of records and options (bounded_stand_ins), and on random records; the "
               "counts of obligations are those of the former")
CONTRACTS = ["JSONLogFormatter.format (records of every kind)", "aiomisc_log.basic_config, create_logging_handler",
             "UnhandledPythonHook, UnhandledLoopHook", "aiomisc.log.basic_config"]

LEVELS = {50: ("crit", "fatal", "critical"), 40: ("error",), 30: ("warn", "warning"), 20: ("info",), 10: ("debug",)}
NAMES = {"filename": "code_file", "funcName": "code_func", "lineno": "code_line", "module": "code_module",
         "name": "identifier", "msg": "message_raw", "process": "pid", "processName": "process_name",
         "threadName": "thread_name"}
FORMATS = ("disabled", "stream", "color", "json", "syslog", "plain")


class Odd:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<odd\n%d>" % self.n

    def __str__(self):
        return "odd \u20ac %d" % self.n


def failed(n=0):
    try:
        raise ValueError("line\n\u20ac %d" % n)
    except ValueError:
        return sys.exc_info()


def plain(v):
    """how a value looks like in JSON"""
    if isinstance(v, (str, int, float, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    return repr(v)


def squeeze(s):
    return "".join(str(s).split())


def judge(check, line, rec, extra, datefmt):
    """line is rec, as the format promises"""
    check(isinstance(line, str) and "\n" not in line and "\r" not in line, "a record is one line", line)
    try:
        got = json.loads(line)
    except ValueError as e:
        check(False, "a line is valid JSON", e)
        return
    check(isinstance(got, dict), "a line is one JSON object", got)
    check(got.get("msg") == rec.getMessage(), "the message of a record", got.get("msg"))
    lv = got.get("level", "")
    if rec.levelno:
        good = LEVELS.get(rec.levelno, (rec.levelname.lower(),))
        check(str(lv).lower() in good, "the level of a record", lv)
    if rec.exc_info:
        text = "".join(traceback.format_exception(*rec.exc_info))
        check(squeeze(got.get("stackTrace")) == squeeze(text), "the traceback of a record", got.get("stackTrace"))
    else:
        check(not got.get("stackTrace"), "no traceback without an exception", got.get("stackTrace"))
    if datefmt == "%s":
        check(got.get("@timestamp") == rec.created, "the time of a record", got.get("@timestamp"))
    elif datefmt:
        check(got.get("@timestamp") == time.strftime(datefmt, time.localtime(rec.created)), "the time of a record",
              got.get("@timestamp"))
    fields = got.get("@fields")
    check(isinstance(fields, dict), "a line has fields", got)
    if not isinstance(fields, dict):
        return
    for attr, name in NAMES.items():
        v = getattr(rec, attr, None)
        if v is None:
            check(fields.get(name) in (None, "None"), "an attribute the record does not have", (name, fields.get(name)))
            continue
        want = v if isinstance(v, (int, str)) and attr != "msg" else str(v)
        check(fields.get(name) == want, "the attributes of a record", (name, fields.get(name), want))
    for k, v in extra.items():
        if v is not None and not k.startswith("_"):
            check(k in fields and fields[k] == plain(v), "the extra attributes of a record", (k, v, fields.get(k)))
    if isinstance(rec.args, tuple):
        for i, v in enumerate(rec.args):
            check(fields.get("argument_%d" % i) == str(v), "the arguments of a record", (i, v))
        check(not any(k.startswith("argument_") and k not in extra and k[9:].isdigit() and int(k[9:]) >= len(rec.args)
                      for k in fields), "no arguments but those of the record", fields)
    names = set(NAMES.values()) | set(extra) | set(vars(rec)) | {"errno"}
    for k in fields:
        check(k in names or k.startswith("argument_"), "no fields but those of the record", k)


def untouched(check, rec, before):
    now = dict(rec.__dict__)
    for k in ("message", "asctime", "exc_text"):
        if k not in before or before[k] is None:
            now.pop(k, None)
            before.pop(k, None)
    check(list(now) == list(before) and all(now[k] is before[k] for k in now), "a record is left as it is", now)


MESSAGES = (("plain", ()), ("", ()), ("two\nlines \"q\" \\ \u2028 \u20ac \x00\x1f\x7f", ()), ("%s", ("x\ny",)),
            ("%s and %d", (Odd(1), 2)), (Odd(2), ()), (None, ()), (5, ()), ("%(a)s", ({"a": 1},)), ("100%", ()),
            ("[%r]", (None,)), ("%s", (["l", Odd(3)],)))
VALUES = (None, 0, "", "x\ny\u20ac", 1.5, True, Odd(4), [1, Odd(5), None], {"k": {"n": Odd(6)}}, (1, 2), b"bytes", failed)


def line(ctx):
    """one record, one line"""
    mod = load("aiomisc_log.formatter.json", transform=ctx.sym)
    need(mod, "JSONLogFormatter")
    level = ctx.pick((20, 10, 30, 40, 50, 0, 5, 35, 100), "level")
    what = ctx.pick(("message", "value", "two", "missing", "date", "exception", "dumps"), "what")
    msg, args, extra, exc, datefmt = "it %s", ("is",), {}, None, None
    kw = {}
    if what == "message":
        msg, args = ctx.pick(MESSAGES, "message")
    elif what == "value":
        extra = {"my_value": ctx.pick(VALUES, "value")}
    elif what == "two":
        extra = {"a": ctx.pick((None, 1), "first"), "b": ctx.pick((None, Odd(7)), "second")}
    elif what == "date":
        datefmt = ctx.pick(("%s", "%Y-%m-%d", "[%X]", Ellipsis, ""), "date")
        kw["datefmt"] = datefmt
    elif what == "exception":
        exc = ctx.pick((failed(), (None, None, None)), "exception")
    rec = logging.LogRecord("a.b", level, "/p/ath.py", 7, msg, args, exc, "func")
    rec.__dict__.update(extra)
    if what == "missing":
        for k in ctx.pick((("process",), ("processName",), ("threadName", "thread"), ("taskName",), ("lineno",),
                           ("funcName",), ("process", "processName", "thread", "threadName")), "missing"):
            setattr(rec, k, None)
    before = dict(rec.__dict__)
    calls = []
    if what == "dumps":
        def dumps(obj, *a, **k):
            calls.append(obj)
            return json.dumps(obj, default=repr)
        kw["dumps"] = dumps
    f = mod.JSONLogFormatter(**kw)
    try:
        s = f.format(rec)
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        ctx.check(False, "every record can be formatted", (what, level, repr(e)))
        return
    judge(ctx.check, s, rec, extra, datefmt if datefmt is not Ellipsis else None)
    if what == "dumps":
        ctx.check(len(calls) == 1, "the given function makes the line")
    untouched(ctx.check, rec, before)
    ctx.cover(what)


# --------------------------------------------------------- configuration

class Sandbox:
    """the global state of logging, kept and restored"""

    def __enter__(self):
        self.root = logging.getLogger()
        self.saved = self.root.handlers[:], self.root.level, sys.excepthook, logging.root.manager.disable
        self.subs = {n: (logging.getLogger(n).handlers[:], logging.getLogger(n).propagate)
                     for n in ("unhandled", "asyncio.unhandled")}
        self.root.handlers[:] = []
        logging.disable(0)
        self.last, logging.lastResort = logging.lastResort, logging.NullHandler()
        return self

    def __exit__(self, *a):
        for h in self.root.handlers:
            if h not in self.saved[0] and isinstance(h, logging.handlers.SysLogHandler):
                h.close()
        self.root.handlers[:] = self.saved[0]
        self.root.setLevel(self.saved[1])
        sys.excepthook = self.saved[2]
        logging.disable(self.saved[3])
        logging.lastResort = self.last
        for n, (hs, p) in self.subs.items():
            logging.getLogger(n).handlers[:] = hs
            logging.getLogger(n).propagate = p


class Collect(logging.Handler):
    def __init__(self, name=""):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


def kinds(ctx, mod, fmt, h):
    """is h the handler of the format?"""
    f = h.formatter
    rec = logging.LogRecord("a.b", 20, "/p/ath.py", 7, "hello %s", ("you",), None, "func")
    if fmt == "syslog":
        return isinstance(h, logging.handlers.SysLogHandler) and h.format(rec) == "hello you"
    if type(h) is not logging.StreamHandler or f is None:
        return False
    s = h.format(rec)
    if fmt == "json":
        try:
            return json.loads(s)["msg"] == "hello you"
        except (ValueError, KeyError, TypeError):
            return False
    if fmt == "plain":
        return s == "hello you"
    if fmt == "stream":
        return s.endswith("INFO:a.b:hello you")
    return "hello you" in s and "\x1b[" in s


def config(ctx):
    """basic_config replaces the handlers by the one of the format and the
    given ones"""
    mod = load("aiomisc_log", transform=ctx.sym)
    need(mod, "basic_config", "LogFormat", "LogLevel", "LOG_LEVEL", "LOG_FORMAT")
    fmt = ctx.pick(FORMATS, "format")
    level = ctx.pick(("info", "debug", "critical", 10, 35, logging.ERROR), "level")
    want = {"info": 20, "debug": 10, "critical": 50}.get(level, level)
    if isinstance(level, str) and ctx.choose(2, "level enum"):
        level = mod.LogLevel[level]
    given = [Collect() for _ in range(ctx.choose(3, "handlers"))]
    old = [Collect() for _ in range(ctx.choose(2, "old handlers"))]
    wrap = ctx.choose(2, "wrapper")
    wrapped = []

    class Wrapper(logging.Handler):
        def __init__(self, h):
            super().__init__()
            wrapped.append(h)
            self.h = h

        def emit(self, record):
            self.h.emit(record)
    kw = {}
    if wrap:
        kw["handler_wrapper"] = Wrapper
    form = ctx.choose(2, "format enum")
    with Sandbox() as box:
        box.root.handlers[:] = old
        hs = iter(given) if ctx.choose(2, "iterator") else given
        err = sys.stderr
        sys.stderr = io.StringIO()

        def call():
            mod.basic_config(level=level, log_format=mod.LogFormat[fmt] if form else fmt, handlers=hs, **kw)
            return mod.LOG_LEVEL.get(), mod.LOG_FORMAT.get()
        try:
            lv, lf = contextvars.copy_context().run(call)
        except (core.PathEnd, core.Unsupported):
            raise
        except Exception as e:
            ctx.check(False, "basic_config does not fail", repr(e))
            return
        finally:
            sys.stderr = err
        root = list(box.root.handlers)
        ctx.check(not any(h in root for h in old), "earlier handlers are replaced", root)
        if wrap:
            ctx.check(all(isinstance(h, Wrapper) for h in root), "each handler is wrapped", root)
            ctx.check(len(wrapped) == len(root), "each handler is wrapped once", wrapped)
            inner = [getattr(h, "h", None) for h in root]
        else:
            inner = root
        own = [h for h in inner if h not in given]
        ctx.check(len(inner) == len(given) + (fmt != "disabled"), "one handler of the format, and the given ones", inner)
        ctx.check([h for h in inner if h in given] == given, "each given handler is installed once, in order", inner)
        if fmt != "disabled":
            ctx.check(len(own) == 1 and kinds(ctx, mod, fmt, own[0]), "the handler of the format", own)
        ctx.check(box.root.level == want, "the level is set", box.root.level)
        ctx.check(lv == want and lf == mod.LogFormat[fmt], "level and format are remembered", (lv, lf))
        # records go to every handler once
        for h in own:
            box.root.handlers = [x for x in box.root.handlers if getattr(x, "h", x) is not h]
        logging.getLogger("some.where").log(want, "hello")
        logging.getLogger("some.where").log(want - 1, "too low")
        for h in given:
            ctx.check([r.getMessage() for r in h.records] == ["hello"], "a handler gets each record of the level once",
                      h.records)
        ctx.check(not any(h.records for h in old), "a replaced handler gets no record")
    ctx.cover(fmt)


def unhandled(ctx):
    """exceptions nobody handles are logged, once by each handler"""
    mod = load("aiomisc_log", transform=ctx.sym)
    need(mod, "basic_config", "LogFormat")
    given = [Collect() for _ in range(1 + ctx.choose(2, "handlers"))]
    twice = ctx.choose(2, "configured twice")
    level = ctx.pick(("info", "critical"), "level")
    with Sandbox() as box:
        def call():
            if twice:
                mod.basic_config(log_format="disabled", handlers=[Collect()], level="debug")
            mod.basic_config(log_format="disabled", handlers=given, level=level)
        contextvars.copy_context().run(call)
        e = failed()
        box.root.setLevel(0)
        sys.excepthook(*e)
        for h in given:
            rs = h.records
            ctx.check(len(rs) == 1, "an unhandled exception is logged once by each handler", rs)
            if rs:
                ctx.check(rs[0].exc_info is not None and rs[0].exc_info[1] is e[1] and rs[0].levelno >= logging.ERROR,
                          "it is logged with its traceback", rs[0].exc_info)
    ctx.cover("logged")


class Fut:
    def __init__(self, state, exc=None):
        self.state, self.exc = state, exc

    def done(self):
        return self.state != "pending"

    def cancelled(self):
        return self.state == "cancelled"

    def exception(self):
        if self.state == "pending":
            raise asyncio.InvalidStateError
        if self.state == "cancelled":
            raise asyncio.CancelledError
        return self.exc


class Transport:
    def __init__(self, ctx):
        self.info = {"peername": ("h", 1), "sockname": ("", 0), "cipher": None}

    def get_extra_info(self, name, default=None):
        return self.info.get(name, default)

    def __repr__(self):
        return "<transport>"


def loop_unhandled(ctx):
    """so are the ones an event loop reports"""
    mod = load("aiomisc.log", transform=ctx.sym)
    need(mod, "UnhandledLoopHook")
    with Sandbox():
        hook = mod.UnhandledLoopHook(logger_name="asyncio.unhandled")
        hs = [Collect(), Collect()]
        for h in hs:
            hook.add_handler(h)
        context, want = {}, None
        msg = ctx.pick(("none", "it failed", "100% %s"), "message")
        if msg != "none":
            context["message"] = msg
        if ctx.choose(2, "exception"):
            context["exception"] = want = failed()[1]
        if ctx.choose(2, "transport"):
            context["transport"] = Transport(ctx)
        if ctx.choose(2, "handle"):
            context["handle"] = Thing("handle")
        e = failed(1)[1]
        for k in ("future", "task"):
            st = ctx.pick(("none", "pending", "done", "failed", "cancelled"), k)
            if st != "none":
                context[k] = Fut(st, e if st == "failed" else None)
                if want is None and st == "failed" and (k == "future" or "future" not in context):
                    want = e
        if ctx.choose(2, "more"):
            context["asyncgen"] = Thing("asyncgen")
            context["source_traceback"] = traceback.extract_stack(limit=2)
            context["protocol"] = Thing("protocol")
            context["socket"] = Thing("socket")
        before = dict(context)
        try:
            hook(Thing("loop"), context)
        except (core.PathEnd, core.Unsupported):
            raise
        except BaseException as x:
            ctx.check(False, "the hook does not fail", repr(x))
            return
        ctx.check(context == before, "the context is left as it is", context)
        for h in hs:
            rs = [r for r in h.records if not before.get("source_traceback") or r is h.records[0]]
            ctx.check(len(rs) == 1, "each problem is logged once by each handler", rs)
            if not rs:
                continue
            r = rs[0]
            if msg != "none":
                ctx.check(r.getMessage() == msg, "the message of the loop is logged", r.getMessage())
            got = r.exc_info[1] if r.exc_info and r.exc_info[1] is not None else None
            ctx.check(got is want, "the exception of the problem is logged", (got, want))
            ctx.check(r.levelno >= logging.ERROR, "it is logged as an error")
            if "handle" in before:
                ctx.check(getattr(r, "handle", None) == repr(before["handle"]), "what the loop tells is logged")
            if "transport" in before:
                ctx.check(getattr(r, "transport_peername", None) == ("h", 1), "what the loop tells is logged")
    ctx.cover("logged")


def loop_config(ctx):
    """aiomisc.log.basic_config: the given handlers work in threads"""
    mod = load("aiomisc.log", transform=ctx.sym)
    need(mod, "basic_config", "ThreadedHandler", "UnhandledLoopHook", "aiomisc_log", "asyncio")
    made, hook, conf = [], [], []

    class Threaded(logging.Handler):
        def __init__(self, target, flush_interval=0.1, buffered=True, queue_size=0):
            super().__init__()
            self.target, self.opts, self.started = target, (flush_interval, buffered, queue_size), 0
            self.got = []
            made.append(self)

        def start(self):
            self.started += 1

        def close(self):
            pass

        def emit(self, record):
            self.got.append(record)

    class Cb:
        def add_done_callback(self, f):
            pass

    class Loop:
        def create_future(self):
            return Cb()

        def set_exception_handler(self, h):
            hook.append(h)
    loop = Loop()
    mod.ThreadedHandler = Threaded
    mod.asyncio = NS(asyncio, gather=lambda *a, **k: Cb(), get_event_loop=lambda: loop,
                     get_running_loop=lambda: loop)
    mod.aiomisc_log = NS(mod.aiomisc_log, basic_config=lambda *a, **k: conf.append((a, k)),
                         UnhandledHook=mod.aiomisc_log.UnhandledHook)
    users = [Collect() for _ in range(ctx.choose(3, "handlers"))]
    buffered = bool(ctx.choose(2, "buffered"))
    size, flush = ctx.int("size", 0), ctx.real("flush", 0)
    level, fmt = Thing("level"), Thing("format")
    kw = {"loop": loop} if ctx.choose(2, "loop") else {}
    with Sandbox():
        mod.basic_config(level=level, log_format=fmt, buffered=buffered, buffer_size=size, flush_interval=flush,
                         handlers=users, date_format="d", **kw)
        ctx.check([h.target for h in made] == users, "each given handler works in a thread of its own", made)
        for h in made:
            ctx.check(h.started == 1, "the thread of a handler is started once")
            ctx.check(bool(h.opts[0] == flush) and h.opts[1] is buffered and bool(h.opts[2] == size),
                      "the buffer is as configured", h.opts)
        ctx.check(len(conf) == 1, "logging is configured once")
        if conf:
            a, k = conf[0]
            got = dict(zip(("level", "log_format", "handler_wrapper", "handlers"), a), **k)
            ctx.check(got.get("level") is level and got.get("log_format") is fmt and got.get("date_format") == "d",
                      "level and format are passed on", got)
            hs = list(got.get("handlers", ()))
            ctx.check(len(hs) == len(made) and all(x is y for x, y in zip(hs, made)), "the threaded handlers are installed", hs)
        ctx.check(len(hook) == 1, "problems of the loop are logged")
        if hook:
            e = failed()[1]
            hook[0](loop, {"message": "m", "exception": e})
            for h in made:
                ctx.check(len(h.got) == 1 and h.got[0].exc_info[1] is e, "problems of the loop are logged by each handler")
    ctx.cover("configured")


HARNESSES = [(h.__name__, guard(h)) for h in (line, config, unhandled, loop_unhandled, loop_config)]


# ------------------------------------------------------------- executions

def value(rng, depth=0):
    k = rng.randrange(9 if depth < 3 else 6)
    if k == 0:
        return rng.choice((None, True, False))
    if k == 1:
        return rng.randint(-10 ** rng.randint(0, 20), 10 ** 6)
    if k == 2:
        return rng.random() * 10 ** rng.randint(-5, 5)
    if k in (3, 4):
        return "".join(chr(rng.choice((rng.randrange(32), rng.randrange(32, 127), rng.randrange(128, 0x2100),
                                       0x2028, 0x1f600, 34, 92, 10, 13))) for _ in range(rng.randrange(12)))
    if k == 5:
        return rng.choice((Odd(3), failed, ValueError("x\ny"), b"\xff\n", {1, }, object))
    if k == 6:
        return [value(rng, depth + 1) for _ in range(rng.randrange(3))]
    if k == 7:
        return tuple(value(rng, depth + 1) for _ in range(rng.randrange(3)))
    return {rng.choice(("a", "b c", "\u20ac\n", "args", "msg")): value(rng, depth + 1) for _ in range(rng.randrange(3))}


def fuzz_json(rng):
    """random records, logged through a real logger: as many lines, in order"""
    from aiomisc_log.formatter.json import json_handler
    stream = io.StringIO()
    datefmt = rng.choice((None, "%s", "%Y-%m-%d %H:%M"))
    h = json_handler(stream=stream, date_format=datefmt)
    log = logging.Logger("fuzz.%d" % rng.randrange(5), rng.choice((0, 0, 10, 30)))
    keep = Collect()
    log.addHandler(keep)
    log.addHandler(h)
    bad = []
    h.handleError = lambda r: bad.append(sys.exc_info()[1])
    disabled = logging.root.manager.disable
    logging.disable(0)
    extras = []
    try:
        for _ in range(rng.randint(1, 5)):
            extra = {rng.choice(("user", "x", "req id", "\u20ac")): value(rng) for _ in range(rng.randrange(3))}
            args = tuple(value(rng) for _ in range(rng.randrange(4)))
            msg = " ".join(rng.choice(("%s", "%r")) for _ in args)
            pre = value(rng)
            if rng.random() < 0.7:
                msg += str(pre).replace("%", "%%") if args else str(pre)
            elif not args:
                msg = pre
            if len(args) == 1 and isinstance(args[0], dict) and args[0]:
                args, msg = (), "x"
            level = rng.choice((10, 20, 30, 40, 50, rng.randint(1, 60)))
            n = len(keep.records)
            if rng.random() < 0.3:
                try:
                    raise KeyError(value(rng))
                except KeyError:
                    log.log(level, msg, *args, extra=extra, exc_info=True)
            else:
                log.log(level, msg, *args, extra=extra, stack_info=rng.random() < 0.2)
            if len(keep.records) > n:
                extras.append(extra)
    finally:
        logging.disable(disabled)
    assert not bad, "a record was not written: %r" % bad[0]
    lines = stream.getvalue().split("\n")
    assert lines.pop() == "", "no line end"
    assert len(lines) == len(keep.records), "%d lines for %d records" % (len(lines), len(keep.records))

    def check(cond, what, detail=None):
        assert cond, "%s: %r" % (what, detail)
    for s, r, x in zip(lines, keep.records, extras):
        judge(check, s, r, x, datefmt)


def fuzz_buffered(rng):
    """handlers given to aiomisc.log.basic_config get each record once"""
    import aiomisc.log
    users = [Collect() for _ in range(rng.randint(1, 3))]
    n = rng.randint(1, 30)

    async def main():
        loop = asyncio.get_running_loop()
        before = logging.root.handlers[:]
        aiomisc.log.basic_config(level=rng.choice(("info", 20)), log_format="disabled", handlers=users,
                                 buffered=rng.random() < 0.7, flush_interval=0.01, loop=loop)
        mine = [h for h in logging.root.handlers if h not in before]
        try:
            for i in range(n):
                logging.getLogger("x.y").info("record %d", i)
                logging.getLogger("x.y").debug("too low")
            loop.call_exception_handler({"message": "oops", "exception": KeyError("k")})
        finally:
            for h in mine:
                h.close()
        for u in users:
            end = time.monotonic() + 10
            while len(u.records) < n + 1 and time.monotonic() < end:
                await asyncio.sleep(0.005)
            got = [r.getMessage() for r in u.records]
            assert sorted(got) == sorted(["record %d" % i for i in range(n)] + ["oops"]), got
            assert [g for g in got if g != "oops"] == ["record %d" % i for i in range(n)], "out of order"
    with Sandbox():
        ctx = contextvars.copy_context()
        ctx.run(asyncio.run, main())


FUZZ = [("json", fuzz_json), ("buffered", fuzz_buffered)]
FUZZ_S = 4
