"""Runs the simulator inside a Python process, so that simulated clients can call the library through the
Python wrapper of the repository.

    python3 host.py libsimhpy.so check C41 ...

The wrapper's own sources run unchanged; the library they load is the simulator's shared object, which carries
the real code and its C interface. Every line of the wrapper is a scheduling point.
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

import ctypes
import gc
import json
import shutil

gc.disable()
sys.dont_write_bytecode = True
so = os.path.abspath(sys.argv[1])
top = "SIMH_PYPKG" not in os.environ
if top:
    pkg = os.path.join(os.path.dirname(so), "pypkg-%d" % os.getpid())
    shutil.rmtree(pkg, ignore_errors=True)
    src = os.path.join(os.environ.get("SIMH_REPO", "/repo"), "platforms/python/snips_nlu_rust")
    shutil.copytree(src, os.path.join(pkg, "snips_nlu_rust"), ignore=shutil.ignore_patterns("tests", "dylib", "__pycache__"))
    os.makedirs(os.path.join(pkg, "snips_nlu_rust", "dylib"))
    os.symlink(so, os.path.join(pkg, "snips_nlu_rust", "dylib", "libsnips_nlu_sim.so"))
    os.environ["SIMH_PYPKG"] = pkg
pkg = os.environ["SIMH_PYPKG"]
sys.path.insert(0, pkg)

sim = ctypes.CDLL(so)
point = sim.simh_point
put = sim.simh_put
put.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
from snips_nlu_rust import NLUEngine  # noqa: E402

engines = {}


def line(frame, event, _arg):
    if event == "line":
        point(frame.f_lineno)
    return line


def tracer(frame, _event, _arg):
    return line if frame.f_code.co_filename.startswith(pkg) else None


class NoHandle(Exception):
    pass


def engine(h):
    if h not in engines:
        raise NoHandle()
    return engines[h]


def query(e, c, defaults):
    kind = c["op"]
    if kind == "Parse":
        kw = {}
        if c["wl"] is not None:
            kw["intents_whitelist"] = c["wl"]
        if c["bl"] is not None:
            kw["intents_blacklist"] = c["bl"]
        if not defaults:
            kw["intents_alternatives"] = c["ia"]
            kw["slots_alternatives"] = c["sa"]
        return e.parse(c["text"], **kw)
    if kind == "Intents":
        return e.get_intents(c["text"])
    if defaults:
        return e.get_slots(c["text"], c["intent"])
    return e.get_slots(c["text"], c["intent"], c["sa"])


def bad(kind, h, text):
    if kind == 0:
        NLUEngine()
    elif kind == 1:
        engine(h).parse(text, intents_whitelist=[text, 1])
    elif kind == 2:
        engine(h).parse(text, intents_blacklist=[None])
    elif kind == 3:
        NLUEngine(engine_bytes=bytearray(b"no archive"))
    elif kind == 4:
        NLUEngine(engine_bytes=bytearray())
    else:
        NLUEngine(engine_dir="/nowhere/" + text.replace("/", " "))
    return None


def do(op):
    kind = op["op"]
    if kind == "Py":
        return query(engine(op["h"]), op["call"], op["defaults"])
    if kind == "PyCreate":
        e = NLUEngine(engine_bytes=bytearray(bytes.fromhex(op["bytes"]))) if "bytes" in op else NLUEngine(engine_dir=op["path"])
        engines[op["h"]] = e
        return None
    if kind == "PyDrop":
        engine(op["h"])
        del engines[op["h"]]
        return None
    if kind == "PyBad":
        return bad(op["kind"], op["h"], op["text"])
    engines.clear()
    return None


def called(p):
    try:
        op = json.loads(p)
        sys.settrace(tracer)
        try:
            r = do(op)
        finally:
            sys.settrace(None)
        out = "OK " + json.dumps(r, ensure_ascii=False)
    except NoHandle:
        out = "NOHANDLE"
    except BaseException as e:
        out = "ERR %s: %s" % (type(e).__name__, e)
    b = out.encode("utf8", "replace")
    put(b, len(b))


callback = ctypes.CFUNCTYPE(None, ctypes.c_char_p)(called)
sim.simh_python(callback, json.dumps([sys.executable, "-B", os.path.abspath(__file__), so]).encode("utf8"))
args = [a.encode("utf8") for a in sys.argv[2:]]
code = sim.simh_main(len(args), (ctypes.c_char_p * len(args))(*args))
if top:
    shutil.rmtree(pkg, ignore_errors=True)
sys.stdout.flush()
os._exit(code)
