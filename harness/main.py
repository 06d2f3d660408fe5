"""Harness entry point: runs the scenarios of one property against /repo."""
import importlib
import json
import os
import sys
import warnings

warnings.filterwarnings("ignore")
cfg = json.loads(sys.argv[1])
try:
    import diffstar._version  # noqa
except Exception:
    import types
    m = types.ModuleType("diffstar._version")
    m.__version__ = "0+unknown"
    sys.modules["diffstar._version"] = m

import dsv  # noqa: E402

ctx = dsv.Ctx(cfg)
mod = importlib.import_module(cfg["pid"].lower())
import diffstar  # noqa: E402

assert os.path.realpath(diffstar.__file__).startswith(os.path.realpath(cfg["repo"])), diffstar.__file__
try:
    mod.run(ctx)
except Exception as ex:
    # an exception which the library raised where the scenario expects none is
    # part of the trace; one of the harness itself is a failure of the machinery
    import traceback

    tb = traceback.extract_tb(ex.__traceback__)
    here = os.path.dirname(os.path.abspath(__file__))
    inlib = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(cfg["repo"]) + os.sep)]
    # ... unless it failed on what the library returned (a result it cannot read)
    unreadable = isinstance(ex, (ValueError, TypeError, IndexError, KeyError, AssertionError, ArithmeticError)) \
        or isinstance(ex, AttributeError) and "module" not in str(ex)
    if not inlib and not (unreadable and ctx.n):
        raise
    if not inlib:
        traceback.print_exc()
        inlib = tb[-1:]
    last = [f for f in tb if f.filename.startswith(here)][-1]
    ctx.emit("setup", f"{os.path.basename(last.filename)}:{last.lineno}", exc=type(ex).__name__,
             msg=(str(ex)[:200] + f" at {inlib[-1].filename}:{inlib[-1].lineno}"))
ctx.close()
