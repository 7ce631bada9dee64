"""The repository's top-level scripts, as modules or as programs."""
import contextlib
import importlib.util
import io
import logging
import os
import runpy
import sys

from pbt import shimmed  # noqa: F401

_LOADED = {}


def repo():
    from harmonic_inference.data import data_types
    return os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(data_types.__file__))))


def load(name):
    """A script as a module (test.py is not the standard library's test)."""
    if name not in _LOADED:
        spec = importlib.util.spec_from_file_location(f"script_{name}",
                                                      os.path.join(repo(), f"{name}.py"))
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        _LOADED[name] = module
    return _LOADED[name]


def program(name, arguments):
    """Run a script as a program: (exit code, standard output)."""
    path = os.path.join(repo(), f"{name}.py")
    root = logging.getLogger()
    handlers, level, argv = root.handlers, root.level, sys.argv
    root.handlers, sys.argv = [], [path] + [str(argument) for argument in arguments]
    logging.disable(logging.NOTSET)
    code, output = 0, io.StringIO()
    try:
        with contextlib.redirect_stdout(output), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(path, run_name="__main__")
    except SystemExit as stop:
        code = 1 if isinstance(stop.code, str) else int(stop.code or 0)
    finally:
        for handler in root.handlers:
            handler.close()
        logging.disable(logging.CRITICAL)
        root.handlers, sys.argv = handlers, argv
        root.setLevel(level)
    return code, output.getvalue()
