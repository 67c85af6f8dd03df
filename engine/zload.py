"""Load z3 from the pre-installed verification tool venv without letting the
rest of that venv (numpy 2, scipy, ...) shadow the packages of /opt/venv."""
import importlib
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _load():
    try:
        return importlib.import_module("z3")
    except ImportError:
        pass
    sys.path.append(_VT)
    try:
        return importlib.import_module("z3")
    finally:
        sys.path.remove(_VT)


z3 = _load()
