import importlib

_CHECKS = {}


def get(pid):
    if pid not in _CHECKS:
        _CHECKS[pid] = importlib.import_module(f"dst.checks.{pid.lower()}")
    return _CHECKS[pid]
