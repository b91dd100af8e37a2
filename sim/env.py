"""Loads the repository's Python modules with its Rust extension in place."""
from __future__ import annotations

import importlib.machinery
import importlib.util
import sys

import build

sys.dont_write_bytecode = True

RUST_FALLBACK = False


def load_ext(path):
    loader = importlib.machinery.ExtensionFileLoader('rust_stuff', str(path))
    spec = importlib.util.spec_from_loader('rust_stuff', loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


def setup(so: str, repo: str | None = None):
    """Make `tm`, `tools` and the scripts importable; returns the extension."""
    repo = repo or str(build.REPO)
    if sys.path[0] != repo:
        sys.path.insert(0, repo)
    sys.set_int_max_str_digits(0)
    if 'tm.rust_stuff' not in sys.modules:
        ext = load_ext(so)
        import tm
        sys.modules['tm.rust_stuff'] = ext
        tm.rust_stuff = ext
    return sys.modules['tm.rust_stuff']
