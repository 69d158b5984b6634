"""Set up a process for symbolic or concrete execution of the cases."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")


def common():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(6000)
    import logging
    logging.disable(logging.CRITICAL)


def symbolic():
    common()
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    from . import antlr_glue, instrument
    d = antlr_glue.site_dir()
    if d not in sys.path:
        sys.path.append(d)
    instrument.install({
        "fcsql": (os.path.join(REPO, "src"), True),
        "fcsref": (VERIF, False),
        "cases": (VERIF, False),
    }, antlr_glue.exact_paths())
    antlr_glue.install()


def concrete():
    common()
    sys.path.insert(0, os.path.join(REPO, "src"))
    if VERIF not in sys.path:
        sys.path.append(VERIF)


def load_cases(prop=None):
    import importlib
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "cases")) if f.startswith("c") and f.endswith(".py")
                  and f[1:3].isdigit())
    for m in mods:
        if prop is None or m == prop.lower():
            importlib.import_module("cases." + m)
    from .ctx import REGISTRY
    return REGISTRY
