"""Which module has the check of a property."""
import importlib

MODULES = {p: "check_front" for p in ("C05", "C06", "C07", "C08", "C09", "C10", "C11", "C17", "C20", "C21")}
MODULES["C19"] = "check_std"
MODULES["C18"] = "check_main"
MODULES["C12"] = "check_lazy"
MODULES["C13"] = "check_graph"
MODULES.update({p: "check_lsp" for p in ("C14", "C15", "C16")})
MODULES["C22"] = "check_core"
MODULES["C03"] = "check_heap"
MODULES.update({p: "check_eval" for p in ("C01", "C02", "C04")})


def run(prop):
    return importlib.import_module(MODULES[prop]).run(prop)
