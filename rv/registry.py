import importlib

MODULES = ["props_structure", "props_tokens", "props_documents", "props_system", "props_resources", "props_control", "props_packaging"]


def get(pid):
    for m in MODULES:
        mod = importlib.import_module("rv." + m)
        p = getattr(mod, pid, None)
        if p is not None and getattr(p, "pid", None) == pid:
            return p
    raise SystemExit("no check for " + pid)
