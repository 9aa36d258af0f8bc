import importlib
WHERE = {"C01": "fs", "C02": "fs", "C03": "fs", "C04": "fs", "C05": "fs", "C06": "fs"}
for _p in ("C07", "C08", "C09"):
    WHERE[_p] = "disk"
for _p in ("C10", "C11", "C12"):
    WHERE[_p] = "exe"
for _p in ("C13", "C14", "C15"):
    WHERE[_p] = "seg"
for _p in ("C16", "C17", "C18", "C19"):
    WHERE[_p] = "misc"


def get(prop):
    return getattr(importlib.import_module(WHERE[prop]), prop.lower())
