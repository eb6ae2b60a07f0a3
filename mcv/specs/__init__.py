"""The obligations of every property, generated on every run."""
from .. import hooks  # noqa: F401  (before anything imports the code under proof)

import importlib

MODULES = {
    "C01": "elementwise",
    "C02": "elementwise",
    "C03": "products",
    "C04": "structure",
    "C05": "structure",
    "C06": "structure",
    "C07": "structure",
    "C08": "linear",
    "C09": "linear",
    "C10": "linear",
    "C11": "linear",
    "C12": "build",
    "C13": "select",
    "C14": "broadcast",
    "C15": "fills",
    "C16": "purity",
    "C17": "reject",
    "C18": "forms",
    "C19": "linear",
    "C20": "linear",
}


def get(prop):
    m = importlib.import_module("." + MODULES[prop], __name__)
    out = list(getattr(m, prop.lower())())
    from .states import more

    return out + list(more(prop, out))
