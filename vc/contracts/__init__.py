"""All contracts, in one registry."""
import importlib

MODULES = ["cuboid", "marcus", "queue", "walker", "site", "containers", "cluster", "cluster_container"]


def load():
    reg = []
    lemmas = []
    for m in MODULES:
        mod = importlib.import_module("contracts." + m)
        reg += mod.CONTRACTS
        lemmas += getattr(mod, "LEMMAS", [])
    return reg, lemmas
