"""records the widths of the input ports under contract (run on the tree the contracts were written for): widths.json"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("VERIF_REPO", "/repo")]
from vf import boot  # noqa
from vf.contract import Ctx
from vf.runner import PyUnit, cfg_name, input_widths
from vf import term as T

out = {}
for f in sorted(os.listdir(os.path.join(ROOT, "contracts"))):
    if not f.startswith("c") or not f.endswith(".py"):
        continue
    mod = importlib.import_module("contracts." + f[:-3])
    o = out[f[:-3].upper()] = {}
    for u in mod.UNITS:
        if isinstance(u, PyUnit):
            continue
        for cfg in u.configs + u.thorough:
            T.reset_table()
            ctx = Ctx()
            u.build(ctx, **cfg)
            o[f"{u.name}|{cfg_name(cfg)}"] = input_widths(ctx)
json.dump(out, open(os.path.join(ROOT, "widths.json"), "w"), indent=0, sort_keys=True)
