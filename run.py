#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import importlib, pbt

def props(pid):
    for m in ("p_gc", "p_priv", "p_scd", "p_ot", "p_util", "p_cli", "p_mem", "p_syn", "p_cpu"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if hasattr(mod, pid):
            return getattr(mod, pid)()
    sys.exit("unknown property " + pid)

if __name__ == "__main__":
    pbt.main(props)
