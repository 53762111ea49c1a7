#!/usr/bin/env python3
"""check.py <property id>: decides one property (see MANIFEST.json, DESIGN.md)."""
import os, sys, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here + "/lib", here + "/checks"]
import core
TABLE = {
    "C07": ("c07", "c07"),
    "C17": ("c17", "c17"),
    "C12": ("c12", "c12"),
    "C10": ("c10", "c10"),
    "C09": ("c09", "c09"),
    "C05": ("c05_c06", "c05"), "C08": ("c08", "c08"), "C11": ("c11", "c11"), "C06": ("c05_c06", "c06"),
    "C14": ("c14", "c14"),
    "C15": ("c15", "c15"),
    "C16": ("c16", "c16"),
    "C13": ("c13", "c13"),
    "C18": ("c18", "c18"),
    "C19": ("c19", "c19"),
    "C20": ("c20", "c20"),
    "C01": ("c01", "c01"),
    "C02": ("c02", "c02"),
    "C03": ("c03", "c03"),
    "C04": ("c04", "c04"),
    "C21": ("c21", "c21"), "C22": ("c22", "c22"), "C23": ("c23", "c23"), "C24": ("c24", "c24"),
}
if __name__ == "__main__":
    pid = sys.argv[1]
    mod, fn = TABLE[pid]
    core.main(pid, getattr(importlib.import_module(mod), fn))
