"""The bounded hunts of each property. (hunt, needs a scratch copy, weight)"""
import os

from lib.hunt import Hunt


def hunts(pid):
    if os.environ.get("VERIF_SCRATCH") == "1":
        from hunts import live as L

        return [Hunt("live", L.cases, L.checker(pid), L.shrink(pid), rule="history not seen before")]
    if pid in ("C09", "C10", "C18"):
        from hunts import misc as M

        return {
            "C09": [Hunt("configuration", M.c09_cases, M.c09_check)],
            "C10": [Hunt("untouched", M.c10_cases, M.c10_check)],
            "C18": [Hunt("files", M.c18_cases, M.c18_check)],
        }[pid]
    if pid in ("C13", "C14", "C15", "C17"):
        from hunts import texts as X

        return {
            "C13": [Hunt("documents", X.c13_cases, X.c13_check)],
            "C14": [Hunt("lines", X.c14_cases, X.c14_check)],
            "C15": [Hunt("docstrings", X.c15_cases, X.c15_check, X.shrink_text(X.c15_check))],
            "C17": [Hunt("edits", X.c17_cases, X.c17_check)],
        }[pid]
    from hunts import trees as T

    return {
        "C01": [Hunt("covered", T.tree_cases, T.c01_check, T.shrinker(T.c01_check))],
        "C02": [Hunt("witnessed", T.tree_cases, T.c02_check, T.shrinker(T.c02_check))],
        "C03": [Hunt("executable", T.c03_cases, T.c03_check, T.shrinker(T.c03_check))],
        "C04": [Hunt("identity", T.c04_cases, T.c04_check, T.shrinker(T.c04_check))],
        "C05": [Hunt("merging", T.c05_cases, T.c05_check, T.shrinker(T.c05_check))],
        "C06": [Hunt("form", T.tree_cases, T.c06_check, T.shrinker(T.c06_check))],
        "C07": [Hunt("limit", T.c07_cases, T.c07_check, T.shrinker(T.c07_check))],
        "C08": [Hunt("heights", T.tree_cases, T.c08_check, T.shrinker(T.c08_check))],
        "C16": [Hunt("simple", T.c16_cases, T.c16_check)],
        "C19": [Hunt("order", T.c19_cases, T.c19_order_check, T.shrinker(T.c19_order_check)),
                Hunt("seeds", T.c19_batches, T.c19_seeds)],
        "C20": [Hunt("frames", T.c20_cases, T.c20_check, T.shrinker(T.c20_check))],
    }.get(pid, [])


LIVE = ("C09", "C10", "C11", "C12")
LIVE_ONLY = ("C11", "C12")
