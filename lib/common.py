"""Running the real code on a spec and reading the result."""
import json
import sys

from lib import target

target.use_repo()

from lazy_type_hint import LazyTypeHint, ParsingStrategies  # noqa: E402

from lib import parse, specs  # noqa: E402


def hint_text(spec, st, name="Root"):
    data = specs.build(spec)
    return LazyTypeHint(ParsingStrategies(**st)).from_data(data, class_name=name).to_string()


def text_of(data, st, name="Root"):
    return LazyTypeHint(ParsingStrategies(**st)).from_data(data, class_name=name).to_string()


def has_ambiguous_set(spec, st):
    """Sets cut by the limit: which elements come first is not known from the spec."""
    n = st["check_max_n_elements_within_container"]
    if spec[0] == "leaf" or spec[0] == "df":
        return False
    if specs.unordered(spec[0]) and n and len(spec[1]) > n:
        return True
    subs = spec[1] if spec[0] in specs.SEQ else [v for _, v in spec[1]]
    return any(has_ambiguous_set(s, st) for s in subs)


def shrink(spec, fails, budget=400):
    """Greedy minimisation of a failing spec."""
    changed = True
    while changed and budget > 0:
        changed = False
        for cand in smaller(spec):
            budget -= 1
            if budget <= 0:
                break
            try:
                bad = fails(cand)
            except Exception:
                bad = False
            if bad:
                spec, changed = cand, True
                break
    return spec


def smaller(spec):
    kind = spec[0]
    if kind == "leaf":
        if spec[1] != "int":
            yield ("leaf", "int")
        return
    if kind == "df":
        for i in range(len(spec[1])):
            yield (kind, spec[1][:i] + spec[1][i + 1:], spec[2])
        return
    subs = spec[1] if kind in specs.SEQ else tuple(v for _, v in spec[1])
    for s in subs:
        yield s
    if kind == "point":
        return
    for i in range(len(spec[1])):
        yield (kind, spec[1][:i] + spec[1][i + 1:])
    for i, s in enumerate(subs):
        for t in smaller(s):
            if kind in specs.SEQ:
                yield (kind, spec[1][:i] + (t,) + spec[1][i + 1:])
            else:
                yield (kind, spec[1][:i] + ((spec[1][i][0], t),) + spec[1][i + 1:])
