"""The constant target data, as evaluated by the compiler."""
from .common import Broken

BUILTINS = "cfg_expr::targets::builtins::ALL_BUILTINS"
T = "cfg_expr::targets::"


def value(p, path):
    for c in p.consts:
        if c["path"] == path:
            return c
    return None


def text(v):
    """the text inside nested one-field structs / Cow"""
    while isinstance(v, dict):
        if "str" in v:
            return v["str"]
        if "ref" in v:
            v = v["ref"]
        elif "adt" in v and len(v["fields"]) == 1:
            v = v["fields"][0]
        else:
            return None
    return v if isinstance(v, str) else None


def option(p, v):
    """None or the payload"""
    name = p.types[v["adt"]]["variants"][v["variant"]]["name"]
    return v["fields"][0] if name == "Some" else None


def seq(v):
    while isinstance(v, dict):
        if "seq" in v:
            return v["seq"]
        if "ref" in v:
            v = v["ref"]
        elif "adt" in v and len(v["fields"]) == 1:
            v = v["fields"][0]
        else:
            return None
    return None


def atomic(p, v):
    name = p.types[v["adt"]]["variants"][v["variant"]]["name"]
    return "ptr" if name == "Pointer" else v["fields"][0]


def row(p, v):
    fs = p.types[v["adt"]]["variants"][0]["fields"]
    d = {f["name"]: x for f, x in zip(fs, v["fields"])}
    o = lambda x: None if option(p, x) is None else text(option(p, x))
    return {
        "triple": text(d["triple"]),
        "os": o(d["os"]),
        "abi": o(d["abi"]),
        "arch": text(d["arch"]),
        "env": o(d["env"]),
        "vendor": o(d["vendor"]),
        "families": [text(x) for x in seq(d["families"])],
        "pointer_width": d["pointer_width"],
        "endian": p.types[d["endian"]["adt"]]["variants"][d["endian"]["variant"]]["name"],
        "has_atomics": [atomic(p, x) for x in seq(d["has_atomics"])],
        "panic": text(d["panic"]),
    }


def builtins(p):
    c = value(p, BUILTINS)
    if c is None or c["v"] is None:
        cs = [c for c in p.consts if c["name"] == "ALL_BUILTINS"]
        if not cs:
            raise Broken("ALL_BUILTINS not found")
        c = cs[0]
    return [row(p, x) for x in seq(c["v"])]
