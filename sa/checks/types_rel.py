"""The type rules of Tealish as documented (docs/language.rst, Types): sizes and which values fit
which types.  Written independently of /repo's code."""
import re

STRUCTS = {"Item": 52, "Other": 9, "Same": 52}
DEFS = ["struct Item:", "    aa: int", "    bb: bytes[32]", "    cc: uint8", "    dd: bytes[3]", "    ee: int", "end",
        "struct Other:", "    oa: int", "    ob: uint8", "end",
        "struct Same:", "    sa: bytes[52]", "end"]


def kind(t):
    """-> (class, size) with size None where unknown"""
    if t == "any":
        return "any", None
    if t in ("int", "uint64"):
        return "int", 8
    if t == "uint8":
        return "int", 1
    m = re.match(r"uint<(\d+)>$", t)
    if m:
        return "int", int(m.group(1))
    if t in ("bytes", "bigint"):
        return t, None
    if t == "addr":
        return "bytes", 32
    m = re.match(r"bytes\[(\d+)\]$", t) or re.match(r"uint8\[(\d+)\]$", t)
    if m:
        return "bytes", int(m.group(1))
    m = re.match(r"box<(\w+)>$", t)
    if m:
        return "box", m.group(1)
    if t in STRUCTS:
        return t, STRUCTS[t]
    if t.startswith("list:") or t == "none":
        return "none", None
    raise KeyError(t)


def fits(T, U):
    """may a value of type U be stored in T?  None: not specified"""
    a, n = kind(T)
    b, m = kind(U)
    if b == "none":
        return False
    if a == "any":
        return True
    if a == "int":
        if b == "any":
            return n == 8
        return b == "int" and m <= n
    if b == "int":
        return False
    if a == "box":
        return b == "box" and n == m
    if a == "bytes" and n is None:
        return True
    if a == "bigint":
        return True if b in ("any", "bigint") else None
    # a known number of bytes
    if b in ("any", "bigint", "box") or m is None:
        return False
    if b in STRUCTS and a in STRUCTS and a != b:
        return None if m == n else False
    return m == n


TARGETS = ["int", "uint64", "uint8", "bytes", "bytes[1]", "bytes[3]", "bytes[9]", "bytes[32]", "bytes[52]", "bigint", "addr", "uint8[4]", "Item", "Other", "box<Item>"]
VALUES = ["any", "int", "uint64", "uint8", "uint<1>", "uint<2>", "uint<7>", "uint<8>", "uint<9>", "uint<33>", "bytes", "bytes[1]", "bytes[2]", "bytes[3]", "bytes[4]", "bytes[9]", "bytes[31]", "bytes[32]",
          "bytes[33]", "bytes[52]", "bigint", "addr", "uint8[4]", "uint8[3]", "Item", "Other", "Same", "box<Item>", "box<Other>", "list:", "list:int", "list:int,int", "list:bytes,int", "none"]
