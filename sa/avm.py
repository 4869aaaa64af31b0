"""What the TEAL assembler accepts (AVM version 8), written down independently of the compiler:
immediate arguments of every opcode, fields and what kind they are, literals, labels, macros."""
import re

from .values import *
from .harness import showt
from .teal import OPS, TealError, encode, decode, lex
from .engine import AnalysisError

U8, I8, INT, BYTES, LABEL, MANY = "uint8", "int8", "uint64", "bytes", "label", "*"
FIELD = "field"
ARRAY_FIELDS = ("ApplicationArgs", "Accounts", "Assets", "Applications", "Logs", "ApprovalProgramPages", "ClearStateProgramPages")
IMM = {
    "intcblock": [MANY, INT], "bytecblock": [MANY, BYTES], "pushints": [MANY, INT], "pushbytess": [MANY, BYTES], "switch": [MANY, LABEL], "match": [MANY, LABEL],
    "intc": [U8], "bytec": [U8], "arg": [U8], "load": [U8], "store": [U8], "dig": [U8], "cover": [U8], "uncover": [U8], "bury": [U8], "popn": [U8], "dupn": [U8], "gaid": [U8], "gloads": [U8], "replace2": [U8],
    "txn": [FIELD], "global": [FIELD], "gtxn": [U8, FIELD], "txna": [FIELD, U8], "gtxna": [U8, FIELD, U8], "gtxns": [FIELD], "gtxnsa": [FIELD, U8], "txnas": [FIELD], "gtxnas": [U8, FIELD], "gtxnsas": [FIELD],
    "itxn": [FIELD], "itxna": [FIELD, U8], "itxnas": [FIELD], "gitxn": [U8, FIELD], "gitxna": [U8, FIELD, U8], "gitxnas": [U8, FIELD], "itxn_field": [FIELD],
    "gload": [U8, U8], "substring": [U8, U8], "extract": [U8, U8], "proto": [U8, U8], "frame_dig": [I8], "frame_bury": [I8], "pushint": [INT], "pushbytes": [BYTES],
    "b": [LABEL], "bz": [LABEL], "bnz": [LABEL], "callsub": [LABEL],
    "asset_holding_get": [FIELD], "asset_params_get": [FIELD], "app_params_get": [FIELD], "acct_params_get": [FIELD], "base64_decode": [FIELD], "json_ref": [FIELD],
    "ecdsa_verify": [FIELD], "ecdsa_pk_decompress": [FIELD], "ecdsa_pk_recover": [FIELD], "vrf_verify": [FIELD], "block": [FIELD],
    # pseudo ops
    "replace": [U8], "int": [INT], "byte": [BYTES], "addr": ["addr"], "method": ["method"], "%E": ["any"],
}
NAMES = {
    "base64_decode": {"URLEncoding": "B", "StdEncoding": "B"}, "json_ref": {"JSONString": "B", "JSONUint64": "U", "JSONObject": "B"},
    "ecdsa_verify": ("Secp256k1", "Secp256r1"), "vrf_verify": ("VrfAlgorand",), "block": {"BlkSeed": "B", "BlkTimestamp": "U"},
    "itxnas": ARRAY_FIELDS, "gitxnas": ARRAY_FIELDS,
}
NAMES["ecdsa_pk_decompress"] = NAMES["ecdsa_pk_recover"] = NAMES["ecdsa_verify"]
SCALAR = ("txn", "gtxn", "gtxns", "itxn", "gitxn")      # take fields that are no arrays
INT_NAMES = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5, "unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4, "afrz": 5, "appl": 6}
STRING = re.compile(r'"(?:[^"\\\n\r]|\\(?:[nrt"\\]|x[0-9a-fA-F]{2}))*"')
# the characters an unknown piece of text can consist of, by the kind of its hole
PLAIN = ("note", "ident", "Upper", "Cap", "digits", "digit1", "hex", "rep", "expr", "atom")


def fields(op):
    """names of the field immediate of op -> (list, types or None)"""
    if op in NAMES:
        return list(NAMES[op])
    d = OPS[op]
    f = list(d["ArgEnum"])
    return [x for x in f if x not in ARRAY_FIELDS] if op in SCALAR else f


def known_names():
    out = set(OPS) | set(IMM) | set(INT_NAMES)
    for o in IMM:
        if FIELD in IMM[o]:
            out |= set(fields(o))
    return out | set(ARRAY_FIELDS) | {"b64", "base64", "b32", "base32", "replace", "Pay", "Acfg", "Axfer", "Afrz", "Appl", "KeyRegistration", "Payment", "AssetConfig", "AssetTransfer", "AssetFreeze", "ApplicationCall"}


KNOWN = known_names()


def bounded(tok, hi, it, lo=0):
    """the token is a decimal number of at most hi -> error text or None"""
    if isinstance(tok, str):
        if re.fullmatch(r"0x[0-9a-fA-F]+", tok):
            return None if int(tok, 16) <= hi else "%s is greater than %d" % (tok, hi)
        if not re.fullmatch(r"-?[0-9]+", tok):
            return "`%s` is no number" % tok
        if re.fullmatch(r"0[0-9]+", tok):
            return "`%s` is an octal number in TEAL" % tok
        return None if lo <= int(tok) <= hi else "%s is not between %d and %d" % (tok, lo, hi)
    ps = pieces(tok)
    if len(ps) == 1 and is_intsym(ps[0]):
        v = ps[0]
    elif len(ps) == 1 and ps[0].kind == "hole" and ps[0].args[1] in ("digits", "digit1"):
        v = int_hole(ps[0].args[0])
    elif any(isinstance(p, str) for p in ps) or any(p.kind == "hole" and p.args[1] not in ("digits", "digit1") for p in ps):
        return "`%s` is no number" % showt(tok)
    else:
        raise AnalysisError("number %s" % showt(tok))
    a, b = lin_range(it, v)
    if a is None or b is None:
        raise AnalysisError("the range of %s is not known" % showt(tok))
    if b > hi or a < lo:
        return "%s can be %d, which is not between %d and %d" % (showt(tok), b if b > hi else a, lo, hi)
    return None


def lin_range(it, v):
    if it is not None:
        v = it.resolve(v)
        if isinstance(v, int):
            return v, v
        lo, hi, _ = it.bound(v)
        if lo is not None and hi is not None:
            return lo, hi
    if v.kind == "int":
        return v.args[1], v.args[2]
    return None, None


def text_kind(tok):
    """a template as text, unknown plain pieces written as letters"""
    out = []
    for p in pieces(tok):
        if isinstance(p, str):
            out.append(p)
        elif p.kind == "hole" and p.args[1] in PLAIN:
            out.append("ab" if p.args[1] == "hex" else "7" if p.args[1] in ("digits", "digit1") else "q")
        elif is_intsym(p):
            out.append("7")
        else:
            raise AnalysisError("text %s" % showt(tok))
    return "".join(out)


def is_bytes_literal(t):
    if t.startswith('"'):
        return None if STRING.fullmatch(t) else "%s is no valid string" % t
    if t.startswith("0x"):
        return None if re.fullmatch(r"0x([0-9a-fA-F]{2})*", t) else "%s is no valid hex literal" % t
    return "`%s` is no bytes literal" % t


def immediate(op, kind, tok, it):
    if kind == "any":
        return None
    if kind == U8:
        return bounded(tok, 255, it)
    if kind == I8:
        return bounded(tok, 127, it, -128)
    if kind == INT:
        return bounded(tok, 2 ** 64 - 1, it)
    t = text_kind(tok)
    if kind == BYTES:
        return is_bytes_literal(t)
    if kind == LABEL:
        return None if re.fullmatch(r"[^\s\"#;:/]+", t) else "`%s` is no label" % t
    if kind == FIELD:
        if not isinstance(tok, str):
            return "`%s` is no name of a field" % showt(tok)
        if tok in fields(op):
            return None
        if op in SCALAR and tok in ARRAY_FIELDS:
            return "%s is an array, %s takes single fields" % (tok, op)
        return "%s has no field `%s`" % (op, tok)
    if kind == "addr":
        return None if re.fullmatch(r"[A-Z2-7]{58}", t) or not isinstance(tok, str) and "q" in t else "`%s` is no address" % t
    if kind == "method":
        return None if t.startswith('"') and STRING.fullmatch(t) else "`%s` is no method signature" % t
    raise AnalysisError("immediate " + kind)


def instruction(toks, macros, it, version):
    """error text or None"""
    op = toks[0]
    if not isinstance(op, str):
        return "does not start with an opcode"
    if op not in IMM and op not in OPS:
        return "`%s` is no opcode" % op
    args = []
    for x in toks[1:]:
        args += macros.get(x, [x])
    want = IMM.get(op, [])
    if want[:1] == [MANY]:
        want = [want[1]] * len(args)
    if len(args) != len(want):
        return "%s takes %d immediate argument%s, %d given" % (op, len(want), "" if len(want) == 1 else "s", len(args))
    for k, a in zip(want, args):
        e = immediate(op, k, a, it)
        if e:
            return e
    if op == "substring" and all(isinstance(a, str) for a in args) and int(args[0]) > int(args[1]):
        return "the end of substring is before its start"
    return None


def errors(lines, it=None):
    """[(error, line index)] of an emitted program"""
    macros, out, labels, uses = {}, [], {}, []
    macro_line = {}
    for i, l in enumerate(lines):
        tab = []
        enc = encode(l, tab)
        if "\n" in enc or "\r" in enc:
            out.append(("a line break within one emitted line", i))
            continue
        st = enc.strip()
        if st.startswith("#pragma"):
            if not re.fullmatch(r"#pragma version \S+", st):
                out.append(("malformed pragma", i))
            elif not text_kind(decode(st.split()[2], tab)).isdigit():
                out.append(("malformed version", i))
            continue
        try:
            groups, _ = lex(enc)
        except TealError as e:
            out.append((str(e), i))
            continue
        for g in groups:
            toks = [decode(x, tab) for x in g]
            if not toks:
                continue
            if toks[0] == "#define":
                if len(toks) < 3:
                    out.append(("a macro needs a name and a value", i))
                    continue
                n = toks[1]
                t = text_kind(n)
                if not re.fullmatch(r"[A-Za-z_][\w]*", t) or n in KNOWN:
                    out.append(("`%s` can not be the name of a macro" % showt(n), i))
                macros[n] = toks[2:]
                macro_line[n] = i
                for v in toks[2:]:
                    if isinstance(v, str) and v in KNOWN:
                        continue
                    tv = text_kind(v)
                    e = is_bytes_literal(tv) if tv[:1] == '"' or tv[:2] == "0x" else bounded(v, 2 ** 64 - 1, it)
                    if e:
                        out.append((e, i))
                continue
            ps = pieces(toks[0])
            if isinstance(ps[-1], str) and ps[-1].endswith(":"):
                name = tmpl(*ps[:-1], ps[-1][:-1])
                if name in labels:
                    out.append(("label %s is defined twice" % showt(name), i))
                labels[name] = i
                if not text_kind(name):
                    out.append(("a label without name", i))
                toks = toks[1:]
                if not toks:
                    continue
            try:
                e = instruction(toks, macros, it, 8)
            except AnalysisError as x:
                raise AnalysisError("%s in `%s`" % (x, showt(l)))
            if e:
                out.append((e, i))
            if IMM.get(toks[0], [""])[-1] == LABEL:
                uses += [(x, i) for x in toks[1:]]
    for n in macros:
        if n in labels:
            out.append(("macro %s has the name of a label" % showt(n), macro_line[n]))
    for x, i in uses:
        if x not in labels:
            out.append(("label %s is not defined" % showt(x), i))
    return sorted(out, key=lambda e: e[1])
