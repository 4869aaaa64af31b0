"""Programs that are not valid Tealish, as templates: statements placed at every position of a
program, and whole programs.  Each names the lines a diagnostic may point at."""

STRUCT = ["struct Item:", "    aa: int", "    bb: bytes[3]", "end"]
# every statement position: lines before, lines after
POS = {
    "main": ([], ["exit(1)"]),
    "if": (["if {c0}:"], ["end", "exit(1)"]),
    "elif": (["if {c0}:", "    log({l0})", "elif {c1}:"], ["else:", "    log({l1})", "end", "exit(1)"]),
    "else": (["if {c0}:", "    log({l0})", "else:"], ["end", "exit(1)"]),
    "while": (["while {c0}:"], ["end", "exit(1)"]),
    "for": (["for i9 in 0:9:"], ["end", "exit(1)"]),
    "for_": (["for _ in 0:9:"], ["end", "exit(1)"]),
    "inner_group": (["inner_group:"], ["    inner_txn:", "        TypeEnum: Pay", "    end", "end", "exit(1)"]),
    "func": (["f9()", "exit(1)", "func f9():"], ["    return", "end"]),
    "block": (["jump b9", "block b9:"], ["    exit(1)", "end"]),
    "nested-block": (["jump b9", "block b9:", "    jump b8", "    block b8:"], ["        exit(1)", "    end", "end"]),
    "block-func": (["jump b9", "block b9:", "    f9()", "    exit(1)", "    func f9():"], ["        return", "    end", "end"]),
    "deep": (["f9()", "exit(1)", "func f9():", "    while not {c0}:", "        if {c1}:", "            log({l0})", "        else:", "            for i9 in 2:9:", "                if {c2}:"],
             ["                end", "            end", "        end", "    end", "    return", "end"]),
}
HT = {"l0": "bytes", "l1": "bytes", "b": "bytes", "b2": "bytes", "i": "int", "i2": "int", "n": "none", "m": "list:int,int", "u": "uint8", "s": "Item"}

# name -> (lines, index of the line at fault)
STMT = {
    # text that is no statement
    "no-statement": (["foo"], 0), "symbol": (["+ 1"], 0), "number": (["12"], 0), "string": (['"abc"'], 0), "stray-end": None, "stray-else": None,
    "stray-close": (["log({b}))"], 0), "unclosed-call": (["log({b}"], 0), "unclosed-group": (["int v = ({i} + {i2}"], 0), "unclosed-string": (['log("abc)'], 0), "single-quote": (["log('abc\")"], 0),
    "no-value": (["int v ="], 0), "two-equals": (["int v = = 1"], 0), "no-operand": (["int v = {i} +"], 0), "no-left-operand": (["int v = * {i}"], 0), "chain": (["int v = 1 + 2 + 3"], 0), "two-values": (["int v = 1 2"], 0),
    "bad-operator": (["int v = {i} ** {i2}"], 0), "assign-operator": (["v += 1"], 0), "comma-only": (["log({b},)"], 0), "comma-first": (["log(,{b})"], 0), "comma-double": (["int v = addw({i},, {i2})"], 0),
    "bad-char": (["int v = {i} ? 1"], 0), "semicolon": (["int v = 1;"], 0), "trailing-word": (["log({b}) log({b2})"], 0), "uppercase-var": (["int V = 1"], 0), "digit-var": (["int 1v = 1"], 0), "underscore-number": (["int v = _1"], 0),
    "hex": (["bytes v = 0xab"], 0), "odd-hex-const": (["const bytes V = 0xabc"], 0), "lower-const": (["const int v = 1"], 0), "const-expr": (["const int V = 1 + 2"], 0), "const-no-value": (["const int V"], 0), "const-type": (["const foo V = 1"], 0),
    "assert-empty": (["assert()"], 0), "assert-message-open": (['assert({i}, "abc)'], 0), "assert-two": (["assert({i}, {i2})"], 0), "exit-empty": (["exit()"], 0), "exit-two": (["exit({i}, {i2})"], 0),
    "pragma-late": (["#pragma version 8"], 0), "field-open": (["int v = Txn."], 0), "group-index-open": (["int v = Gtxn[0"], 0), "group-no-field": (["int v = Gtxn[0]"], 0), "array-open": (["bytes v = Txn.Accounts[0"], 0),
    "jump-nowhere": (["jump"], 0), "box-no-struct": (['box v = Box("k")'], 0), "box-method": (['box<Item> v = FooBox({b})'], 0), "box-decl-only": (["box<Item> v"], 0), "empty-type": (["bytes[] v"], 0), "negative-size": (["bytes[-1] v"], 0),
    # names
    "unknown-variable": (["log(vv)"], 0), "unknown-variable-nested": (["log(concat({b}, itob(vv)))"], 0), "unknown-target": (["vv = {i}"], 0), "unknown-constant": (["int v = ABC"], 0), "unknown-enum": (["int v = Abc"], 0), "unknown-function": (["log(foo({i}))"], 0),
    "unknown-function-statement": (["foo()"], 0), "unknown-stdlib": (["int v = Foo({i})"], 0), "unknown-type": (["foo v"], 0), "unknown-struct": (["Foo v"], 0), "unknown-box-struct": (["box<Foo> v = Box({b})"], 0), "unknown-block": (["jump foo"], (0, 1)),
    "unknown-struct-var": (["vv.aa = {i}"], 0), "unknown-struct-var-read": (["int v = vv.aa"], 0), "unknown-struct-field": (["Item v = {s}", "v.cc = {i}"], 1), "unknown-struct-field-read": (["Item v = {s}", "int w = v.cc"], 1),
    "unknown-box-field": (["box<Item> v = Box({b})", "v.cc = {i}"], 1), "field-of-int": (["int v = {i}", "int w = v.aa"], 1), "set-field-of-int": (["int v = {i}", "v.aa = {i}"], 1),
    "unknown-txn-field": (["int v = Txn.Foo"], 0), "unknown-global-field": (["int v = Global.Foo"], 0), "unknown-itxn-field": (["int v = Itxn.Foo"], 0), "unknown-gtxn-field": (["int v = Gtxn[0].Foo"], 0), "unknown-gtxn-rel-field": (["int v = Gtxn[+1].Foo"], 0),
    "unknown-txn-array": (["bytes v = Txn.Foo[0]"], 0), "unknown-gtxn-array": (["bytes v = Gtxn[1].Foo[0]"], 0), "unknown-itxn-array": (["bytes v = Itxn.Foo[0]"], 0), "unknown-op-field": (["int v", "int w", "v, w = asset_params_get(Foo, {i})"], 2),
    "unknown-cast-type": (["int v = Cast({b}, Foo)"], 0), "unknown-sizeof": (["int v = SizeOf(Foo)"], 0), "unknown-frombytes-type": (["int v = FromBytes({b}, Foo)"], 0),
    "redeclared": (["int v", "bytes v"], 1), "redeclared-box": (["int v", "box<Item> v = Box({b})"], 1), "redeclared-for": (["int v", "for v in 0:2:", "end"], 1), "redeclared-const": (["const int V = 1", "const int V = 1"], 1),
    # types and numbers
    "type-decl": (["int v = {b}"], 0), "type-decl-bytes": (["bytes v = {i}"], 0), "type-size": (['bytes[3] v = "ab"'], 0), "type-literal": (["uint8 v = 256"], 0), "type-assign": (["int v", "v = {b}"], 1), "type-field": (["Item v = {s}", "v.aa = {b}"], 1),
    "type-box-field": (["box<Item> v = Box({b})", "v.aa = {b}"], 1), "type-box-key": (["box<Item> v = Box({i})"], 0), "type-const": (['const int V = "a"'], 0), "type-const-bytes": (["const bytes V = 1"], 0), "type-const-large": (["const int V = 18446744073709551616"], 0),
    "type-assert": (["assert({b})"], 0), "type-operand": (["int v = {i} + {b}"], 0), "type-operand-unary": (["int v = !{b}"], 0), "type-op-arg": (["bytes v = itob({b})"], 0), "type-op-arg-2": (["bytes v = concat({b}, {i})"], 0), "type-nested": (["log(concat({b}, itob({b2})))"], 0),
    "large-int": (["int v = 18446744073709551616"], 0), "large-type": (["uint65 v"], 0), "op-few": (["bytes v = concat({b})"], 0), "op-many": (["bytes v = concat({b}, {b2}, {b})"], 0), "op-none": (["bytes v = itob()"], 0), "op-immediate-missing": (["bytes v = extract({b})"], 0),
    "op-immediate-var": (["int q = 1", "bytes v = extract(q, 2, {b})"], 1), "op-immediate-expr": (["bytes v = extract(1 + 1, 2, {b})"], 0), "op-multi": (["log(addw({i}, {i2}))"], 0), "multi-decl": (["int v = addw({i}, {i2})"], 0), "multi-few": (["int v", "v = addw({i}, {i2})"], 1),
    "multi-many": (["int v", "v, v, v = addw({i}, {i2})"], 1), "none-value": (["int v = {n}"], 0), "unused-value": (["itob({i})"], 0), "unused-values": (["addw({i}, {i2})"], 0), "multi-operand": (["int v = {i} + {m}"], 0), "none-operand": (["int v = {n} + {i}"], 0),
    "multi-assert": (["assert({m})"], 0), "none-exit": (["exit({n})"], (0, 1)), "multi-index": (["bytes v = Txn.Accounts[{m}]"], 0), "multi-group-index": (["int v = Gtxn[{m}].Amount"], 0), "group-16": (["int v = Gtxn[16].Amount"], 0), "group-array-16": (["bytes v = Gtxn[16].Accounts[0]"], 0),
    "group-array-16-var": (["bytes v = Gtxn[99].Accounts[{i}]"], 0),
    "cast-few": (["int v = Cast({b})"], 0), "cast-none": (["int v = Cast()"], 0), "cast-many": (["int v = Cast({i}, int, int)"], 0), "frombytes-few": (["int v = FromBytes({b})"], 0), "frombytes-int": (["int v = FromBytes({i}, int)"], 0), "tobytes-few": (["bytes v = ToBytes({i})"], 0), "tobytes-bytes": (["bytes v = ToBytes({b}, 8)"], 0),
    "tobytes-var": (["int q = 3", "bytes v = ToBytes({i}, q)"], 1), "rpad-int": (["bytes v = Rpad({i}, 3)"], 0), "lpad-int": (["bytes v = Lpad({i}, 3)"], 0), "rpad-few": (["bytes v = Rpad({b})"], 0), "lpad-few": (["bytes v = Lpad({b})"], 0), "rpad-var": (["int q = 3", "bytes v = Rpad({b}, q)"], 1), "lpad-var": (["int q = 3", "bytes v = Lpad({b}, q)"], 1),
    "concat-int": (["bytes v = Concat({b}, {i})"], 0), "sizeof-none": (["int v = SizeOf()"], 0), "sizeof-int": (["int v = SizeOf(3)"], 0), "address-int": (["bytes v = Address(1)"], 0), "ensuretype-few": (["int v = EnsureType({i})"], 0), "convert-few": (["int v = Convert({i})"], 0), "uncheckedcast-few": (["int v = UncheckedCast({i})"], 0), "error-int": (["Error({i})"], 0),
    "arc28-none": (["ARC28Event()"], 0), "arc28-int": (["ARC28Event({i})"], 0),
    # conditions and counters
    "none-if": (["if {n}:", "    log({b})", "end"], 0), "multi-if": (["if {m}:", "    log({b})", "end"], 0), "none-elif": (["if {i}:", "    log({b})", "elif {n}:", "    log({b})", "end"], 2), "none-while": (["while {n}:", "    log({b})", "end"], 0),
    "if-expr": (["if 1 + 2 + 3:", "    log({b})", "end"], 0), "if-empty": (["if :", "    log({b})", "end"], 0), "if-colon": (["if {i}", "    log({b})", "end"], 0), "while-colon": (["while {i}", "    log({b})", "end"], 0), "elif-colon": (["if {i}:", "    log({b})", "elif {i2}", "    log({b})", "end"], 2),
    "else-condition": (["if {i}:", "    log({b})", "else {i2}:", "    log({b})", "end"], 2), "else-if": (["if {i}:", "    log({b})", "else if {i2}:", "    log({b})", "end"], 2), "elif-after-else": (["if {i}:", "    log({b})", "else:", "    log({b})", "elif {i2}:", "    log({b})", "end"], 4),
    "two-else": (["if {i}:", "    log({b})", "else:", "    log({b})", "else:", "    log({b})", "end"], 4), "else-in-while": (["while {i}:", "    log({b})", "else:", "    log({b})", "end"], 2), "for-range": (["for j in 0:", "    log({b})", "end"], 0), "for-three": (["for j in 0:3:1:", "    log({b})", "end"], 0),
    "for-upper": (["for J in 0:3:", "    log({b})", "end"], 0), "for-no-in": (["for j 0:3:", "    log({b})", "end"], 0), "for-unknown": (["for j in 0:vv:", "    log({b})", "end"], 0), "for-own": (["for j in 0:3:", "    log({b})", "end", "log(itob(j))"], 3), "for-expr": (["for j in 0:(1+2):", "    log({b})", "end"], 0),
    "while-scope": (["while {i}:", "    int v = 1", "end", "log(itob(v))"], 3), "break-argument": (["while {i}:", "    break 2", "end"], 1), "break-call": (["while {i}:", "    break()", "end"], 1), "continue": (["while {i}:", "    continue", "end"], 1),
    # inner transactions
    "inner-field": (["inner_txn:", "    TypeEnum = Pay", "end"], 1), "inner-statement": (["inner_txn:", "    log({b})", "end"], 1), "inner-lower": (["inner_txn:", "    typeEnum: Pay", "end"], 1), "inner-empty-value": (["inner_txn:", "    TypeEnum:", "end"], 1),
    "inner-gap": (["inner_txn:", "    Accounts[1]: {b}", "end"], 1), "inner-twice": (["inner_txn:", "    Accounts[0]: {b}", "    Accounts[0]: {b2}", "end"], 2), "inner-order": (["inner_txn:", "    Accounts[1]: {b}", "    Accounts[0]: {b2}", "end"], 1), "inner-none": (["inner_txn:", "    Amount: {n}", "end"], 1),
    "inner-multi": (["inner_txn:", "    Amount: {m}", "end"], 1), "inner-junk": (["inner_txn: x", "    Amount: {i}", "end"], 0), "inner-unknown-enum": (["inner_txn:", "    TypeEnum: Foo", "end"], 1), "inner-unknown-var": (["inner_txn:", "    Amount: vv", "end"], 1), "inner-if": (["inner_txn:", "    if {i}:", "    end", "end"], 1),
    # definitions in the wrong place
    "struct-inside": (["int q9 = 1", "struct Late:", "    aa: int", "end"], 1), "block-inside": (["block inner:", "    exit(1)", "end"], 0), "func-inside": (["func inner():", "    return", "end"], 0), "decorated-inside": (["@public()", "func inner():", "    return", "end"], 0), "decorator-alone": (["@public()", "log({b})"], (0, 1)),
}
STMT = {k: v for k, v in STMT.items() if v}
BREAK = ("main", "if", "elif", "else", "for", "for_", "inner_group", "func", "block", "nested-block", "block-func")
RETURN = ("main", "if", "elif", "else", "while", "for", "for_", "inner_group", "block", "nested-block")
PLACED = {"break": (["break"], 0, BREAK), "return": (["return"], 0, RETURN), "return-value": (["return {i}"], 0, RETURN)}

# whole programs: name -> (lines, indexes of the lines a diagnostic may name)
WHOLE = {
    "pragma-second": (["", "#pragma version 8", "exit(1)"], [1]), "pragma-word": (["#pragma foo", "exit(1)"], [0]), "pragma-no-number": (["#pragma version", "exit(1)"], [0]), "pragma-junk": (["#pragma version 8 9", "exit(1)"], [0]), "pragma-negative": (["#pragma version -1", "exit(1)"], [0]),
    "struct-late": (["int x = {i}", "struct Item:", "    aa: int", "end", "exit(1)"], [1]), "struct-after-const": (["const int K = 1", "struct Item:", "    aa: int", "end", "exit(1)"], [1]), "struct-lower": (["struct item:", "    aa: int", "end", "exit(1)"], [0]),
    "struct-type": (["struct Item:", "    aa: foo", "end", "exit(1)"], [1]), "struct-self": (["struct Item:", "    aa: Item", "end", "exit(1)"], [1]), "struct-forward": (["struct Item:", "    aa: Other", "end", "struct Other:", "    bb: int", "end", "exit(1)"], [1]), "struct-unsized": (["struct Item:", "    aa: bytes", "end", "exit(1)"], [1]),
    "struct-field-twice": (["struct Item:", "    aa: int", "    aa: bytes[2]", "end", "exit(1)"], [2]), "struct-twice": (["struct Item:", "    aa: int", "end", "struct Item:", "    aa: int", "    bb: int", "end", "exit(1)"], [3]), "struct-statement": (["struct Item:", "    aa: int", "    log({b})", "end", "exit(1)"], [2]),
    "struct-value": (["struct Item:", "    aa: int = 1", "end", "exit(1)"], [1]), "struct-box": (["struct Item:", "    aa: int", "end", "struct Other:", "    bb: box<Item>", "end", "exit(1)"], [4]), "struct-open": (["struct Item:", "    aa: int"], [1]), "struct-comma": (["struct Item:", "    aa: int,", "end", "exit(1)"], [1]),
    "end": (["end", "exit(1)"], [0]), "end-extra": (["if {i}:", "    log({b})", "end", "end", "exit(1)"], [3]), "else": (["else:", "    log({b})", "end", "exit(1)"], [0]), "elif": (["elif {i}:", "    log({b})", "end", "exit(1)"], [0]),
    "open-if": (["if {i}:", "    log({b})"], [1]), "open-else": (["if {i}:", "    log({b})", "else:", "    log({b})"], [3]), "open-elif": (["if {i}:", "    log({b})", "elif {i}:", "    log({b})"], [3]), "open-while": (["while {i}:", "    log({b})"], [1]), "open-for": (["for j in 0:3:", "    log({b})"], [1]), "open-for_": (["for _ in 0:3:", "    log({b})"], [1]),
    "open-teal": (["teal:", "    pop"], [1]), "open-txn": (["inner_txn:", "    Amount: {i}"], [1]), "open-group": (["inner_group:", "    inner_txn:", "    end"], [2]), "open-switch": (["switch {i}:", "    {i}: a"], [1]), "open-router": (["router:", "    f"], [1]), "open-block": (["jump a", "block a:", "    exit(1)"], [2]), "open-func": (["exit(1)", "func f():", "    return"], [2]),
    "open-decorator": (["exit(1)", "@public()"], [1]), "open-if-nothing": (["if {i}:"], [0]), "open-func-nothing": (["exit(1)", "func f():"], [1]), "open-block-nothing": (["jump a", "block a:"], [1]),
    "statement-after-exit": (["exit(1)", "log({b})"], [1]), "statement-after-jump": (["jump a", "log({b})", "block a:", "    exit(1)", "end"], [1]), "statement-after-switch": (["switch {i}:", "    {i2}: a", "end", "int x = 1", "block a:", "    exit(1)", "end"], [3]), "statement-after-block": (["jump a", "block a:", "    exit(1)", "end", "log({b})"], [4]),
    "statement-after-func": (["exit(1)", "func f():", "    return", "end", "exit(1)"], [4]), "statement-after-router": (["router:", "    f", "end", "exit(1)", "@public()", "func f():", "    return", "end"], [3]), "exit-after-exit": (["exit(1)", "exit(1)"], [1]),
    "block-first": (["block a:", "    exit(1)", "end", "jump a"], [0]), "func-first": (["func f():", "    return", "end", "exit(1)"], [0]), "decorated-first": (["@public()", "func f():", "    return", "end", "exit(1)"], [0, 1]), "block-no-exit": (["jump a", "block a:", "    log({b})", "end"], [3]), "block-empty": (["jump a", "block a:", "end"], [2]),
    "block-in-func": (["exit(1)", "func f():", "    block a:", "        exit(1)", "    end", "    return", "end"], [2]), "func-in-func": (["exit(1)", "func f():", "    func g():", "        return", "    end", "    return", "end"], [2]), "func-no-return": (["exit(1)", "func f():", "    log({b})", "end"], [3]),
    "func-empty": (["exit(1)", "func f():", "end"], [2]), "func-only-comment": (["exit(1)", "func f():", "    # nothing", "end"], [3]), "func-only-blank": (["exit(1)", "func f():", "", "end"], [3]), "func-return-in-if": (["exit(1)", "func f():", "    if {i}:", "        return", "    end", "end"], [5]),
    "func-arg-type": (["exit(1)", "func f(a: foo):", "    return", "end"], [1]), "func-arg-struct": (["exit(1)", "func f(a: Foo):", "    return", "end"], [1]), "func-arg-no-type": (["exit(1)", "func f(a):", "    return", "end"], [1]), "func-arg-comma": (["exit(1)", "func f(a: int,):", "    return", "end"], [1]), "func-arg-twice": (["exit(1)", "func f(a: int, a: int):", "    return", "end"], [1]),
    "func-return-type": (["exit(1)", "func f() foo:", "    return 1", "end"], [1]), "func-return-struct": (["exit(1)", "func f() Foo:", "    return 1", "end"], [1]), "func-return-comma": (["exit(1)", "func f() int,:", "    return 1", "end"], [1]), "func-return-commas": (["exit(1)", "func f() int,,int:", "    return 1, 2", "end"], [1]), "func-no-colon": (["exit(1)", "func f()", "    return", "end"], [1]),
    "func-no-parens": (["exit(1)", "func f:", "    return", "end"], [1]), "return-none": (["exit(1)", "func f() int:", "    return", "end"], [2]), "return-extra": (["exit(1)", "func f():", "    return 1", "end"], [2]), "return-few": (["exit(1)", "func f() int, int:", "    return 1", "end"], [2]), "return-type": (["exit(1)", "func f() int:", "    return {b}", "end"], [2]),
    "return-type-2": (["exit(1)", "func f() int, int:", "    return {i}, {b}", "end"], [2]), "return-empty": (["exit(1)", "func f() int, int:", "    return 1,", "end"], [2]), "return-unknown": (["exit(1)", "func f() int:", "    return vv", "end"], [2]), "return-call-none": (["exit(1)", "func f() int:", "    return g()", "end", "func g():", "    return", "end"], [2]),
    "call-few": (["f()", "exit(1)", "func f(a: int):", "    return", "end"], [0]), "call-many": (["f(1, 2)", "exit(1)", "func f(a: int):", "    return", "end"], [0]), "call-type": (["f({b})", "exit(1)", "func f(a: int):", "    return", "end"], [0]), "call-unused": (["f()", "exit(1)", "func f() int:", "    return 1", "end"], [0]), "call-none-value": (["int x = f()", "exit(1)", "func f():", "    return", "end"], [0]),
    "call-out-of-scope": (["jump a", "block a:", "    exit(1)", "    func f():", "        return", "    end", "end", "block b:", "    f()", "    exit(1)", "end"], [8]), "jump-out-of-scope": (["jump a", "block a:", "    jump c", "    block c:", "        exit(1)", "    end", "end", "block b:", "    jump c", "end"], [8]),
    "variable-of-block": (["jump a", "block a:", "    int x = 1", "    jump b", "end", "block b:", "    log(itob(x))", "    exit(1)", "end"], [6]), "variable-of-func": (["f()", "exit(1)", "func f():", "    int x = 1", "    return", "end", "func g():", "    log(itob(x))", "    return", "end"], [7]),
    "op-named-func": (["log(itob(1))", "exit(1)", "func itob(a: int) bytes:", "    return {b}", "end"], [0]),
    "switch-unknown": (["switch {i}:", "    {i2}: foo", "end"], [1]), "switch-else-unknown": (["switch {i}:", "    {i2}: a", "    else: foo", "end", "block a:", "    exit(1)", "end"], [2]), "switch-no-block": (["switch {i}:", "    {i2}:", "end"], [1]), "switch-statement": (["switch {i}:", "    log({b})", "end"], [1]), "switch-none": (["switch {n}:", "    1: a", "end", "block a:", "    exit(1)", "end"], [0]),
    "switch-option-none": (["switch {i}:", "    {n}: a", "end", "block a:", "    exit(1)", "end"], [1, 0]), "switch-two-else": (["switch {i}:", "    1: a", "    else: a", "    else: b", "end", "block a:", "    exit(1)", "end", "block b:", "    exit(1)", "end"], [3]), "switch-in-if": None,
    "switch-junk": (["switch {i}:", "    1: a b", "end", "block a:", "    exit(1)", "end"], [1]), "switch-no-colon": (["switch {i}", "    1: a", "end", "block a:", "    exit(1)", "end"], [0]),
    "router-unknown": (["router:", "    foo", "end"], [1]), "router-private": (["router:", "    f", "end", "func f():", "    return", "end"], [1]), "router-junk": (["router:", "    f g", "end", "@public()", "func f():", "    return", "end", "@public()", "func g():", "    return", "end"], [1]), "router-empty-line": (["router:", "    f()", "end", "@public()", "func f():", "    return", "end"], [1]),
    "router-param": (["router:", "    f", "end", "@public(OnCompletion=Foo)", "func f():", "    return", "end"], [1, 3]), "router-param-name": (["router:", "    f", "end", "@public(Foo=OptIn)", "func f():", "    return", "end"], [1, 3]), "router-in-block": None, "decorator-param": (["exit(1)", "@public(a b)", "func f():", "    return", "end"], [1]),
    "decorator-twice": (["exit(1)", "@public()", "@public()", "func f():", "    return", "end"], [2]), "decorator-no-parens": (["exit(1)", "@public", "func f():", "    return", "end"], [1]), "decorator-block": (["jump a", "@public()", "block a:", "    exit(1)", "end"], [2]), "decorator-upper": (["exit(1)", "@Public()", "func f():", "    return", "end"], [1]),
    "label-collision": None,
}
WHOLE = {k: v for k, v in WHOLE.items() if v}

# programs whose lines are changed token by token
PROGRAMS = {
    "values": ["#pragma version 8", "const int KA = 3", 'const bytes KB = "xy"', "int v = {i}", "bytes w = concat({b}, KB)", "v = v + KA", "uint8 u = 7", "bytes[2] z = \"ab\"", "assert(v == 2, \"msg\")", "log(extract(1, 2, w))", "exit((v + 1) * u)"],
    "struct": STRUCT + ["Item it = Cast({b}, Item)", "it.aa = {i}", "log(it.bb)", "box<Item> bx = CreateBox({b})", "bx.bb = \"abc\"", "int v = bx.aa", "exit(v)"],
    "if": ["if {i}:", "    log({b})", "elif not {i2}:", "    log({b2})", "else:", "    assert({i})", "end", "exit(1)"],
    "loops": ["int v = 3", "while v < 5:", "    if not {i}:", "        break", "    end", "    v = v + 1", "end", "for j in 0:v:", "    log(itob(j))", "end", "while not {i}:", "    log({b})", "end", "exit(1)"],
    "functions": ["int v = f({i}, \"ab\")", "int q", "bytes r", "q, r = g(v)", "_, r = g(q)", "exit(v)", "func f(a: int, b: bytes[2]) int:", "    log(b)", "    return a + 1", "end", "func g(a: int) int, bytes:", "    return a, itob(a)", "end"],
    "blocks": ["switch {i}:", "    1: one", "    {i2}: two", "    else: one", "end", "block one:", "    exit(1)", "end", "block two:", "    jump three", "    block three:", "        exit(2)", "    end", "end"],
    "router": ["router:", "    ff", "    gg", "end", "@public()", "func ff(a: int) bytes:", "    return itob(a)", "end", "@public(OnCompletion=OptIn)", "func gg():", "    return", "end"],
    "inner": ["inner_group:", "    inner_txn:", "        TypeEnum: Pay", "        Amount: {i}", "    end", "    inner_txn:", "        TypeEnum: Appl", "        ApplicationArgs[0]: {b}", "        ApplicationArgs[1]: \"x\"", "    end", "end", "exit(Itxn.CreatedAssetID)"],
    "fields": ["int a = Txn.Fee + Global.GroupSize", "bytes b = Txn.Accounts[1]", "int c = Gtxn[2].Amount", "bytes d = Gtxn[+1].Sender", "bytes e = Gtxn[{i}].ApplicationArgs[3]", "bytes g = Itxn.Logs[{i}]", "log(FromBytes({b}, bytes[4]))", "log(Rpad(\"ab\", 5))", "exit(a)"],
}
TOKENS = ["junk", "1", "(", ")", ",", ":", ".", "=", '"s"', "_", "end", "not", "+", "[0]", "-"]


def tokens(l):
    import re
    return re.findall(r'"[^"]*"|\{\w+\}|\w+|[ ]+|.', l)


def mutants(l):
    """the line with one token left out, repeated, replaced or one more token -> sorted list"""
    ts = tokens(l.strip())
    out = set()
    for j in range(len(ts) + 1):
        for k in TOKENS:
            out.add("".join(ts[:j] + [k] + ts[j:]))
            if j < len(ts):
                out.add("".join(ts[:j] + [k] + ts[j + 1:]))
        if j < len(ts):
            out.add("".join(ts[:j] + ts[j + 1:]))
            out.add("".join(ts[:j] + [ts[j], ts[j]] + ts[j + 1:]))
            for k in range(j + 1, len(ts)):
                if ts[k].strip() and ts[j].strip():
                    out.add("".join(ts[:j] + [ts[k]] + ts[j + 1:k] + [ts[j]] + ts[k + 1:]))
    for suffix in (" junk", " 1", " :", " ()", " = 3", " # c"):
        out.add(l.strip() + suffix)
    out.discard(l.strip())
    return sorted(x for x in out if x.strip())


def line_edits(src):
    """the program with one line left out, repeated or two neighbours exchanged -> {name: lines}"""
    out = {}
    for i in range(len(src)):
        out["without-%d" % (i + 1)] = src[:i] + src[i + 1:]
        out["twice-%d" % (i + 1)] = src[:i + 1] + src[i:]
        if i:
            out["swap-%d" % (i + 1)] = src[:i - 1] + [src[i], src[i - 1]] + src[i + 1:]
    return out
