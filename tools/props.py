#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe, state=state))


T = "tealish/"
EM = "path-partitioned abstract interpretation of the compiler's source over program templates with holes; "

prop("C01", "Expressions compute the documented value, operands once and in order",
     "The code emitted for an expression leaves on the stack exactly the value the expression denotes, using the operator, opcode, field, immediate argument or literal that was written. Every operand is evaluated exactly once, left to right, whatever the operand is and wherever the expression stands (declaration, assignment, condition, argument, index, inner transaction field, return value, switch).",
     ["programs", "inputs"], "every expression form x every kind of operand x every position an expression may stand in; operands are arbitrary sub-expressions, literals range over all values",
     "tests compile about a hundred fixed snippets and compare text; the product of expression forms, operand kinds, nesting and positions is not reachable by samples",
     [T + "expression_nodes.py", T + "tealish_expressions.tx", T + "tx_expressions.py", T + "nodes.py", T + "__init__.py"],
     [("expression classes and their emission", T + "expression_nodes.py"), ("expression grammar", T + "tealish_expressions.tx"), ("writer", T + "__init__.py TealWriter")],
     EM + "emission templates compared with reference TEAL by value-numbering over the control-flow graph",
     "expression forms and positions are enumerated from a catalogue derived from the documentation; operands are opaque holes", ["emitted TEAL"])

prop("C02", "Every statement leaves the evaluation stack as it found it",
     "Between any two statements of a compiled program the evaluation stack holds exactly what it held before the first of them, on every path and at every nesting depth. No statement pops values it did not push, an assignment of several values consumes every one of them, kept or discarded, and a function call leaves exactly its declared return values above the caller's operands.",
     ["programs"], "every statement kind x every position (main program, block, function, if/elif/else, while, for, inner group) with arbitrary operand expressions; every pattern of kept and discarded values",
     "an unbalanced stack only shows in the code after the statement, in loops or below a call; the tests compare emitted text of isolated snippets and never track stack depth",
     [T + "nodes.py", T + "expression_nodes.py", T + "stdlib.py"],
     [("statement emission", T + "nodes.py write_teal of each statement")],
     EM + "stack-effect dataflow over the emitted control-flow graph with markers around each statement",
     "`for _` leaves its counter behind: recorded finding, pinned by the repository's own tests", ["emitted TEAL"])

prop("C03", "Structured control flow follows the documented branches",
     "Conditions, else-if chains, else, while, counted loops, break, switch, jump, return and exit transfer control exactly as documented, for every nesting of them: each condition is tested when its branch is reached, exactly the selected branch runs, loops run the documented number of times, break leaves the innermost while loop. Code after a construct is reached from every path that completes it and from no other.",
     ["programs"], "every nesting (depth <= 3) of control constructs, chains of 0..4 else-ifs with and without else and negation, arbitrary conditions and bodies",
     "the tests contain a few fixed shapes; the branch structure of nested constructs is checked only as literal text for those",
     [T + "nodes.py"], [("branch emission", T + "nodes.py IfStatement, Elif, Else, WhileStatement, ForStatement, For_Statement, Break, Switch, Jump, Return, Exit")],
     EM + "control-flow graph of the emitted template proved bisimilar to a reference graph",
     "bodies and conditions are holes; nesting is enumerated to depth 3", ["emitted TEAL"])

DONE = {"C01", "C02", "C03"}
NA = []


def main(extra=None):
    with open(os.path.join(ROOT, "tools", "props_more.py")) as f:
        exec(f.read(), globals())
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] not in DONE and p["id"] not in dict(NA):
                continue
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 11)'", "checks": [
        {"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
         "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P if p["id"] in DONE],
        "not_applicable": [{"property": i, "reason": r} for i, r in NA],
        "notes": "All checks are static: they parse /repo's current source (Python, textX grammar, JSON tables) on every run and never import or execute it."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(m["checks"]), "checks")


if __name__ == "__main__":
    main()
