#!/usr/bin/env python3
"""Writes regress/: the inputs on which a defect showed once (see known-findings.txt)."""
import json, os, itertools
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GR = {
 "lalr-lost-1": "S' -> N2; N1 -> N1 t0 t0 | t0 N2 t0; N2 -> t0 | t0 N1",
 "lalr-lost-2": "S' -> N2; N1 -> N2 t0 N3 | N3; N2 -> t1 N3 | t2; N3 -> N2 | t3 N3 N1",
 "first-cycle": "S' -> N1; N1 -> N2 t0 | t3; N2 -> N3 t1 | t4; N3 -> N1 t2 | t5",
 "first-left-recursive": "S' -> N1; N1 -> N2 t0 | t1; N2 -> N1 t2 | t3",
 "follow-cycle": "S' -> N1 t0; N1 -> t3 N2 | t4; N2 -> t5 N3 | t6; N3 -> t7 N1 | t8",
 "lr1-not-lalr": "S' -> N1; N1 -> t0 N2 t1 | t0 N3 t2 | t3 N2 t2 | t3 N3 t1; N2 -> t4; N3 -> t4",
 "lalr-not-slr": "S' -> N1; N1 -> N2 t0 N3 | N3; N2 -> t1 N3 | t2; N3 -> N2",
 "ambiguous": "S' -> N1; N1 -> N1 t0 N1 | N1 t1 N1 | t2",
 "rule-cycle": "S' -> N1; N1 -> N2 | t0; N2 -> N1 | t1",
 "dangling-else": "S' -> N1; N1 -> t0 N1 | t0 N1 t1 N1 | t2",
}
def grammar(text, rev):
    rules = [r.split("->") for r in text.split(";")]
    names = [l.strip() for l, _ in rules]
    ts = sorted({w for _, r in rules for w in r.replace("|", " ").split() if w[0] == "t"})
    num = {n: i for i, n in enumerate(names)}
    num.update({t: len(names) + i for i, t in enumerate(ts)})
    prods = [[[num[w] for w in a.split()] for a in r.split("|")] for _, r in rules]
    n = len(names) + len(ts) + 3
    rank = list(range(n))[::-1] if rev else list(range(n))
    return {"nts": len(names), "ts": len(ts), "prods": prods, "rank": rank}
def put(id, name, inp):
    d = os.path.join(ROOT, "regress", id)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + ".json"), "w") as f:
        json.dump({"property": id, "input": inp}, f, ensure_ascii=False)
        f.write("\n")
for name, text in GR.items():
    for rev in (False, True):
        g = grammar(text, rev)
        t = [g["nts"] + i for i in range(g["ts"])]
        words = [list(w) for n in range(0, 6) for w in itertools.product(t, repeat=n)][:250]
        if name == "rule-cycle":
            ids = ["C04", "C05", "C06", "C12", "C15", "C16"]
        else:
            ids = ["C%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 15, 16, 17)]
        for id in ids:
            w = words if id in ("C01", "C02", "C03", "C07", "C08", "C09", "C11", "C14", "C17") else []
            if id == "C11":
                w = words[:40] + [[s] for s in range(g["nts"] + g["ts"] + 3)] + [[t[0], s] for s in range(g["nts"] + g["ts"] + 3)]
            put(id, name + ("-r" if rev else ""), {"grammar": g, "inputs": w, "extra": [1, 2, 3, 4, 5, 6, 7, 8] if id in ("C05", "C14") else []})
W = {
 "keyword": (["W01"], "alias→"), "keyword3": (["W03"], "A:B=alias→"),
 "comment-stars": (["W01", "W03"], "/* **/ alias A B; /* ***/"), "comment-slash": (["W01"], "/*/ x */ y"),
 "code-braces": (["W01", "W03"], "A: B = x -> {}}%; C: D = y -> { } }%;"),
 "absent-name": (["W04", "W05", "W06"], "A: T = x? y:n z?:m -> {}%;"),
 "cloned-optional": (["W04", "W05", "W06"], "A: T = (x y)?&:n z&:m? -> {}%;".replace("z&:m?", "z?&:m")),
 "group-slice": (["W04", "W05", "W06"], "A: T = w (x? y z?):n v? -> {}%;"),
 "nested-groups": (["W04", "W05", "W06"], "A: T = (x (y | z:n)?:m | (w?:k v)):g u -> {}%;"),
}
for name, (ids, src) in W.items():
    for id in ids:
        put(id, "keyword" if name == "keyword3" else name, {"source": src})

# rules whose names are alike
E2E = ("use crate::Ast;use crate::Sym::*;use crate::Sym;Sym::EntryPoint:Ast=N0 crate::%s2-> { crate::node(\"r0.0\", toks, &[]) }%%;"
       "crate::Sym::N0:Ast=T3-> {\n\t// 100%% of {} it\n\tlet v = crate::node(\"r1.0\", toks, &[]);\n\tv\n}%%;"
       "crate::%s:crate::Ast=T0->{{ let _ = 7 %% 4; crate::node(\"r2.0\", toks, &[]) }}%%;")
for name, alike in (("alike-1", "Sym_N0"), ("alike-2", "Sym__N0")):
    put("W07", name, {"source": E2E.replace("%s2", "%s") % (alike, alike), "sentences": [[], [1]], "command_line": False})
