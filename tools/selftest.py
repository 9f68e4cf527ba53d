#!/usr/bin/env python3
"""selftest [models] [traces [PROPERTY...]]

Shows that the machinery can say no:
  models   every listed fault planted in a specification module makes the
           model that is meant to guard it fail;
  traces   real records are accepted, the same records with one observation
           falsified are rejected.
Works in a scratch directory; changes nothing in this one.
"""
import copy, os, random, shutil, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import core, registry, tlc
from harness import BUILD, ToolError

# (module file, text, replacement, model, configuration)
FAULTS = [
    ("spec/CountedNfa.tla", "THEN Counted(r, t[3]) ELSE {}", "THEN {[q |-> t[3], n |-> r.n]} ELSE {}", "MCPattern", "MCPattern"),
    ("spec/CountedNfa.tla", "IN  Compile(d, e.e, q, q)", "IN  Compile(d, e.e, from, q)", "MCPattern", "MCPattern"),
    ("spec/PatternMachine.tla", "(e.hi = Inf \\/ e.lo <= e.hi) /\\ ", "", "MCPattern", "MCPattern"),
    ("spec/PatternLang.tla", "IF k >= lo THEN acc", "IF k > lo THEN acc", "MCPattern", "MCPattern"),
    ("spec/PatternSyntax.tla", "IF es = <<>> THEN Fail", "IF FALSE THEN Fail", "MCSyntax", "MCSyntax"),
    ("spec/PatternSyntax.tla", "/\\ IsLit(ts, i + 2) ->", "/\\ IsClass(ts, i + 2) ->", "MCSyntax", "MCSyntaxDeep"),
    ("spec/SyntaxMachine.tla", "FoldRight(Or, f.alts, CatOf(f.es))", "FoldLeft(Or, CatOf(f.es), f.alts)", "MCSyntax", "MCSyntax"),
    ("spec/SyntaxMachine.tla", "x.m.d = 0 /\\ ", "", "MCSyntax", "MCSyntax"),
    ("spec/LexMachine.tla", "!.again = m.suffix \\o @", "!.again = m.suffix", "MCLexer", "MCLexer"),
    ("spec/LexMachine.tla", "!.again = m.suffix \\o @", "!.again = @ \\o m.suffix", "MCLexer", "MCLexer"),
    ("spec/LexMachine.tla", "<<@[1], last[1] + 1>>", "<<@[1], @[2] + Len(m.suffix) + 1>>", "MCLexer", "MCLexer"),
    ("spec/LexMachine.tla", "Accepted(n, SetMin(", "Accepted(n, SetMax(", "MCLexer", "MCLexer"),
    ("spec/SlrNoStart.tla", "/\\ \\A i \\in behind : \\A a \\in A[i] : a[1] # EndMark", "", "MCSlr", "MCSlr"),
    ("spec/SlrNoStart.tla", 'a[2] = "accept" /\\ k = 1', 'a[2] = "accept"', "MCSlr", "MCSlr"),
    ("spec/Lr0.tla", "t \\in L[g.rules[it[1]].h]}", "t \\in L[g.rules[it[1]].h] \\ {EndMark}}", "MCSlr", "MCSlr"),
    ("spec/WorkLists.tla", "!.todo = @ \\cup s.deps[x], !.deps[x] = {}", "!.deps[x] = {}", "MCWorkLists", "MCWorkLists"),
    ("spec/WorkLists.tla", "IF i = Len(b) THEN F ELSE F \\ {0}", "F", "MCWorkLists", "MCWorkLists"),
    ("spec/WorkLists.tla", "[n EXCEPT !.todo = @ \\cup {j \\in Includes(g) : j[2] = job[1]}]", "n", "MCWorkLists", "MCWorkListsDeep"),
    ("spec/CfsmMachine.tla", "c.done \\cup {c.now} \\cup ToSet(c.wait)", "c.done \\cup ToSet(c.wait)", "MCCfsm", "MCCfsm"),
    ("spec/CfsmMachine.tla", "c.done \\cup {c.now} \\cup ToSet(c.wait)", "c.done \\cup {c.now}", "MCCfsm", "MCCfsm"),
    ("mc/MCPipeline.tla", "lx.kind = 0 /\\ ~AtEnd(lx')", "FALSE", "MCPipeline", "MCPipeline"),
    ("mc/MCSlr.tla", "/\\ m' = PlainStep(g, T, m, w) /\\ steps' = steps + 1",
     "/\\ IF Len(m.st) > 2 THEN m' = m /\\ steps' = steps ELSE m' = PlainStep(g, T, m, w) /\\ steps' = steps + 1",
     "MCSlr", "MCSlrLive"),
]


def models():
    wrong = 0
    for file, old, new, module, cfg in FAULTS:
        d = tempfile.mkdtemp(prefix="self-", dir=BUILD)
        try:
            for s in ("spec", "mc"):
                shutil.copytree(os.path.join(VERIF, s), os.path.join(d, s))
            p = os.path.join(d, file)
            text = open(p).read()
            if old not in text:
                raise ToolError(f"{file} has no {old!r}")
            open(p, "w").write(text.replace(old, new, 1))
            libs, tlc.LIBS = tlc.LIBS, [os.path.join(d, "spec"), os.path.join(d, "mc")]
            try:
                # 12, 13: an invariant or a temporal property is violated
                _, stats = tlc.run(module, cfg=os.path.join(d, "mc", cfg + ".cfg"), ok_codes=(0, 12, 13))
                found = stats["code"] != 0
            finally:
                tlc.LIBS = libs
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(f"{'found ' if found else 'MISSED'} {file}: {old!r} -> {new!r} ({cfg})", flush=True)
        wrong += not found
    return wrong


# --- traces -------------------------------------------------------------------
# Each falsifier returns True if it changed something the property speaks about.

def tokens(t):
    return [e for e in t.get("evs", []) if e["t"] == "tok"]


def f_longest(t, r):
    if "res" in t:
        if not t["res"]:
            return False
        i = r.randrange(len(t["res"]))
        t["res"][i] = t["res"][i] + 1 if t["res"][i] == 0 or r.random() < .5 else t["res"][i] - 1
        return True
    return f_shorter(t, r)


def f_shorter(t, r):
    e = t["evs"][0] if t.get("evs") and t["evs"][0]["t"] == "tok" else None
    if not e:
        return False
    e["src"] = e["src"][:-1]
    return True


def f_accept(t, r):
    if not t["adds"]:
        return False
    a = t["adds"][-1]
    a["r"] = "err" if a["r"] == "ok" else "ok"
    return True


def f_charset(t, r):
    if "set" in t:
        if t["r"] != "ok":
            return False
        if not t["set"]:
            t["set"] = [[97, 97]]
        else:
            x = r.choice(t["set"])
            x[1] = x[1] - 1 if x[1] > x[0] else x[1]
            if x[1] == x[0]:
                t["set"].remove(x)
        return True
    return f_longest(t, r)


def f_kind(t, r):
    if not tokens(t) or len(t["pats"]) < 2:
        return False
    e = r.choice(tokens(t))
    e["k"] = e["k"] % len(t["pats"]) + 1
    return True


def f_place(t, r):
    if not tokens(t):
        return False
    e = r.choice(tokens(t))
    w = r.randrange(4)
    if w == 0:
        e["s"] += 1
    elif w == 1:
        e["e"] += 1
    elif w == 2:
        e["s"] -= 1
    else:
        e["src"][-1] += 1
    return True


def f_end(t, r):
    n = [i for i, e in enumerate(t.get("evs", [])) if e["t"] == "none"]
    k = tokens(t)
    if n and k and r.random() < .5:
        t["evs"][n[-1]] = copy.deepcopy(k[-1])
    elif k:
        i = t["evs"].index(k[-1])
        t["evs"][i] = {"t": "none", "k": 0, "s": 0, "e": 0, "src": [], "m": [-1]}
    else:
        return False
    return True


def f_panic(t, r):
    if not t.get("evs"):
        return False
    r.choice(t["evs"])["t"] = "panic"
    return True


def f_build(t, r):
    alone = isinstance(t, dict)
    t = t if alone else t[-1]
    n = [i for i, x in enumerate(t["added"]) if x in (0, 1)] if alone else []
    if n and r.random() < .5:
        i = r.choice(n)
        t["added"][i] = 1 - t["added"][i]
        return True
    t["build"] = "panic" if t["build"] == "ok" else "ok"
    return True


def f_machine(t, r):
    if not t["edges"]:
        return False
    w = r.randrange(3)
    if w == 0:
        t["edges"].pop(r.randrange(len(t["edges"])))
    elif w == 1:
        t["nodes"].append(t["nodes"][0])
    else:
        n = r.choice(t["nodes"])
        n.pop()
    return True


def f_slr(t, r):
    t["slr"] = "panic" if t["slr"] == "ok" else "ok"
    return True


def accepted(t):
    return [x for x in t.get("res", []) if x["v"] == "ok"]


def f_tree(t, r):
    if not accepted(t):
        return False
    x = r.choice(accepted(t))
    w = r.randrange(3)
    i = r.randrange(len(x["tree"]))
    if w == 0:
        x["tree"][i][0] -= 1
    elif w == 1:
        x["tree"].append([1, 0])
    else:
        x["tree"].pop(i)
    return True


def f_refuse(t, r):
    if not accepted(t):
        return False
    x = r.choice(accepted(t))
    x["v"], x["tree"] = "err", []
    return True


def f_noverdict(t, r):
    if not t["res"]:
        return False
    r.choice(t["res"])["v"] = "panic"
    return True


def f_payload(t, r):
    leaves = [n for x in accepted(t) for n in x["tree"] if n[0] < 0]
    if not leaves:
        return False
    r.choice(leaves)[0] -= 1
    return True


def f_differ(t, r):
    x = r.choice(t)
    if not x["res"]:
        return False
    y = r.choice(x["res"])
    y["v"] = "err" if y["v"] == "ok" else "ok"
    return True


def f_pipe(t, r):
    # two tokens of blanks become one: such inputs are not compared
    n = [i for i, x in enumerate(t["res"]) if t["inputs"][i]["ref"] == 1 and t["inputs"][i]["skip"] == 0
         and all(a != b for a, b in zip(t["inputs"][i]["kinds"], t["inputs"][i]["kinds"][1:]))]
    if not n:
        return False
    x = t["res"][r.choice(n)]
    x["v"] = "err" if x["v"] == "ok" else "ok"
    return True


def f_span(t, r):
    for a in t["adds"]:
        if a["r"] == "err" and a["spans"]:
            w = r.randrange(3)
            if w == 0:
                a["spans"][0] = [a["spans"][0][1], a["spans"][0][1]]
            elif w == 1:
                a["spans"][-1][1] = len(t["pats"][0]) + 1
            else:
                a["spans"] = []
            return True
    return False


FALSIFY = {"C01": f_longest, "C02": f_longest, "C03": f_accept, "C04": f_charset, "C05": f_shorter,
           "C06": f_kind, "C07": f_place, "C08": f_end, "C09": f_panic, "C10": f_build,
           "C11": f_machine, "C12": f_slr, "C13": f_tree, "C14": f_refuse, "C15": f_noverdict,
           "C16": f_payload, "C17": f_differ, "C18": f_pipe, "C19": f_span, "C20": f_differ}


class Enough(Exception):
    pass


def traces(props):
    wrong = 0
    for prop in props:
        ctx = core.Ctx(prop, "quick", 1)
        rng = random.Random(prop)
        seen = {}
        judge = ctx.judge

        def probe(module, items, env=None, timeout=800):
            if module in seen:
                return []
            part = rng.sample(items, min(200, len(items)))
            before = (ctx.judged, ctx.void)
            bad = judge(module, part, env=env)
            sound = ctx.judged - before[0]
            if bad:
                print(f"WRONG  {prop} {module}: {len(bad)} real records rejected")
                seen[module] = False
                return []
            # only records the property speaks about can be falsified
            good, hit = [], 0
            for tr, rep in part:
                t = copy.deepcopy(tr)
                if FALSIFY[prop](t, rng) and t != tr:
                    good.append((t, rep))
            b2 = (ctx.judged, ctx.void)
            bad = judge(module, good, env=env) if good else []
            void = ctx.void - b2[1]
            seen[module] = len(bad) > 0
            print(f"{'ok    ' if len(bad) + void == len(good) and bad else 'CHECK '} {prop} {module}: "
                  f"{sound} real records accepted; {len(good)} falsified: {len(bad)} rejected, "
                  f"{void} outside the property, {len(good) - len(bad) - void} accepted", flush=True)
            return []
        ctx.judge = probe
        try:
            registry.CHECKS[prop](ctx)
        finally:
            ctx.close()
        wrong += not all(seen.values())
    return wrong


def main():
    a = sys.argv[1:]
    wrong = 0
    if not a or "models" in a:
        wrong += models()
    if not a or "traces" in a:
        wrong += traces([x for x in a if x in FALSIFY] or sorted(FALSIFY))
    return 1 if wrong else 0


sys.exit(main())
