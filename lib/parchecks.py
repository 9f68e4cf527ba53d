"""Checks of the parser properties C10-C18 and C20."""
import itertools, json, re
import harness as H
import gramgen as G
from core import cps
from harness import ToolError


# --- records -> traces -----------------------------------------------------------

LABEL = r'\s*\[(?:[^"]*[\s,;])?label\s*=\s*"((?:[^"\\]|\\.)*)"(?:[\s,;][^"]*)?\]\s*;?\s*$'
NODE = re.compile(r'^\s*"?(\w+)"?' + LABEL)
EDGE = re.compile(r'^\s*"?(\w+)"?\s*->\s*"?(\w+)"?' + LABEL)
ODD = r':"\n\l"\\'[:-1]      # as in the harness
SHOWN = r'(?:%s)?' % re.escape(ODD)
SYM = re.compile(r'<v(\d+)' + SHOWN + r'>|<t(\d+)\.(\d+)' + SHOWN + r'>|(Epsilon)|(•)')


def label_lines(s):
    """The lines of a label of the dot language."""
    lines = [""]
    for m in re.finditer(r'\\(.)|([^\\])', s):
        if m.group(1) and m.group(1) in "nlr":
            lines.append("")
        else:
            lines[-1] += m.group(1) or m.group(2)
    return lines


def symbols(s):
    out = []
    for m in SYM.finditer(s):
        if m.group(1):
            out.append(int(m.group(1)))
        elif m.group(2):
            out.append(-(1 + int(m.group(2))))
        elif m.group(4):
            out.append(0)
        else:
            out.append("dot")
    return out


def read_dot(dot):
    """Nodes as lists of items, edges as [from, symbol, to] (numbered from 1)."""
    names, nodes, edges = {}, [], []
    for line in dot.split("\n"):
        m = EDGE.match(line)
        if m:
            s = symbols("\n".join(label_lines(m.group(3))))
            edges.append((m.group(1), s[0] if len(s) == 1 and s[0] != "dot" else 0, m.group(2)))
            continue
        m = NODE.match(line)
        if not m or m.group(1) in ("node", "edge", "graph"):
            continue
        items = []
        for part in label_lines(m.group(2)):
            s = symbols(part)
            if not s:
                continue
            body = [x for x in s[1:] if x != 0]
            d = body.index("dot") if "dot" in body else -1
            items.append({"h": s[0] if s[0] != "dot" else 0,
                          "b": [x for x in body if x != "dot"], "d": d})
        names[m.group(1)] = len(nodes) + 1
        nodes.append(items)
    return nodes, [[names.get(a, 0), s, names.get(b, 0)] for a, s, b in edges]


def ops_json(ops):
    out = []
    for op in ops:
        if op[0] == "S":
            out.append({"op": "S", "v": op[1], "bodies": []})
        elif op[0] == "R":
            out.append({"op": "R", "v": op[1], "bodies": [list(op[2])]})
        else:
            out.append({"op": "M", "v": op[1], "bodies": [list(b) for b in op[2]]})
    return out


def gram_record(ops, rec):
    nodes, edges = read_dot(rec.get("dot", "")) if rec.get("dotr") == "ok" else ([], [])
    return {"ops": ops_json(ops), "build": rec.get("build", ""), "dotr": rec.get("dotr", ""),
            "nodes": nodes, "edges": edges, "slr": rec.get("slr", ""),
            "res": rec.get("res", []), "added": rec.get("added", []), "dead": rec.get("dead", "")}


def run_gram(ctx, cases, common=(), flags=3, small=False):
    """cases: list of (ops, inputs, fluent); inputs None: the common ones.
    small: on a thread with a stack of the usual size."""
    ws = ctx.dump("inputs.json", [list(common)] if common else [[[]]])
    lines = [H.grammar_line(i, ops, common if ins is None else ins, fl, flags)
             for i, (ops, ins, fl) in enumerate(cases)]
    if small:
        lines = ["Z " + x for x in lines]
    recs = H.run_cases(ctx.binary, lines)
    ctx.log(f"{len(lines)} cases run")
    items = []
    for (ops, ins, fl), rec, line in zip(cases, recs, lines):
        if rec is None:
            continue
        ctx.cases += 1
        if flags & 2:
            ctx.note("inputs_parsed", len(rec.get("res", [])))
            ctx.note("inputs_accepted", sum(r["v"] == "ok" for r in rec.get("res", [])))
            ctx.note("parsers_constructed", int(rec.get("slr") == "ok"))
        tr = gram_record(ops, rec)
        tr["ws"] = 1 if ins is None else 0
        tr["inputs"] = [] if ins is None else ins
        items.append((tr, {"kind": "G", "ops": ops, "fluent": fl, "flags": flags, "small": small,
                           "inputs": list(common if ins is None else ins)}))
    if items:
        t = items[len(items) // 2][1]
        ctx.sample({"builder_calls": t["ops"][:8], "inputs": [w[:40] for w in t["inputs"][:4]]})
    bad = ctx.judge("GramTrace", items, env={"VERIF_WORDS": ws})
    return ctx.blame("GramTrace", items, bad)


def first_equal(ins):
    """For each input the number of the first input equal to it."""
    first = {}
    return [first.setdefault(tuple(w), i + 1) for i, w in enumerate(ins)]


def run_same(ctx, groups, flags=3):
    """groups: list of lists of (ops, inputs, fluent) that have to agree."""
    lines = []
    for gr in groups:
        lines += [H.grammar_line(len(lines) + i, ops, ins, fl, flags) for i, (ops, ins, fl) in enumerate(gr)]
    recs = H.run_cases(ctx.binary, lines)
    ctx.log(f"{len(lines)} cases run")
    items, k = [], 0
    for gr in groups:
        rs = recs[k:k + len(gr)]
        k += len(gr)
        if any(r is None for r in rs):
            continue
        ctx.cases += len(gr)
        ctx.note("inputs_parsed", sum(len(r.get("res", [])) for r in rs))
        ctx.note("parsers_constructed", sum(r.get("slr") == "ok" for r in rs))
        items.append(([{**gram_record(c[0], r), "same": first_equal(c[1])} for c, r in zip(gr, rs)],
                      {"kind": "GG", "group": gr, "flags": flags}))
    if items:
        t = items[len(items) // 2][1]["group"]
        ctx.sample({"builder_calls": t[0][0][:8], "same_as": t[-1][0][:8]})
    bad = ctx.judge("SameTrace", items)
    return ctx.blame("SameTrace", items, bad)


def enumerate_grammars(ctx, nv, nt, body, rules, productive=False):
    out = ctx.enumerate("GenGrammars", {"VERIF_VARS": str(nv), "VERIF_TERMS": str(nt),
                                        "VERIF_BODY": str(body), "VERIF_RULES": str(rules)})
    m = re.search(r'"BODIES",\s*"([^"]*)"', out)
    if not m:
        raise ToolError("GenGrammars: no list of bodies")
    bodies = [tuple(b) for b in json.loads(m.group(1))]
    res = []
    for p, r in re.findall(r'<<"GRAMMAR", (\d), <<(.*)>>>>', out):
        if productive and p == "0":
            continue
        per = re.findall(r'<<([^<>]*)>>', r)
        res.append((1, [(v + 1, bodies[int(k) - 1]) for v, x in enumerate(per) for k in x.split(",")]))
    res.sort(key=lambda g: (len(g[1]), g[1]))
    ctx.enumerated += len(res)
    return res


def enc(ws, f=lambda i, t: 0):
    return [[G.load(t, f(i, t)) for i, t in enumerate(w)] for w in ws]


def all_words(nt, n):
    return [list(w) for k in range(n + 1) for w in itertools.product([G.T(i) for i in range(nt)], repeat=k)]


def good(g):
    return G.complete(g) and G.productive(g)


def sampled(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


def random_pool(ctx, n, ok=good):
    """Random complete grammars of mixed shapes."""
    rng, out = ctx.rng, []
    fam = G.families(rng, 0)
    while len(out) < n:
        k = rng.random()
        if k < 0.25:
            g = G.random_grammar(rng)
        elif k < 0.5:
            g = G.reachable(G.marked_grammar(rng))
        elif k < 0.7:
            g = G.reachable(G.layered_grammar(rng))
        elif k < 0.75:
            g = G.reachable(G.wide_grammar(rng))
        elif k < 0.97:
            g = rng.choice(fam)
            for _ in range(rng.randint(1, 2)):
                g = G.vary(rng, g)
            g = G.reachable(g)
        else:
            g = rng.choice(fam)
        if rng.random() < 0.2:
            g = G.wrapped(rng, g)
        if rng.random() < 0.1:
            g = G.stretched(rng, g)
        if not ok(g):
            continue
        if rng.random() < 0.3:
            g = G.rename(rng, g)
        out.append(g)
    return out


# --- C10 ---------------------------------------------------------------------------

def broken_ops(rng):
    """Builder calls that may or may not be complete."""
    nv = rng.randint(1, 4)
    ops = []
    for _ in range(rng.randint(0, 6)):
        k = rng.random()
        body = lambda: [rng.choice([0, rng.randint(1, nv), rng.randint(1, nv), G.load(G.T(rng.randrange(2)), 0)])
                        for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 6)))]
        if k < 0.25:
            ops.append(("S", rng.randint(1, nv)))
        elif k < 0.8:
            ops.append(("R", rng.randint(1, nv), body()))
        else:
            ops.append(("M", rng.randint(1, nv), [body() for _ in range(rng.randint(0, 3))]))
    return ops


def small_histories(n):
    """All sequences of up to n calls out of a few."""
    a = G.load(G.T(0), 0)
    calls = [("S", 1), ("S", 2), ("R", 1, [2, a]), ("R", 1, []), ("R", 2, [a]), ("R", 2, [0, 1, 0]),
             ("M", 1, [[a], [2]]), ("M", 2, [[], [2, 2]]), ("M", 3, [])]
    return [list(h) for k in range(n + 1) for h in itertools.product(calls, repeat=k)]


def one_missing():
    """One variable in one place of one body has, or has not, rules."""
    a, out = G.T(0), []
    for n in range(1, 9):
        for k in range(n):
            for fill in (a, 1, 2, 0):
                b = [fill] * n
                b[k] = 9
                for h in (1, 2, 3):
                    # 3 is not used by the others
                    rules = [(1, (2, a)), (1, (a,)), (2, (a, a)), (3, (a,)), (h, tuple(b))]
                    out += [(1, rules), (1, rules[:-1] + [(9, (a,)), rules[-1]])]
    return [G.norm(g) for g in out]


def repeated_symbols():
    """Bodies that differ in how often a symbol is repeated, or where."""
    a, b = G.T(0), G.T(1)
    bodies = [(a,) * n for n in range(1, 41)]
    bodies += [(a,) * k + (b,) + (a,) * (n - k) for n in (1, 2, 5, 9) for k in range(n + 1)]
    out = [(1, [(1, x) for x in bodies[i:i + 6]]) for i in range(len(bodies) - 5)]
    out += [(1, [(1, x), (1, y)]) for x in bodies[:8] for y in bodies[:8] if x < y]
    out += [(1, [(1, (2,) * n), (1, (2,) * m + (b,)), (2, (a,)), (2, ())]) for n in range(1, 12) for m in range(1, 12)]
    return [G.norm(g) for g in out]


def c10(ctx):
    rng = ctx.rng
    hist = small_histories(ctx.size(4, 5))
    ctx.note("histories_enumerated", len(hist))
    cases = [(h, [], i % 2) for i, h in enumerate(hist)]
    cases += [(broken_ops(rng), [], rng.randrange(2)) for _ in range(ctx.size(8000, 30000))]
    for g in G.families(rng, ctx.size(1, 3)):
        cases.append((G.shuffled_ops(rng, g), [], rng.randrange(2)))
        # a variable without rules
        h = rng.choice(sorted(G.heads(g)))
        cases.append((G.shuffled_ops(rng, (g[0], [r for r in g[1] if r[0] != h] or [(h + 1, ())]), noise=False), [], 0))
    for g in one_missing():
        cases.append((G.shuffled_ops(rng, g, noise=False), [], rng.randrange(2)))
    for g in G.huge(ctx.size(300, 1000)):
        cases.append((G.shuffled_ops(rng, g), [], rng.randrange(2)))
        for h in sampled(rng, sorted(G.heads(g)), 6):
            cases.append((G.shuffled_ops(rng, (g[0], [r for r in g[1] if r[0] != h] or [(h + 1, ())]), noise=False), [], 0))
        # a variable that is used once, anywhere, and has no rules
        for _ in range(6):
            rules = [(h, list(b)) for h, b in g[1]]
            b = rng.choice(rules)[1]
            b.insert(rng.randint(0, len(b)), 9999)
            cases.append((G.shuffled_ops(rng, (g[0], rules), noise=False), [], 0))
    if run_gram(ctx, cases, flags=0):
        return
    # the rules are the ones that were added
    cases = [(h, [], i % 2) for i, h in enumerate(hist) if i % 3 == 0]
    for g in G.families(rng, 1) + repeated_symbols() + G.twins() + random_pool(ctx, ctx.size(1500, 6000)):
        cases.append((G.shuffled_ops(rng, g), [], rng.randrange(2)))
    if run_gram(ctx, cases, flags=1):
        return
    groups = []
    for g in random_pool(ctx, ctx.size(700, 2500)) + G.families(rng, ctx.size(1, 2)):
        ins = enc(G.words(rng, g, 6))
        groups.append([(G.plain_ops(g), ins, 0)] +
                      [(G.shuffled_ops(rng, g), ins, rng.randrange(2)) for _ in range(3)])
    run_same(ctx, groups)


# --- C11, C12 ----------------------------------------------------------------------

def tiny_grammars(ctx, quick, thorough):
    """(vars, terminals, body, rules per variable, sample or None) -> grammars"""
    out = []
    for nv, nt, b, r, n in ctx.size(quick, thorough):
        gs = enumerate_grammars(ctx, nv, nt, b, r)
        out += gs if n is None else sampled(ctx.rng, gs, n)
    return out


def c11(ctx):
    rng = ctx.rng
    gs = tiny_grammars(ctx, [(1, 2, 3, 3, None), (2, 1, 2, 2, None), (2, 2, 2, 2, 6000)],
                       [(1, 2, 3, 3, None), (2, 1, 2, 2, None), (2, 2, 2, 2, 12000)])
    gs += G.families(rng, 1) + G.huge(300) + G.twins() + random_pool(ctx, ctx.size(2500, 8000), ok=G.complete)
    if not ctx.quick:
        gs += G.families(rng, 3)
    cases = [(G.shuffled_ops(rng, g, noise=False), [], i % 2) for i, g in enumerate(gs)]
    run_gram(ctx, cases, flags=1)


def c12(ctx):
    rng = ctx.rng
    gs = tiny_grammars(ctx, [(1, 2, 3, 3, None), (2, 1, 2, 2, None), (2, 2, 2, 2, 14000)],
                       [(1, 2, 3, 3, None), (2, 1, 2, 2, None), (2, 2, 2, 2, 20000)])
    gs += G.families(rng, 1) + G.huge(300) + G.twins() + random_pool(ctx, ctx.size(5000, 15000), ok=G.complete)
    gs += [G.end_clash(n, k) for n in (1, 2, 5, 16, 26, 33, 66) for k in range(6)]
    gs += [far(rng, g) for far in (G.veiled, G.sunk) for g in sampled(rng, gs[:len(gs) // 2], ctx.size(250, 2500)) +
           random_pool(ctx, ctx.size(120, 1000), ok=lambda g: G.complete(g) and len(g[1]) < 12)]
    if not ctx.quick:
        gs += G.families(rng, 3)
    cases = [(G.shuffled_ops(rng, g, noise=False), [], i % 2) for i, g in enumerate(gs)]
    run_gram(ctx, cases, flags=2)


# --- C13 - C16 ---------------------------------------------------------------------

def loads(rng):
    return lambda i, t: rng.randrange(256)


def tiny_cases(ctx, spec):
    """Enumerated grammars with all short words: [(cases, common)]."""
    out = []
    for nv, nt, b, r, n, wl in spec:
        gs = enumerate_grammars(ctx, nv, nt, b, r, productive=True)
        if n is not None:
            gs = sampled(ctx.rng, gs, n)
        # one terminal more than the grammar has, on the shortest words
        ws = all_words(nt, wl) + [w for w in all_words(nt + 1, 2) if G.T(nt) in w]
        out.append(([(G.plain_ops(g), None, i % 2) for i, g in enumerate(gs)], enc(ws)))
    return out


QUICK_TINY = [(1, 2, 3, 3, None, 4), (2, 1, 2, 2, None, 6), (2, 2, 2, 2, 7000, 4)]
FULL_TINY = [(1, 2, 3, 3, None, 6), (2, 1, 2, 3, None, 8), (2, 2, 2, 2, None, 5), (3, 1, 2, 2, 20000, 6)]


def varied_cases(ctx, n, nwords, size=10):
    rng, cases = ctx.rng, []
    for g in [g for g in G.families(rng, 1) if good(g)] + G.huge(300) + G.twins() + random_pool(ctx, n):
        cases.append((G.shuffled_ops(rng, g, noise=False),
                      enc(G.words(rng, g, nwords, size if rng.random() < 0.9 else 8 * size), loads(rng)), rng.randrange(2)))
    # any one of many optional parts alone
    for n in (30, 80):
        for g, x in ((G.first_through_nullables(n), [G.T(n)]), (G.nullable_tail(n), [G.T(n)]), (G.nullable_chain(n), [])):
            last = [G.T(n)] if not x else []
            ws = [x + [G.T(i)] + last for i in range(n)] + [x + [G.T(0), G.T(i)] + last for i in range(n)] + [x + [G.T(i), G.T(0)] + last for i in range(n)]
            cases.append((G.plain_ops(G.norm(g)), enc(ws), 0))
    # every beginning of a long body
    for n in (40, 130, 300):
        w = [G.T(i) for i in range(n)]
        cases.append((G.plain_ops(G.norm((1, [(1, w)]))), enc([w[:i] for i in range(n + 1)] + [w + [G.T(0)]]), 0))
    return cases


def long_cases(ctx, size):
    """Long sentences (deep on either side) and long near-sentences."""
    rng = ctx.rng
    gs = [G.expression(3), G.expression(6, right=(2, 4), unary=True), G.expression(2, call=True),
          G.dyck(2), G.json_like(), G.statements()] + \
         [G.listing(l, s, 0) for l in (0, 1) for s in (0, 1)] + \
         [(1, [(1, [1, G.T(0)]), (1, [])]), (1, [(1, [G.T(0), 1]), (1, [])]),
          (1, [(1, [G.T(0), 1, G.T(1)]), (1, [])])]
    cases = []
    for g in gs:
        g = G.norm(g)
        ws = []
        for _ in range(3):
            w = G.sentence(rng, g, size)
            if w:
                ws += [w, G.mutate(rng, w, G.terminals(g))]
        ws.append([rng.choice(G.terminals(g)) for _ in range(size // 4)])
        cases.append((G.plain_ops(g), enc(ws, loads(rng)), 0))
    n = size
    a, b, c = G.T(0), G.T(1), G.T(2)
    deep = [((1, [(1, [1, a]), (1, [])]), [[a] * n, [a] * n + [b]]),
            ((1, [(1, [a, 1]), (1, [])]), [[a] * n, [b] + [a] * n]),
            ((1, [(1, [a, 1, b]), (1, [])]), [[a] * n + [b] * n, [a] * n + [b] * (n - 1), [a] * n + [b] * (n + 1)]),
            ((1, [(1, [a, 1, b]), (1, [c])]), [[a] * n + [c] + [b] * n, [a] * n + [b] * n])]
    cases += [(G.plain_ops(G.norm(g)), enc(ws, loads(rng)), 1) for g, ws in deep]
    # more tokens than 16 bits count
    for g, ws in (((1, [(1, [1, a]), (1, [])]), [[a] * 66000, [a] * 66000 + [b], [a] * 65536]),
                  ((1, [(1, [a, 1]), (1, [])]), [[a] * 66000, [a] * 66000 + [b]]),
                  ((1, [(1, [a, 1, b]), (1, [])]), [[a] * 35000 + [b] * 35000, [a] * 35000 + [b] * 34999]),
                  (G.listing(1, 1, 0), [[a, b] * 35000 + [a], [a, b] * 35000])):
        cases.append((G.plain_ops(G.norm(g)), enc(ws, loads(rng)), 0))
    return cases


def deepest_cases(n):
    """Trees too deep for anything that recurses once per level, complete and
    with something unexpected behind."""
    a, b = G.T(0), G.T(1)
    return [(G.plain_ops(G.norm((1, [(1, body), (1, [])]))), enc([[a] * n, [a] * n + [b]]), 0)
            for body in ([1, a], [a, 1])] + \
        [(G.plain_ops(G.norm((1, [(1, body), (1, [])]))), enc([w * (n // 4), w * (n // 4) + [b]]), 0)
         for w in [[a] * 9] for body in ([1] + w, w + [1])]


def parse_check(ctx, tiny, n, nwords, size, extra=()):
    for cases, common in tiny_cases(ctx, tiny):
        if run_gram(ctx, cases, common, flags=2):
            return
    if run_gram(ctx, varied_cases(ctx, n, nwords) + list(extra), flags=2):
        return
    run_gram(ctx, long_cases(ctx, size), flags=2)


def c13(ctx):
    parse_check(ctx, ctx.size(QUICK_TINY, FULL_TINY), ctx.size(3000, 12000), ctx.size(25, 60), ctx.size(1500, 4000))


def c14(ctx):
    parse_check(ctx, ctx.size(QUICK_TINY, FULL_TINY), ctx.size(3000, 12000), ctx.size(25, 60), ctx.size(1500, 4000))


def c15(ctx):
    rng = ctx.rng
    extra = []
    for g in [g for g in G.families(rng, 1) if good(g)]:
        ts = G.terminals(g) + [G.T(100)]
        w = G.sentence(rng, g, 8) or []
        # all prefixes, and every place followed by something foreign
        ws = [w[:i] for i in range(len(w) + 1)] + [w[:i] + [G.T(100)] + w[i:] for i in range(len(w) + 1)]
        ws += [[t] for t in ts] + [[s, t] for s in ts[:4] for t in ts[:4]]
        extra.append((G.plain_ops(g), enc(ws), 0))
    parse_check(ctx, ctx.size(QUICK_TINY, FULL_TINY), ctx.size(3000, 12000), ctx.size(25, 60), ctx.size(1500, 20000), extra)
    if not ctx.bad:
        run_gram(ctx, deepest_cases(ctx.size(300000, 1500000)), flags=2 + 4, small=True)


def c16(ctx):
    rng = ctx.rng
    cases = []
    pool = [g for g in G.families(rng, 1) if good(g)] + G.huge(300)
    for g in pool * ctx.size(2, 6) + random_pool(ctx, ctx.size(6000, 20000)):
        k = rng.random()
        if k < 0.5:                 # one payload per terminal
            m = {t: rng.randrange(256) for t in G.terminals(g)}
            f = lambda t: m[t]
        else:                       # another payload at every place
            f = lambda t: rng.randrange(4)
        ops = G.plain_ops(g, loads=f)
        rng.shuffle(ops)
        cases.append((ops, enc(G.words(rng, g, 12), loads(rng)), rng.randrange(2)))
    run_gram(ctx, cases, flags=2)


# --- C17, C20 ----------------------------------------------------------------------

def c17(ctx):
    rng = ctx.rng
    groups = []
    for g in G.families(rng, 1) + G.huge(200) + sampled(rng, G.twins(), 40) + random_pool(ctx, ctx.size(900, 4000)):
        ins = enc(G.words(rng, g, 8)) if good(g) else []
        ins = ins + ins             # the same parser again, after other inputs
        n = ctx.size(8, 16)
        groups.append([(G.plain_ops(g), ins, 0), (G.plain_ops(g), ins, 0)] +
                      [(G.shuffled_ops(rng, g), ins, rng.randrange(4)) for _ in range(n)])
    # many variables at once, every one of them used
    for n in (9, 30, 90):
        for tail in range(4 if n < 40 else 3):
            g, ws = G.fan_out(n, tail)
            groups.append([(G.plain_ops(g), enc(ws), 0)] + [(G.shuffled_ops(rng, g), enc(ws), rng.randrange(4)) for _ in range(5)])
    # one parser, used very often
    for g in (G.expression(3), G.dyck(2), G.json_like(), G.nullable_chain(4), G.listing(0, 1, 1)):
        ws = G.words(rng, G.norm(g), ctx.size(250, 1000))
        groups.append([(G.plain_ops(G.norm(g)), enc(ws + ws[::-1]), 0), (G.plain_ops(G.norm(g)), enc(ws + ws[::-1]), 0)])
    run_same(ctx, groups)


def c20(ctx):
    rng = ctx.rng
    groups = []
    gs = G.families(rng, 1) + random_pool(ctx, ctx.size(4000, 12000))
    for nv, nt, b, r, n, wl in ctx.size([(1, 2, 2, 3, None, 3), (2, 1, 2, 2, 1500, 4)],
                                        [(1, 2, 3, 3, None, 4), (2, 1, 2, 2, None, 5)]):
        e = enumerate_grammars(ctx, nv, nt, b, r, productive=True)
        gs += e if n is None else sampled(rng, e, n)
    for g in gs:
        ins = enc(G.words(rng, g, 10, foreign=False)) if good(g) else []
        groups.append([(G.plain_ops(g), ins, 0)] +
                      [(G.shuffled_ops(rng, g, eps=True, noise=False), ins, rng.randrange(2)) for _ in range(2)] +
                      [(G.shuffled_ops(rng, g, eps=True), ins, 0)])
    run_same(ctx, groups, flags=2)


# --- C18 ---------------------------------------------------------------------------

# pattern and a function that spells a token
LEXEMES = [
    (r"\(", lambda r: "("),
    (r"\)", lambda r: ")"),
    (r"[a-z]+;", lambda r: "".join(r.choice("abyz") for _ in range(r.randint(1, 4))) + ";"),
    (r"[0-9]{2}", lambda r: f"{r.randrange(100):02}"),
    (r'"[^"]*"', lambda r: '"' + "".join(r.choice("a (é0") for _ in range(r.randint(0, 5))) + '"'),
    (r"A+B", lambda r: "A" * r.randint(1, 5) + "B"),
    (r"\+|plus!", lambda r: r.choice(["+", "plus!"])),
    (r"(é|λ)+\u{2192}", lambda r: "".join(r.choice("éλ") for _ in range(r.randint(1, 3))) + "→"),
    (r"if:", lambda r: "if:"),
    (r"\s*,\s*,", lambda r: r.choice([",,", " ,,", "  , ,", ",\t,"])),
    (r"<(<>)*>", lambda r: "<" + "<>" * r.randint(0, 3) + ">"),
    (r"\s\s*", lambda r: "".join(r.choice(" \n\t\u2003") for _ in range(r.randint(1, 3)))),
    (r"#[^\n]*\n", lambda r: "#" + r.choice(["", " to do", "(("]) + "\n"),
    (r"\$|\0", lambda r: r.choice("$\0")),
    (r"EOF|ε", lambda r: r.choice(["EOF", "ε"])),
    (r"(%*;)?", lambda r: "%" * r.randint(0, 3) + ";"),
    (r"(=?/)?", lambda r: r.choice(["=/", "/"])),
    (r"//[^\n]*\n|/\*a*\*/", lambda r: r.choice(["//\n", "// x\n", "/**/", "/*aa*/"])),
    (r"--[a-z]*!|#!", lambda r: r.choice(["--!", "--end!", "#!"])),
    (r"\\.", lambda r: "\\" + r.choice("n0\\u\r")),
    (r"\r\n|\r", lambda r: r.choice(["\r\n", "\r"])),
    (r"\ufeff|\ufffe|\uffff", lambda r: r.choice("\ufeff\ufffe\uffff")),
    (r"[\x01-\x08]|\x1a|\x1b|\x7f", lambda r: r.choice("\x01\x04\x08\x1a\x1b\x7f")),
    (r";;?", lambda r: r.choice([";", ";;"])),
    (r"\u{10000}|\{\}?", lambda r: r.choice(["\U00010000", "{", "{}"])),
]
BROKEN = ["§", "", "A", "=", "\0\0x", '"open', "AAA", "é", "1", "x", "~", "\n", "<<", "𝔸"]


def run_pipe(ctx, cases):
    """cases: list of (ops, rules, [(text, kinds or None, skip)]); rules: (kind, pattern)."""
    plines = [H.pipeline_line(i, ops, rules, [(n, t) for t, _, n in ins]) for i, (ops, rules, ins) in enumerate(cases)]
    glines = [H.grammar_line(i, ops, enc([k if k is not None else [] for _, k, _ in ins]), 1, 2)
              for i, (ops, rules, ins) in enumerate(cases)]
    recs = H.run_cases(ctx.binary, plines)
    refs = H.run_cases(ctx.binary, glines)
    ctx.log(f"{len(plines)} cases run")
    items = []
    for (ops, rules, ins), rec, ref in zip(cases, recs, refs):
        if rec is None or ref is None or "dead" in ref:
            continue
        ctx.cases += 1
        res = rec.get("res", [])
        ctx.note("inputs_parsed", len(res))
        ctx.note("inputs_accepted", sum(r["v"] == "ok" for r in res))
        rv = ref.get("res", [])
        inputs = []
        for n, (t, k, skip) in enumerate(ins):
            has = k is not None and n < len(rv)
            inputs.append({"text": cps(t), "skip": skip, "kinds": list(k) if has else [], "ref": int(has),
                           "v": rv[n]["v"] if has else ""})
        items.append(({"ops": ops_json(ops), "pats": [cps(p) for _, p in rules],
                       "kinds": [k for k, _ in rules], "inputs": inputs, "slr": rec.get("slr", ""),
                       "res": [{"v": r["v"]} for r in res], "dead": rec.get("dead", "")},
                      {"kind": "P", "ops": ops, "rules": rules, "inputs": ins}))
    if items:
        t = items[len(items) // 2][1]
        ctx.sample({"patterns": t["rules"], "inputs": [x for x, _, _ in t["inputs"]][:4]})
    bad = ctx.judge("PipeTrace", items)
    return ctx.blame("PipeTrace", items, bad)


def pipe_case(rng, g, nwords, size):
    ts = G.terminals(g)
    lex = rng.sample(LEXEMES, len(ts))
    kinds = {t: i for i, t in enumerate(ts)}
    g = (g[0], [(h, [s if s > 0 else G.T(kinds[s]) for s in b]) for h, b in g[1]])
    spell = {G.T(i): lex[i][1] for i in range(len(ts))}
    ins = []
    for w in G.words(rng, g, nwords, size, foreign=False):
        # sometimes the parser gets a lexer that has been used already
        skip = rng.randint(1, 3) if rng.random() < 0.3 else 0
        parts = [spell[t](rng) for t in rng.choices(list(spell), k=skip) + w]
        ins.append(("".join(parts), w, skip))
        # something in between that cannot be lexed, or not as intended
        i = rng.choice([0, len(parts), rng.randint(0, len(parts))])
        ins.append(("".join(parts[:i]) + rng.choice(BROKEN) + "".join(parts[i:]), None, skip))
        ins.append(("".join(parts) + rng.choice(BROKEN), None, skip))
    rules = [(i, lex[i][0]) for i in range(len(ts))]
    return G.plain_ops(g), rules, ins


def c18(ctx):
    rng = ctx.rng
    gs = [g for g in G.families(rng, 0) if good(g)] * ctx.size(2, 8) + random_pool(ctx, ctx.size(3000, 6000))
    gs = [g for g in gs if 1 <= len(G.terminals(g)) <= 8]
    cases = [pipe_case(rng, g, 8, 6) for g in gs]
    if run_pipe(ctx, cases):
        return
    long = [pipe_case(rng, G.norm(g), 3, ctx.size(60, 400))
            for g in (G.json_like(), G.listing(1, 1, 0), G.listing(0, 1, 0), G.dyck(2), G.expression(2))]
    # more characters than 16 bits count, in many tokens and in few
    a, b = G.T(0), G.T(1)
    for g in ((1, [(1, [1, a]), (1, [])]), (1, [(1, [a, 1]), (1, [b])])):
        for n, size in ((33000, 2), (400, 170), (3, 30000)):
            ins = []
            for w in ([a] * n, [a] * n + [b], [a] * (n - 1) + [b], [a] * n + [b, a], [b] + [a] * n):
                text = "".join(("x" * (size - 1) + ";") if t == a else "+" for t in w)
                ins += [(text, w, 0), (text + "?", None, 0), (text[:-1] + "?" + text[-1:], None, 0), (text + "x", None, 0)]
            long.append((G.plain_ops(g), [(0, "x*;"), (1, "\\+")], ins[:ctx.size(5 if n > 1000 else 12, 20)]))
    run_pipe(ctx, long)
