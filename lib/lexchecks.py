"""Checks of the lexer properties C01-C09 and C19."""
import itertools, json, re
import harness as H
import patgen as G
from core import cps

AB = "ab"


# --- records -> traces -----------------------------------------------------------

def spans(msg):
    """Spans of the rendered error messages (one per line)."""
    out = []
    for line in msg.splitlines():
        if not line.strip():
            continue
        m = re.search(r"(\d+)\D+?(\d+)", line)
        out.append([int(m.group(1)), int(m.group(2))] if m else [-1, -1])
    return out


def adds(rec):
    return [{"r": a["r"], "spans": spans(a["m"]) if a["r"] == "err" else []} for a in rec["adds"]]


def lex_trace(rules, inp, rec):
    dead = rec.get("dead", "")
    evs = []
    for e in rec.get("evs", []):
        evs.append({"t": e["t"], "k": e.get("k", 0), "s": e.get("s", -1), "e": e.get("e", -1),
                    "src": e.get("src", []), "m": e.get("m", [-1])})
    return {"pats": [cps(p) for _, p in rules], "modes": [m for m, _ in rules], "inp": cps(inp),
            "adds": [{"r": "ok", "spans": []}] * len(rules) if dead else adds(rec),
            "evs": evs, "dead": dead}


def run_lex(ctx, cases, extra=2):
    """cases: list of (rules, input); rules: list of (mode, pattern)."""
    lines = [H.lexer_line(i, r, s, extra) for i, (r, s) in enumerate(cases)]
    recs = H.run_cases(ctx.binary, lines)
    ctx.log(f"{len(lines)} cases run")
    items = []
    for (r, s), rec, line in zip(cases, recs, lines):
        if rec is None:
            continue
        ctx.cases += 1
        items.append((lex_trace(r, s, rec),
                      {"kind": "L", "rules": r, "input": s, "line": line, "extra": extra}))
    if items:
        t = items[len(items) // 2][1]
        ctx.sample({"patterns": [p for _, p in t["rules"]][:6], "input": t["input"][:80]})
    bad = ctx.judge("LexTrace", items)
    return ctx.blame("LexTrace", items, bad)


def run_regex(ctx, cases, common=(), deep=False):
    """cases: list of (pattern, words); words None means the common words.
    deep: judged with the machine instead of the sets of positions."""
    ws = ctx.dump("words.json", [[cps(w) for w in common]] if common else [[[]]])
    lines = [H.first_match_line(i, p, common if w is None else w) for i, (p, w) in enumerate(cases)]
    recs = H.run_cases(ctx.binary, lines)
    ctx.log(f"{len(lines)} cases run")
    items = []
    for (p, w), rec, line in zip(cases, recs, lines):
        if rec is None:
            continue
        ctx.cases += len(common) if w is None else len(w)
        items.append(({"pat": cps(p), "ws": 1 if w is None else 0, "deep": int(deep),
                       "words": [] if w is None else [cps(x) for x in w],
                       "add": rec.get("add", "ok"), "res": rec.get("res", []),
                       "dead": rec.get("dead", "")},
                      {"kind": "M", "pattern": p, "words": list(common if w is None else w), "line": line,
                       "deep": int(deep)}))
    if items:
        t = items[len(items) // 2][1]
        ctx.sample({"pattern": t["pattern"], "words": t["words"][:6]})
    bad = ctx.judge("RegexTrace", items, env={"VERIF_WORDS": ws})
    return ctx.blame("RegexTrace", items, bad)


def run_syntax(ctx, pats, batch=400):
    """Which patterns can be added?"""
    lines = [H.syntax_line(i, pats[i:i + batch]) for i in range(0, len(pats), batch)]
    recs = H.run_cases(ctx.binary, lines, max_dead=2)
    items = []
    again = []
    for n, rec in enumerate(recs):
        part = pats[n * batch:(n + 1) * batch]
        if rec is None or "dead" in rec:
            again += part if rec is not None and batch > 1 else []
            if rec is not None and batch == 1:
                items.append((lex_trace([(0, part[0])], "", {"dead": rec["dead"]}),
                              {"kind": "S", "pattern": part[0], "line": H.syntax_line(0, part)}))
                items[-1][0]["adds"] = []
            continue
        ctx.cases += len(part)
        for p, outcomes in zip(part, rec["adds"]):
            for a in outcomes:
                items.append((lex_trace([(0, p)], "", {"adds": [a]}),
                              {"kind": "S", "pattern": p, "line": H.syntax_line(0, [p])}))
    if items:
        for k in (len(items) // 3, 2 * len(items) // 3):
            ctx.sample({"pattern": items[k][1]["pattern"]})
    bad = ctx.judge("LexTrace", items)
    hit = ctx.blame("LexTrace", items, bad)
    if again and not hit:
        hit = run_syntax(ctx, again, batch=1)
    return hit


def run_unicode(ctx, pats):
    """Exact set of scalar values of one-character patterns."""
    lines = [H.unicode_line(i, p) for i, p in enumerate(pats)]
    recs = H.run_cases(ctx.binary, lines, timeout=60)
    items = []
    for p, rec, line in zip(pats, recs, lines):
        if rec is None or "dead" in rec:
            continue
        ctx.cases += 1
        ctx.note("scalar_values_compared", 1112064)
        items.append(({"pat": cps(p), "r": rec["r"], "set": rec["set"]},
                      {"kind": "U", "pattern": p, "line": line}))
    if items:
        ctx.sample({"pattern": items[0][1]["pattern"], "over": "all scalar values"})
    bad = ctx.judge("UniTrace", items)
    if not bad:
        return False
    # confirm with lexers that hold nothing but the pattern
    cases = []
    for i, _ in bad[:5]:
        tr, rep = items[i]
        pts = set(range(0, 0x250)) | {0xE000, 0x10FFFF}
        for lo, hi in tr["set"]:
            pts |= {lo - 1, lo, hi, hi + 1}
        pts = [chr(c) for c in sorted(pts) if 0 <= c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF]
        d = bad[0][1]
        cases.append((rep["pattern"], pts + ([chr(int(d))] if d.isdigit() else [])))
    return run_regex(ctx, cases)


def enumerate_patterns(ctx, spellings, maxlen, wanted=()):
    """All patterns of up to maxlen spellings (TLC enumerates them)."""
    out = ctx.enumerate("GenPatterns", {
        "VERIF_SPELLINGS": ctx.dump("spellings.json", [cps(x) for x in spellings]),
        "VERIF_MAXLEN": str(maxlen),
        "VERIF_WANTED": ctx.dump("wanted.json", list(wanted)),
        "VERIF_ALPHA": ctx.alpha()})
    pats = ["".join(spellings[int(i) - 1] for i in m.split(",")) if m.strip() else ""
            for m in re.findall(r'<<"PATTERN", <<([^>]*)>>>>', out)]
    pats.sort(key=lambda p: (len(p), p))
    ctx.enumerated += len(pats)
    return pats


def all_words(alpha, n):
    return ["".join(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]


def single(p):
    return [(0, p)]


# --- C01 ----------------------------------------------------------------------

def c01(ctx):
    rng = ctx.rng
    pats = enumerate_patterns(ctx, ["a", "b", "(", ")", "|", "*", "+", "?"], ctx.size(6, 7))
    if run_regex(ctx, [(p, None) for p in pats], all_words(AB, ctx.size(4, 5))):
        return
    cases = []
    for i in range(ctx.size(5000, 15000)):
        alpha, cls = rng.choice([(AB, False), ("abc", False), (G.ASCII, True), (G.UNI, True), (G.odd(rng), i % 2 == 0)])
        p = G.pattern(rng, depth=rng.choice([1, 2, 3, 4]), alpha=alpha, classes=cls,
                      quant=rng.choice([0.2, 0.5, 0.8]))
        cases.append((p.text, G.words(rng, p, alpha, 8)))
    if run_regex(ctx, cases, deep=True):
        return
    # nesting, wide alternations, long literals
    cases = []
    for d in (5, 20, 60, ctx.size(150, 600)):
        cases.append(("(" * d + "a" + ")" * d, ["a", "aa", "", "b"]))
        cases.append(("(" * d + "a" + ")?" * d, ["a", "aa", "", "b"]))
        cases.append(("(" * d + "ab?" + ")*" * d, ["abaab", "b", "aaaaaa", "abab"]))
        cases.append(("".join("(a|" for _ in range(d)) + "b" + ")" * d, ["a", "b", "ab", "c"]))
        cases.append(("".join("(b?" for _ in range(min(d, 30))) + "a" + ")+" * min(d, 30), ["b" * d + "a", "ba" * 3, "b"]))
    for n in (30, 100, ctx.size(300, 1500)):
        ws = ["".join(rng.choice("abcde") for _ in range(rng.randint(1, 8))) for _ in range(n)]
        cases.append(("|".join(ws), rng.sample(ws, 10) + [w[:-1] for w in ws[:10]] + [w + "x" for w in ws[:5]]))
        # n different characters and words
        cs = [chr(0x4e00 + 3 * i) for i in range(n)]
        rng.shuffle(cs)
        some = [rng.choice(cs) for _ in range(20)] + [cs[0], cs[-1], chr(0x4e01), chr(0x4dff), chr(0x4e00 + 3 * n)]
        cases.append(("|".join(cs), some))
        cases.append(("(" + "|".join(cs) + ")*", ["".join(some[:22]), "".join(some)]))
        cases.append(("|".join(c + "x" for c in cs), [c + "x" for c in some] + some))
        cases.append(("(" + "|".join("x" + c for c in cs) + "){2}", ["x" + c + "x" + d for c, d in zip(some, some[1:])]))
        for neg in ("", "^"):
            cases.append(("[" + neg + "".join(cs) + "]", some))
            cases.append(("[" + neg + "".join(c + "-" + chr(ord(c) + 1) for c in cs) + "]+", some + [chr(0x4e02), "".join(some)]))
        cases.append(("".join("(" + c + "|" + d + ")" for c, d in zip(cs, cs[1:])),
                      ["".join(cs[1:]), "".join(cs[:-1]), "".join(cs), "".join(cs[2:])]))
        long = "".join(rng.choice("abc漢") for _ in range(n))
        cases.append((long, [long, long[:-1], long + "a", long[:n // 2]]))
        cases.append((long + "*", [long, long + long[-1] * 300, long[:-1], long[:-2]]))
    for n in (255, 256, 257, 1000, ctx.size(3000, 20000)):
        cases.append(("a*", ["a" * n, "a" * n + "b"]))
        cases.append(("(ab)*", ["ab" * (n // 2), "ab" * (n // 2) + "a"]))
        cases.append(("(a|b)*c", ["ab" * (n // 8) + "c", "ab" * (n // 8)]))
        cases.append(("(a|ba)+b?", [("aba" * n)[:n], ("aba" * n)[:n] + "bb"]))
        cases.append((".*b", ["a" * (n // 4) + "b" + "a" * (n // 4), "é" * (n // 4)]))
    cases += [("a*b?", ["a" * 70000 + "b"]), ("(a|b)+c", ["ab" * 35000 + "c"])]
    # many groups, quantifiers and alternatives in one pattern
    for i in range(ctx.size(60, 400)):
        alpha = rng.choice([AB, "abc", "abcdefgh", G.UNI])
        xs = [G.pattern(rng, depth=rng.choice([0, 1, 2]), alpha=alpha, classes=i % 3 == 0, quant=rng.choice([0.2, 0.5]))
              for _ in range(rng.choice([15, 40, 100]))]
        p = G.sequence([G.group(x) if "|" in x.text else x for x in xs]) if i % 4 else G.choice(xs)
        cases.append((p.text, G.words(rng, p, alpha, 8, limit=600)))
    for n in (50, 200, 1000):
        for t, w in (("(ab)+", "ab"), ("(ab)?", "ab"), ("(a|b)*", "a"), ("(a+)?", "aa"), ("[ab]+", "b"), ("(c|(ab)+)?", "ab")):
            x = "x" * n
            cases += [(x + t, [x, x + w, x + w * 3, x + w + "a", w]), (x + "|" + t, [x, w, w * 3, x + w]),
                      (x + t + "y", [x + "y", x + w * 2 + "y", x + w]), (t + x + t, [x, w + x + w, w * 2 + x + w * 2, w * 2 + x])]
    # alternatives that differ in one place
    for rules, text in twin_lexers(ctx):
        ps = [p for _, p in rules]
        if not any("{" in p for p in ps):
            for p in ("|".join(ps), "(" + "|".join(ps) + ")*", "(" + ps[0] + "|" + ps[1] + ")" + ps[-1]):
                cases.append((p, [text[i:] for i in range(0, len(text), len(text) // 5 or 1)]))
    # more than 65536 characters in the pattern
    cases += [("z|" + "a" * 66000 + "|cb", ["a" * 500])]
    run_regex(ctx, cases, deep=True)


# --- C02 ----------------------------------------------------------------------

def c02(ctx):
    rng = ctx.rng
    sp = ["a", "b", "(", ")", "|", "?", "*", "{0}", "{1}", "{2}", "{0,1}", "{1,2}", "{2,1}", "{1,}", "{2,}"]
    wanted = range(8, len(sp) + 1)
    pats = enumerate_patterns(ctx, sp, 5, wanted)
    if not ctx.quick:
        pats6 = enumerate_patterns(ctx, sp, 6, wanted)
        keep = set(pats)
        pats += rng.sample([p for p in pats6 if p not in keep], 25000)
    if run_regex(ctx, [(p, None) for p in pats], all_words(AB, ctx.size(4, 5))):
        return
    # counted groups in counted groups, over bodies with optional parts
    sp = ["a", "a?", "a*", "b", "(", ")", "{2}", "{1,2}", "{3}", "{0,2}", "{2,}"]
    pats = enumerate_patterns(ctx, sp, ctx.size(6, 7), range(7, len(sp) + 1))
    pats = [p for p in pats if p.count("(") >= 1 and p.count("{") >= 2]
    if len(pats) > ctx.size(5000, 40000):
        pats = rng.sample(pats, ctx.size(5000, 40000))
    if run_regex(ctx, [(p, None) for p in pats], ["a" * n for n in range(10)] + all_words(AB, 3)):
        return
    cases = []
    for i in range(ctx.size(1800, 12000)):
        alpha, cls = rng.choice([(AB, False), ("a", False), ("abc", False), (G.UNI, True), (G.odd(rng), True)])
        p = G.pattern(rng, depth=rng.choice([0, 1, 2, 3]), alpha=alpha, classes=cls, counted=True, big=True,
                      quant=rng.choice([0.4, 0.7]))
        cases.append((p.text, G.words(rng, p, alpha, 8, limit=700 if p.w <= 10 else 300 if p.w <= 100 else 120)))
    # many counters at once: one after the other, one around the other
    for n in (3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 40):
        for _ in range(ctx.size(4, 30)):
            alpha = "abcdefghij" if rng.random() < 0.7 else "ab"
            xs = [G.repeat(rng, G.lit(rng, alpha[i % len(alpha)]), True, False) for i in range(n)]
            p = G.sequence(xs)
            cases.append((p.text, G.words(rng, p, alpha, 10, limit=300)))
            if n > 10:
                continue
            p = xs[0]
            for x in xs[1:]:
                lo, hi = rng.choice([(1, 2), (2, 2), (1, 1), (0, 2), (2, None)] if p.w < 200 else [(1, 1), (0, 1)])
                p = G.times(G.group(G.sequence([p, x] if rng.random() < 0.5 else [p] if rng.random() < 0.3 else [x, p])), lo, hi)
            cases.append((p.text, G.words(rng, p, alpha, 10, limit=300)))
    if run_regex(ctx, cases, deep=True):
        return
    cases = []
    for n in (2, 9, 10, 99, 127, 128, 255, 256, 257, 300, ctx.size(1000, 5000)):
        edge = [n - 1, n, n + 1, 2 * n]
        for body, unit in (("a", "a"), ("(ab)", "ab"), ("[ab]", "a"), ("(a|b)", "b"), ("(a|bb)", "bb")):
            ws = [unit * k for k in edge] + [unit * n + "c", ""]
            cases += [(body + "{%d}" % n, ws), (body + "{%d,}" % n, ws), (body + "{0,%d}" % n, ws),
                      (body + "{%d,%d}" % (n - 1, n), ws), (body + "{%d,%d}b" % (n - 2, n), ws + [unit * n + "b"])]
        # counts of counts
        for m in (2, 3, 16, 20):
            if n * m <= 5000:
                ws = ["a" * (n * m + d) for d in (-m, -1, 0, 1, n)] + ["a" * (n * m % 256), "a" * (n + m)]
                cases += [("(a{%d}){%d}" % (n, m), ws), ("(a{%d}){%d}" % (m, n), ws), ("((a){%d}){%d}" % (n, m), ws),
                          ("(a{%d}){%d,}" % (n, m), ws)]
            if n * m <= 40:
                cases += [("(a{%d,}){%d}" % (n, m), ws), ("(a{1,%d}){%d}" % (m, n), ws), ("(a{%d,%d}){%d}" % (n, n + 1, m), ws)]
        if n <= 300:
            cases.append(("(a{2}b?){%d}" % n, ["aab" * n, "aa" * n, "aa" * (n - 1), "aa" * n + "aa"]))
            cases.append(("(a?b){%d}" % n, ["ab" * n, "b" * n, "b" * (n - 1) + "a", "ab" * n + "ab"]))
            cases.append(("(a{%d}b)*" % n, [("a" * n + "b") * 3, ("a" * n + "b") + "a" * (n - 1) + "b"]))
    for n in (511, 512, 513, 1023, 1024, 1025, 2048, 4096, 10000, 32768):
        ws = ["a" * k for k in (n - 1, n, n + 1)]
        cases += [("a{%d}" % n, ws), ("a{%d,}" % n, ws), ("a{0,%d}b" % n, [w + "b" for w in ws])]
    cases += [("a{65537}", ["a" * 65537]), ("a{2,65536}b?", ["a" * 65537]), ("(ab){65536,}", ["ab" * 65536])]
    # bounds around 2^32, zeros in front
    big = [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**33, 10**10, 2**63, 2**64, 2**64 + 1, 10**25,
           4294967300, 5000000000, 4300000000]
    for b in big:
        for q in ("{%d}", "{%d,}", "{0,%d}", "{1,%d}", "{2,%d}", "{00%d}", "{1,00%d}"):
            cases.append(("a" + q % b, ["", "a", "aa", "aaa"]))
            cases.append(("(ab)" + q % b, ["", "ab", "abab", "ababab"]))
    for q in ("{0}", "{00}", "{01}", "{0,0}", "{0,00}", "{002,003}", "{0,}", "{1,0}", "{3,2}", "{5,1}"):
        for body in ("a", "(a)", "(a|b)", "(a?)", "(a*b?)", "[a]", "."):
            for tail in ("", "b", "a?"):
                cases.append((body + q + tail, ["", "a", "aa", "aaa", "b", "ab", "aab", "aaab", "aaaab"]))
    run_regex(ctx, cases, deep=True)


# --- C03 / C19 -------------------------------------------------------------------

SYNTAX = ["a", "\\", "(", ")", "[", "]", "^", "|", "-", "*", "{", "1", ",", "}", "x", "u", "c", "."]


DIALECTS = ["(?:a)", "(?=a)", "(?!a)", "(?<=a)", "(?<n>a)", "(?P<n>a)", "(?i)", "(?i:a)", "(?#x)", "(?>a)", "(*a)", "^a", "a$", "^", "$", "\\b", "\\B", "\\A",
            "\\z", "\\Z", "\\p{L}", "\\pL", "\\P{Lu}", "\\h", "\\H", "\\R", "\\X", "\\e", "\\a", "\\1", "\\9", "\\k<n>", "\\Qa\\E", "\\G", "\\K", "\\N",
            "\\o{17}", "\\017", "\\00", "\\x{41}", "\\U00000041", "\\u{41}", "\\N{DIGIT ONE}", "\\c1", "\\c[", "\\_", "\\ ", "\\#", "\\,", "\\<", "\\>", "\\=", "\\!",
            "\\:", "\\'", "\\\"", "\\&", "\\~", "\\%", "\\@", "\\`", "\\;", "[[:alpha:]]", "[:alpha:]", "[[a]]", "[a[b]]", "[a&&b]", "[a--b]", "[a~~b]", "[]a]", "[^]a]",
            "[a-]", "[-a]", "[--a]", "[a-b-c]", "[a-\\d]", "[\\d-a]", "[a-[b]]", "[.-a]", "[a|b]", "[(a)]", "[a*]", "[a+]", "[{2}]", "[$]", "[a^]", "[^^]", "[\\b]", "[,]", "[#]",
            "{2}", "a{,3}", "a{}", "a{,}", "a{ 1}", "a{1 }", "a{1, 2}", "a{1;2}", "a{-1}", "a{+1}", "a{1.0}", "a{0x1}", "a{1_0}", "a{a}", "a{1}{2}", "a{1,2,3}", "a{01}",
            "a{00,01}", "a{٣}", "()", "(|)", "(a|)", "(|a)", "a||b", "|", "a|", "|a", "(()", "())", "a)", "(a", ")(", "#a", "a #b", " a ", "a\n", "/a/", "a/i", "~", "&", "@",
            "<a>", "\"a\"", "'a'", "%d", "!", "a-b", "-", "a,b", "}", "a}", "]", "a]", "[a]]", "{", "a{", "\\", "a\\"]


def syntax_strings(ctx):
    """Strings over the syntax characters: all short ones, random long ones."""
    rng = ctx.rng
    pats = all_words("a\\()[]^|-*{1,}.", ctx.size(4, 5))
    # escapes: every character after a backslash, and every way to go on
    esc = [chr(c) for c in range(0, 0x180)] + list("漢😀é ")
    pats += ["\\" + c + t for c in esc for t in ("", "a", "*", "\\")]
    pats += [c + t for c in esc for t in ("", "?", "*")]
    hexish = "0aFg{}\\"
    for lead in ("\\x", "\\u", "\\u{", "\\c"):
        pats += [lead + w for w in all_words(hexish, ctx.size(4, 5))]
    pats += ["\\u{" + "".join(w) + "}" + t for n in range(0, 8) for w in itertools.product("0Dd8F", repeat=min(n, 3))
             for w in ["".join(w) + "0" * (n - min(n, 3))] for t in ("", "x", "}")]
    pats += ["\\u" + h for h in ("d7ff", "d800", "dfff", "e000", "DBFF", "ffff", "00ff", "0", "00", "000")]
    pats += ["\\u{" + h + "}" for h in ("d7ff", "d800", "dfff", "e000", "0d800", "0dfff", "10000", "fffff", "ffff",
                                        "10ffff", "110000", "00000", "000000", "1f600", "1F600")]
    # counted bounds
    pats += ["a{" + w + t for w in all_words("01,a", 4) for t in ("", "}", "}b", "}}", "}*")]
    # brackets
    pats += ["[" + w for w in all_words("a-]^[\\.z(", 4)]
    pats += ["x" + p for p in pats[:400]]
    # any character in every place where a certain one is expected
    odd = esc + [chr(c) for c in (0x663, 0x969, 0xFF11, 0xFF21, 0xFF41, 0x2160, 0x301, 0x200D, 0x2028, 0x3000, 0xD7FF, 0xE000,
                                  0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1D7D9, 0x10FFFF)]
    for t in ("%", "a%", "a%b", "(%)", "(a%)", "a|%", "%|a", "[%]", "[^%]", "[%-z]", "[!-%]", "[a%]", "[a-z%]", "a{%}", "a{1%}",
              "a{%1}", "a{1%2}", "a{1,%}", "a{1,2%}", "a{%1,2}", "\\x%1", "\\x1%", "\\x11%", "\\u%111", "\\u111%", "\\u1111%",
              "\\u{%111}", "\\u{111%}", "\\u{1111%}", "\\u{11111%}", "\\u{1111%", "\\c%", "\\ca%", "a*%", "[a]%", "(a)%"):
        pats += [t.replace("%", c) for c in odd]
    # one quantifier too many, and what other dialects have
    quants = ["*", "+", "?", "{2}", "{1,}", "{0,3}"]
    for x in ("a", ".", "\\d", "[a]", "[^a]", "(a)", "(a|b)", "((a)*)", "\\x41", "", "|", "(", "[a"):
        pats += [x + p + q + t for p in quants for q in quants for t in ("", "b", "|b", ")", "*")]
        pats += [x + p for p in quants] + ["(" + x + p + q + ")" for p in quants for q in quants]
    for x in DIALECTS:
        pats += [x, "a" + x, x + "a", "(" + x + ")", "a|" + x, "[" + x + "]", x + "*", "(a)" + x, "[a]" + x, "a*" + x]
    toks = ["a", "\\d", ".", "(", "(", ")", ")", "[", "]", "^", "-", "|", "*", "+", "?", "{2}", "{1,}", "{0,3}",
            "\\x41", "\\u0041", "\\u{1F600}", "\\cA", "\\n", "é", "漢", "\\", "{", "[a-z]", "[^\\d]", "(a|b)"]
    for _ in range(ctx.size(15000, 60000)):
        n = rng.choice([2, 4, 6, 10, 20])
        pats.append("".join(rng.choice(toks) for _ in range(n)))
    # nearly right ones: one change to a pattern that is right
    for _ in range(ctx.size(10000, 40000)):
        alpha = rng.choice([AB, G.UNI, G.odd(rng)])
        p = G.pattern(rng, depth=3, alpha=alpha, classes=True, counted=True).text
        pats.append(p)
        pats.append(G.mutate(rng, p, "()[]|*{}-^\\a,1?"))
    for d in (10, 100, 400, 2000, ctx.size(5000, 8000)):
        pats += ["(" * d + "a" + ")" * d, "(" * d + "a" + ")" * (d - 1), "(" * (d - 1) + "a" + ")" * d,
                 "(" * d, ")" * d, "[" * d, "a|" * d, "a|" * d + "a", "|" * d, "a*" * d, "*" * d,
                 "a{2}" * d, "\\x41" * d, "\\u{1F600}" * d + "{", "[^a-z]" * d, "(a|b)?" * d, "\\d" * d + "\\q", "." * d + "{1,2",
                 "(a)" * d, "[a]" * d + "]", "()" * d, "{1}" * d, "\\" * d, "\\" * (d + 1), "a" * d + "(",
                 "a" * d + ")", "a" * d + "\\", "漢" * d + "{", "é" * d + "[^", "é" * d + "\\x4"]
    for d in (ctx.size(8000, 10000),):
        pats += ["(" * d + "a" + ")" * d, "a|" * d + "a", "[" + "ab-c" * d + "]"]
    return list(dict.fromkeys(pats))


# Listed in KNOWN_FINDINGS.md: the recursion of the pattern parser needs more
# stack than a thread usually has.
TOO_DEEP = [("20000 nested groups overflow the stack of a thread", "(" * 20000 + "a" + ")" * 20000),
            ("20001 alternatives overflow the stack of a thread", "a|" * 20000 + "a")]


def c03(ctx):
    if run_syntax(ctx, syntax_strings(ctx)):
        return
    recs = H.run_cases(ctx.binary, ["Z " + H.syntax_line(i, [p]) for i, (_, p) in enumerate(TOO_DEEP)], max_dead=99)
    ctx.known += [text for (text, _), rec in zip(TOO_DEEP, recs) if "dead" in rec]


def c19(ctx):
    run_syntax(ctx, syntax_strings(ctx))


# --- C04 ----------------------------------------------------------------------

def c04(ctx):
    rng = ctx.rng
    pats = [".", "\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "[]", "[^]", "[^.]", "[.]", "[\\d]", "[^\\d]", "[^\\w\\s]",
            "[\\W\\D]", "[^\\D]", "[^\\W]", "[\\s\\S]", "[a-z]", "[^a-z]", "[z-a]", "[^z-a]", "[a-a]", "[\\x00-\\x1f]",
            "[\\u0000-\\u{fffff}]", "[\\ud7ff-\\ue000]", "[^\\ud7ff-\\ue000]", "[\\u{10000}-\\u{fffff}]",
            "[a-cx-z0-9]", "[^a-cx-z0-9]", "[a-mg-z]", "[^a-mg-z]", "[^a^]" if False else "[^a\\^]", "[$/},]", "[\\]\\[\\-\\\\]",
            "[é-λ漢]", "[^漢-😀]", "\\u{1F600}", "a", "\\x7f", "\\xFF", "[\\cA-\\cZ]", "[\\f-\\r]", "[+--]" if False else "[\\+-\\-]"]
    for _ in range(ctx.size(30, 300)):
        pats.append(G.bracket(rng, rng.choice([G.ASCII, G.UNI, "azAZ09_", "\x00\x7f\x80\xff퟿￿\U00010000\U0010ffff"])).text)
    if run_unicode(ctx, list(dict.fromkeys(pats))):
        return
    # every escape, next to everything that could be mistaken for a part of it
    chars = [chr(c) for c in range(0, 0x130)] + [" ", "漢", "😀", "�"]
    singles = chars
    pats = ["\\" + c for c in chars] + chars
    pats += ["\\c" + chr(c) for c in range(33, 127)]
    pats += ["\\x%02x" % c for c in range(256)] + ["\\x%02X" % c for c in range(256)]
    pats += ["\\x%x%X" % (c // 16, c % 16) for c in range(160, 256)]
    pats += ["\\u%04x" % c for c in range(0, 0x130)] + ["\\u%04X" % c for c in range(0xA0, 0x130)]
    pats += ["\\u{%04x}" % c for c in range(0, 0x130)] + ["\\u{%05X}" % c for c in range(0, 0x130, 3)]
    pats = list(dict.fromkeys(pats))
    if run_regex(ctx, [(p, None) for p in pats], [""] + singles):
        return
    cases = []
    for v in [0x100, 0xabc, 0xABC, 0xfff, 0x1000, 0xabcd, 0xd7ff, 0xe000, 0xffff, 0xFEDC, 0x10000, 0x12345, 0xabcde, 0xfffff,
              0x1f600] + [rng.choice([rng.randrange(0x80, 0xd800), rng.randrange(0xe000, 0x100000)]) for _ in range(ctx.size(300, 3000))]:
        near = [chr(c) for c in {v, v + 1, v - 1, v ^ 0x10, v ^ 0x100, v ^ 0x1000, v & 0xff, v & 0xfff, v & 0xffff, v >> 4, v >> 8,
                                 (v << 4) & 0xfffff} if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000]
        for f in ("%04x", "%04X", "%05x"):
            h = f % v
            if len(h) == 4:
                cases.append(("\\u" + h, near))
            if len(h) <= 5:
                cases.append(("\\u{" + h + "}", near))
                cases.append(("[\\u{" + h + "}]", near))
    # characters that are easily taken for each other
    look = G.alike()
    for c, ws in look:
        cases.append((c, [c] + ws))
    for c, ws in rng.sample(look, ctx.size(600, 4000)):
        cases += [("[" + c + "]", [c] + ws), ("[^" + c + "]", [c] + ws), ("[" + c + "-" + c + "]", [c] + ws)]
    # numbers that are no characters, digits that are none, too few and too many of them
    bad = ["", "\ufffd", "\x00", "?", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U000fffff", "\U0010ffff", "u", "x", "A", "4", "A4"]
    for v in [0xd800, 0xd801, 0xdbff, 0xdc00, 0xdead, 0xdfff, 0xD83D, 0xDE00] + [rng.randrange(0xd800, 0xe000) for _ in range(ctx.size(40, 400))]:
        for p in ("\\u%04x" % v, "\\u%04X" % v, "\\u{%04x}" % v, "\\u{%05x}" % v):
            cases += [(q, bad) for q in (p, "[" + p + "]", "a|" + p, "[^" + p + "]", "[a-" + p + "]", p + "*")]
    cases += [("\\ud83d\\ude00", bad + ["😀"]), ("[\\ud83d\\ude00]", bad + ["😀"]), ("\\u{d83d}\\u{de00}", bad + ["😀"])]
    for e in ("\\x", "\\u", "\\u{"):
        for d in ["", "4", "41", "041", "0041", "00041", "000041", "0000041", "10ffff", "110000", "ffffff", "10FFFF"]:
            for t in ("", "}", "g", "{", "}}", "-", " ", "_", "+", "４"):
                for q in (e + d + t, e + t + d, e + d[:1] + t + d[1:]):
                    cases += [(q, bad), ("[" + q + "]", bad)]
    for t in list("gGzZ-+_. {}()[]|*?/\\") + ["é", "４", "٤", "\x00"]:
        for k in range(4):
            d = "0041"[:k] + t + "0041"[k + 1:]
            cases += [("\\u" + d, bad), ("\\u{" + d + "}", bad), ("\\u{" + d + "1}", bad), ("\\x" + d[2:], bad), ("[\\x" + d[2:] + "]", bad)]
        cases += [("\\c" + t, bad), ("[\\c" + t + "]", bad)]
    # exactly the documented digits are consumed
    for e, c in (("\\x41", "A"), ("\\xe9", "é"), ("\\u0041", "A"), ("\\u00e9", "é"), ("\\u{0041}", "A"), ("\\u{1f600}", "😀"),
                 ("\\n", "\n"), ("\\0", "\0"), ("\\ca", "\x01"), ("\\cZ", "\x1a"), ("\\d", "7"), ("\\.", ".")):
        for t in "0123456789abcdefABCDEFg}{u\\x":
            tp = t if t not in "{\\" else "\\" + t
            ws = [c, c + t, c + t + t, t, c + c, c[:0] + t + c]
            cases += [(e + tp, ws), (e + tp + "*", ws), ("[" + e + tp + "]", [c, t, "\\", "x", "u", "0"]), (tp + e, ws + [t + c])]
        cases += [("[" + e + "-z]", [c, "a", "z", "-"]), ("[^" + e + "]", [c, "a", "-", "^"]), (e + "+", [c * 3, c, ""])]
    for _ in range(ctx.size(400, 4000)):
        alpha = rng.choice([G.ASCII, G.UNI, "^-]a[\\"])
        p = G.bracket(rng, alpha)
        cases.append((p.text, list(alpha) + [chr(ord(c) + d) for c in alpha for d in (-1, 1)] + [""]))
    # ranges between characters at the edges of the usual sets
    edges = "\x00\x1f !/09:@AMZ[\\^_`amz{~\x7f\x80\xa0\xff"
    for a in edges:
        for b in edges:
            r = "".join("\\" + c if c in G.SPECIAL else c for c in (a,)) + "-" + "".join("\\" + c if c in G.SPECIAL else c for c in (b,))
            cases += [("[" + r + "]", singles[:0x110]), ("[^" + r + "]", singles[:0x110])]
    # characters that several members have
    some = "\x00`abcdefghijklmnopqrstuvwxyz{漢"
    for n in range(2, 11):
        nest = ["%s-%s" % (chr(97 + k), chr(122 - k)) for k in range(n)]
        for p in (nest, nest[::-1], ["m"] * n, ["a-f"] * n, ["\\d"] * n + ["m"], nest[:1] * n + nest, nest + list("abc" * n),
                  ["a-c", "c-e", "b-d", "c"] * (n // 2), [chr(97 + k) + "-z" for k in range(n)], ["a-" + chr(97 + 2 * k) for k in range(n)]):
            cases += [("[" + "".join(p) + "]", list(some)), ("[^" + "".join(p) + "]", list(some))]
    # sets next to sets that are like them
    sets = ["[ab]", "[^ab]", "[ba]", "[a-b]", "[^a-b]", "[aab]", "a", "b", "[a]", "[^a]", ".", "[.]", "[^.]", "\\d", "\\D", "[\\d]", "[^\\d]",
            "\\w", "[\\w]", "\\W", "[^\\w]", "\\s", "\\S", "[]", "[^]", "[b-a]"]
    ws = list("abcé1 \n漢_") + ["ab", "ba", "a1", "1a", " a", "cc"]
    for x in sets:
        for y in sets:
            cases += [(x + "|" + y, ws), ("(" + x + "|" + y + ")*" + x, ws), (x + y, ws), ("a" + x + "|a" + y + "b", ws + ["aab", "abb", "acb", "a1b"])]
    for n in (3, 4, 6, 9, 20):
        for k in sorted({0, 1, n // 2, n - 2, n - 1}):
            x, y = list("abcdefghijklmnopqrst"[:n]), list("abcdefghijklmnopqrst"[:n])
            y[k] = "z"
            x, y = "".join(x), "".join(y)
            ws = [x[k], "z", x[0], x[-1], "y"]
            ws += [c + "1" for c in ws]
            cases += [(f % (x, y), ws) for f in ("[%s]|[%s]", "[%s]1|[%s]", "[^%s]|[^%s]", "[%s]|[^%s]", "[%s]1|[^%s]")]
            cases += [(f % (y, x), ws) for f in ("[%s]|[%s]", "[%s]1|[%s]", "[^%s]|[^%s]", "[%s]|[^%s]", "[%s]1|[^%s]")]
    # unions with many members
    for n in (50, 300):
        cs = [chr(0x4e00 + 3 * k) for k in range(n)]
        ws = [chr(0x4e00 + k) for k in range(0, 3 * n, 7)]
        cases += [("[" + "".join(cs) + "]", ws), ("[^" + "".join(cs) + "]", ws),
                  ("[" + "".join(c + "-" + chr(ord(c) + 1) for c in cs) + "]", ws)]
    run_regex(ctx, cases)


# --- several patterns ---------------------------------------------------------------

def small_lexers(ctx, n, **kw):
    """Lexers with 1-4 short patterns over a tiny alphabet, inputs that make
    them fall back."""
    rng = ctx.rng
    out = []
    for _ in range(n):
        alpha = rng.choice(["ab", "ab", "abc", "a"])
        ps = G.rules(rng, rng.randint(1, 4), depth=rng.choice([0, 1, 2]), alpha=alpha,
                     counted=rng.random() < 0.3, quant=rng.choice([0.2, 0.5]))
        rules = [(rng.randint(0, 2), p.text) for p in ps]
        for _ in range(3):
            out.append((rules, G.stream(rng, ps, alpha, rng.choice([1, 3, 6]), limit=40)))
    return out


def recoloured(ctx, cases, n):
    """n of the cases with other characters in place of the letters."""
    rng = ctx.rng
    out = []
    for rules, inp in rng.sample(cases, min(n, len(cases))):
        cs = rng.sample(rng.choice([G.ODD, G.ODD, CONTROLS]), 4)
        to = dict(zip("abcz", cs))
        esc = str.maketrans({k: "\\" + c if c in G.SPECIAL else c for k, c in to.items()})
        out.append(([(k, p.translate(esc)) for k, p in rules], inp.translate(str.maketrans(to))))
    return out


CONTROLS = "".join(map(chr, range(32))) + "\x7f\x80\x85\x9f "


def rich_lexers(ctx, n):
    rng = ctx.rng
    out = []
    for _ in range(n):
        alpha = rng.choice([G.ASCII, G.UNI, G.odd(rng)])
        ps = G.rules(rng, rng.randint(1, 8), depth=2, alpha=alpha, classes=True,
                     counted=rng.random() < 0.5, quant=0.4)
        rules = [(rng.randint(0, 2), p.text) for p in ps]
        out.append((rules, G.stream(rng, ps, alpha, rng.choice([2, 10, 30]), limit=160)))
    return out


def odd_lexers(ctx, n):
    """White space, control characters and the like as tokens and between them."""
    rng = ctx.rng
    out = []
    for _ in range(n):
        alpha = rng.choice(["a \n", "\r\n\ta", "\x00a\x7f", "é a\xa0", "\ufeffa😀", G.odd(rng), G.odd(rng), G.odd(rng)])
        ps = G.rules(rng, rng.randint(1, 3), depth=rng.choice([0, 1]), alpha=alpha, classes=rng.random() < 0.5, quant=0.4)
        out.append(([(rng.randint(0, 2), p.text) for p in ps], G.stream(rng, ps, alpha, 12, limit=60)))
    # texts that begin and end with what programs like to treat in a special way
    lexers = [["."], ["[^\\n]+", "\\n"], ["\\s+", "\\S+"], ["\\w+", "[^ab]"], [".*"], ["a.*", "..", "."]]
    for i, (pre, post) in enumerate(itertools.product(FRAMES, FRAMES)):
        mid = rng.choice(["", "a", "ab", "a b", "a" + rng.choice(FRAMES) + "b"])
        out.append(([(rng.randint(0, 2), p) for p in lexers[i % len(lexers)]], pre + mid + post))
    return out


FRAMES = ["", "\ufeff", "\ufffe", "\n", "\r\n", "\n\n", "\r", " ", "\t ", "\x00", "\x1a", "\x04", "\x7f", "\x1b[0m", "\u2028", "\u200b", "\xa0",
          "//", "/*", "*/", "#", "#!", "--", "--!", ";", "\\", "\\\n", "\"", "'", "`", "$", "%", "%%", "<!--", "-->", "\\0", "\\n", "...", "{", "}",
          "\ufffd", "\uffff", "\U0010ffff", "e\u0301", "\U0001f468\u200d\U0001f469"]

LANG = [(0, "if"), (1, "else"), (0, "while"), (2, "\\w[\\w\\d_]*"), (2, "\\d+"), (2, "\\d+\\.\\d+"), (0, "\\s+"), (1, "=="), (0, "="),
        (0, "\\+\\+"), (0, "\\+"), (2, "/\\*([^\\*]|\\*+[^\\*/])*\\*+/"), (0, "/"), (1, "\\*"), (2, "\"[^\"]*\""), (0, "\\("), (0, "\\)"),
        (2, "0x[\\da-f]{1,8}"), (0, ";"), (0, "\\.")]
LANG_WORDS = ["if", "iff", "else", "elsewhere", "while", "x", "été", "漢字9", "12", "3.14", "3.", "0x1F", "0xdeadbeef0", "==", "===", "=", "++", "+++",
              "/* a * b */", "/* open", "/**/", "/", "*", "\"str\"", "\"open", "(", ")", ";", " ", "\n\t", "_", "é1"]


def lang_inputs(ctx, n, size, noise=0.25):
    """Texts of a small programming language, with some unlexable places."""
    rng = ctx.rng
    out = []
    for _ in range(n):
        s = ""
        while len(s) < size:
            w = rng.choice(LANG_WORDS if rng.random() < noise else [x for x in LANG_WORDS if x not in ('"open', "/* open", "3.", "_")])
            s += w + (" " if rng.random() < 0.7 else "")
        out.append((LANG, s))
    return out


def twin_lexers(ctx):
    """Patterns that differ in one place."""
    out = []
    for n in (2, 3, 5, 8, 13, 30, 100):
        for k in sorted({0, 1, n // 2, n - 2, n - 1}):
            x = ["abcdefghij"[i % 10] for i in range(n)]
            at = lambda s: "".join(x[:k] + [s] + x[k + 1:])
            for ps, ws in (([at("x"), at("y"), at("z")], [at("x"), at("y"), at("z")]),
                           ([at("x"), at("[xy]"), at(".")], [at("x"), at("y"), at("z")]),
                           ([at("x?"), at("x"), at("x+")], [at(""), at("x"), at("xx")]),
                           ([at("x{2}"), at("x{3}"), at("x{2,3}")], [at("xx"), at("xxx")]),
                           ([at("[^x]"), at("[x]")], [at("y"), at("x")]),
                           (["[%s]" % at("x"), "[%s]1" % at("y"), "[%s]" % at("z")], ["x", "y1", "z", "b", "b1"]),
                           (["(%s)*" % at("x"), "(%s)+" % at("y"), "(%s)*" % at("x") + "!"], [at("x") * 2, at("y") * 3, at("x") + "!"])):
                for r in (ps, ps[::-1]):
                    out.append(([(i % 3, p) for i, p in enumerate(r)], "".join(ws + ws[::-1] + ws[:1])))
    return out


def fallback_lexers(ctx, ns):
    """The lexer reads far ahead and has to come back, over and over."""
    out = []
    for n in ns:
        for x, y in (("a", "b"), ("é", "漢"), ("ab", "c")):
            long = x + y + "*z"
            out.append(([(0, x), (0, y), (0, long)], (x + y * n) * 2 + x))
            out.append(([(2, x), (2, y), (2, long)], x + y * n + "z" + x + y * (n // 2)))
            out.append(([(0, x), (0, "(" + x + y + ")*z"), (0, y)], (x + y) * min(n, 60)))
            out.append(([(0, "(%s|%s)*z" % (x, y)), (2, "(%s)+" % x), (2, "(%s)+" % y)], x * 3 + y * 2 + x * min(n, 200) + y))
            # nested falls: each token is followed by a shorter overshoot
            out.append(([(0, x), (0, x + y), (0, x + y + x + y + "q"), (0, y)], (x + y) * min(n, 100) + x))
            out.append(([(0, x), (0, y), (0, long)], y + x + y * n + "!" + x))
    return out


def many_rules(ctx, ns):
    rng = ctx.rng
    out = []
    for n in ns:
        kws = list(dict.fromkeys("".join(rng.choice("abcd") for _ in range(rng.randint(1, 7))) for _ in range(n)))
        for place in (0, len(kws) // 2, len(kws)):
            pats = kws[:place] + ["[a-d]+"] + kws[place:]
            rules = [((i * 7) % 3, p) for i, p in enumerate(pats)]
            inp = ""
            for w in [rng.choice(kws) for _ in range(20)] + [kws[-1], kws[0]]:
                inp += w + " "
            out.append((rules + [(0, " ")], inp))
        # disjoint single characters: kind = index
        chars = [chr(0x4e00 + i) for i in range(n)]
        rules = [((i * 5) % 3, c) for i, c in enumerate(chars)]
        out.append((rules, "".join(rng.choice(chars) for _ in range(40)) + chars[-1] + chars[0]))
        # the same pattern over and over: the first one wins
        out.append(([(rng.randint(0, 2), "b")] + [(rng.randint(0, 2), "a{1,3}|b")] * n, "abaaab"))
        # prefixes of one another
        m = min(n, 60)
        order = list(range(1, m + 1))
        rng.shuffle(order)
        out.append(([(rng.randint(0, 2), "a" * k) for k in order], "a" * (2 * m + 3)))
    return out


def precedence_lexers(ctx, n):
    """Several patterns for the same texts, in all orders, so that the machine
    states of earlier and later patterns interleave."""
    rng = ctx.rng
    fam = ["a", "a+", "a*", "a?", "[ab]", "[ab]*", "ab", "a(b)?", "(a|b)+", "a{2}", "a{1,3}", ".", "..", "\\w+", "aa", "(ab)*", "a|b", "b",
           "(aa)*", "b{0,2}", "(a|b){2}", "[^b]+", "(a?b?)*", "(b|a)(a|b)"]
    out = []
    for _ in range(n):
        k = rng.choice([2, 2, 3, 4, 6])
        rules = [(rng.randint(0, 2), p) for p in rng.sample(fam, k)]
        for _ in range(2):
            out.append((rules, "".join(rng.choice("aabb" if rng.random() < 0.95 else "c") for _ in range(rng.randint(1, 9)))))
    return out


def exhaustive_pairs(ctx, wl):
    """All pairs of a family of patterns, on all words."""
    fam = ["a", "b", "ab", "aba", "a*b", "(ab)*", "abab", "b*a", "(a|b)b", "a?b", "(aab|b)", "a{2}", "(ba)*b", "abb", "aab*"]
    ws = all_words(AB, wl)
    return [([(0, p), (2, q)], w) for p in fam for q in fam if p != q for w in ws if len(w) >= wl - 1]


def long_streams(ctx, size):
    rng = ctx.rng
    out = lang_inputs(ctx, 2, size, noise=0)
    out.append((LANG, out[0][1] + " _ " + out[1][1]))
    out.append(([(0, "a+"), (2, "b{1,3}"), (0, "é")], "".join(rng.choice(["a" * rng.randint(1, 9), "b" * rng.randint(1, 7), "é"]) for _ in range(size // 4))))
    out.append(([(0, "a"), (0, "ab*c"), (0, "b")], "".join(rng.choice(["a", "abbb", "abc", "b"]) for _ in range(size // 3))))
    return out


def long_tokens(n):
    # thousands of ways to go on
    cs = [chr(0x4e00 + i) for i in range(2500)]
    wide = "x(" + "|".join(cs) + ")|" + "|".join("x" + c + "+z" for c in cs[::3])
    return [([(0, wide), (1, "x")], "x" + cs[0] + "x" + cs[-1] + "xx" + cs[3] * 5 + "z" + "x" + cs[2499] * 2 + "z"),
            ([(0, "a+"), (2, "b"), (1, "漢*")], "a" * n + "b" + "漢" * n + "ba"), ([(2, "a+|b"), (0, "b")], "b" + "a" * n + "bba!"),
            ([(0, "a"), (0, "ab*z"), (2, "b+|c")], "a" + "b" * n + "ac")]


def many_tokens(ctx, n):
    # more tokens, and more failures, than two bytes can count
    text = "".join(ctx.rng.choice("ab") for _ in range(n))
    return [([(2, "b"), (0, "ab?"), (1, "a")], text + "!" + text[:9])]


def c05(ctx):
    cs = exhaustive_pairs(ctx, ctx.size(5, 7))
    if len(cs) > ctx.size(6000, 40000):
        cs = ctx.rng.sample(cs, ctx.size(6000, 40000))
    cs += small_lexers(ctx, ctx.size(2500, 12000)) + rich_lexers(ctx, ctx.size(900, 3000))
    cs += lang_inputs(ctx, ctx.size(20, 200), 200) + many_rules(ctx, [10, 70, 140, 300])
    cs += fallback_lexers(ctx, [1, 2, 5, 17, 64, 255, 300]) + twin_lexers(ctx)
    cs += recoloured(ctx, cs, ctx.size(3000, 20000)) + odd_lexers(ctx, ctx.size(500, 4000))
    if run_lex(ctx, cs):
        return
    run_lex(ctx, long_streams(ctx, ctx.size(3000, 20000)) + fallback_lexers(ctx, [ctx.size(1000, 4000)]) +
            long_tokens(70000) + many_tokens(ctx, 100000))


def c06(ctx):
    cs = precedence_lexers(ctx, ctx.size(3500, 30000)) + small_lexers(ctx, ctx.size(2000, 8000))
    cs += recoloured(ctx, cs, ctx.size(3000, 20000))
    cs += rich_lexers(ctx, ctx.size(900, 3000)) + lang_inputs(ctx, ctx.size(20, 200), 200)
    cs += many_rules(ctx, [3, 9, 33, 65, 70, 130, 260, 500])
    cs += fallback_lexers(ctx, [3, 40]) + twin_lexers(ctx) + long_tokens(70000) + many_tokens(ctx, 100000) + odd_lexers(ctx, ctx.size(500, 4000))
    run_lex(ctx, cs)


def c07(ctx):
    cs = small_lexers(ctx, ctx.size(2500, 12000)) + fallback_lexers(ctx, [1, 2, 3, 4, 9, 30]) + exhaustive_pairs(ctx, 5)
    cs = recoloured(ctx, cs, ctx.size(4000, 20000)) + small_lexers(ctx, ctx.size(2500, 12000))
    cs += rich_lexers(ctx, ctx.size(1200, 7000))
    cs += lang_inputs(ctx, ctx.size(30, 300), 300) + fallback_lexers(ctx, [1, 2, 5, 17, 64, 255, 300]) + twin_lexers(ctx)
    cs += precedence_lexers(ctx, ctx.size(800, 6000)) + many_rules(ctx, [10, 70])
    cs += odd_lexers(ctx, ctx.size(600, 5000))
    if run_lex(ctx, cs, extra=3):
        return
    run_lex(ctx, long_streams(ctx, ctx.size(12000, 70000)) + fallback_lexers(ctx, [ctx.size(1500, 4000)]) +
            long_tokens(70000) + many_tokens(ctx, 100000))


def c08(ctx):
    rng = ctx.rng
    cs = small_lexers(ctx, ctx.size(2500, 12000)) + fallback_lexers(ctx, [1, 2, 3, 4, 9, 30]) + exhaustive_pairs(ctx, 5)
    cs = recoloured(ctx, cs, ctx.size(4000, 20000)) + small_lexers(ctx, ctx.size(2500, 12000))
    cs += rich_lexers(ctx, ctx.size(900, 3000))
    cs += lang_inputs(ctx, ctx.size(20, 200), 200) + fallback_lexers(ctx, [1, 2, 5, 64, 256]) + twin_lexers(ctx)
    cs += odd_lexers(ctx, ctx.size(700, 5000))
    # holes: inputs with one character that nothing matches, at every place
    for rules, ok in (([(0, "a"), (0, "ab*c"), (2, "b")], "abbcaab"), ([(0, "(ab)*"), (0, "é")], "ababéab"), (LANG, "if (x==1) y++;"),
                      ([(0, "[^!]"), (0, "!!")], "a!!b!!"), ([(0, "a{2,3}")], "aaaaaaa"), ([(2, ".{3}")], "abcdefgh")):
        for i in range(len(ok) + 1):
            for hole in ("!", "?", "", "\n", "☃"):
                cs.append((rules, ok[:i] + hole + ok[i:]))
            cs.append((rules, ok[:i]))
    # nothing to match with
    for rules in ([], [(0, "")], [(0, "[]")], [(0, "a{2,1}")], [(0, "a{0}")], [(0, "a*")], [(0, "(a?)*")], [(0, ""), (0, "a")], [(0, "[^.]")]):
        for s in ("", "a", "b", "aab", "ba", "漢"):
            cs.append((rules, s))
    if run_lex(ctx, cs, extra=9):
        return
    if run_lex(ctx, long_streams(ctx, ctx.size(2000, 10000)) + long_tokens(70000) + many_tokens(ctx, 100000), extra=4):
        return
    # asked over and over again
    cs = rng.sample(cs, ctx.size(150, 1000))
    run_lex(ctx, [(r, s[:60]) for r, s in cs], extra=ctx.size(300, 1000))


def c09(ctx):
    """Every call comes back, whatever is nested in what."""
    rng = ctx.rng
    cs = []
    L = ctx.size(2000, 8000)
    nests = ["(a*)*", "(a+)+", "(a?)*", "(a?)+", "(a|a)*", "(a|a?)*", "((a*)*)*", "((a*)+)?", "(a*b?)*", "(a|b|ab)*", "(a|aa|aaa)*", "(a*a*)*",
             "((a?b?)*c?)*", "(()|a)*" if False else "((a{0})|a)*", "(a|(b|(a|b)*)*)*", "(a*){2}", "(a*){2,}", "(a?){20}", "(a{0,3})*",
             "((a{0,3}){0,3})*", "((a{1,2}){1,2}){1,}", "(a{0,2}b{0,2}){0,}", "([^b]*)*", "(.*)*", "(.*.*)*x", ".*.*.*.*x", "(.|a|\\w)*", "(a|a|a|a|a)*b",
             "((a|b)(a|b)?)*c", "(a{2}|a{3})*", "(a{2,}|b)*", "((a|b){2,})*", "(a+b?){3,}", "((a*)*|(b*)*)*", "(((a|b)*)*(a|b)*)*c",
             "(a?){30}a{30}", "(a?a?){12}", "(a{0,20}){0,20}", "((a?){5}){5}", "(x+x+)+y", "(x*)*y", "(\\w+\\s?)*!", "(\\w|\\d|_)+@", "(\\d+)*\\."]
    inputs = ["a" * L, "ab" * (L // 2), "b" * L, "a" * (L // 2) + "!" + "a" * 10, "x" * L, "a b " * (L // 4), "aab" * (L // 3), "1" * L, ""]
    for p in nests:
        heavy = p.count("{") > 1 or "{20}" in p or "{30}" in p
        for s in inputs:
            cs.append((single(p), s[:400] if heavy else s))
        cs.append(([(0, p), (1, "a"), (2, "b"), (0, ".")], ("aab" * L)[:300]))
    for _ in range(ctx.size(1200, 10000)):
        # quantifiers on groups that can match the empty string
        p = G.pattern(rng, depth=rng.choice([2, 3, 4, 5]), alpha=rng.choice(["a", "ab"]), counted=rng.random() < 0.4,
                      quant=rng.choice([0.7, 0.95]))
        n = 30 if p.w > 300 else 120
        cs.append((single(p.text), "".join(rng.choice("ab" if rng.random() < 0.9 else "c") for _ in range(n))))
        cs.append((single(p.text), "a" * n))
    for d in (3, 8, 15, ctx.size(25, 40)):
        cs.append((single("(" * d + "a" + ")*" * d), "a" * 500))
        cs.append((single("(" * d + "a" + "?)*" * d), "a" * 500))
        cs.append((single("(" * d + "a*" + "|b)*" * d), "ab" * 250))
        cs.append((single("(" * d + "a" + "|a)*" * d), "a" * 500))
    many = [(0, "(a|b)*" + c) for c in "cdefghijk"] + [(0, "(a*)*x"), (0, "a"), (0, "b")]
    cs += [(many, "ab" * ctx.size(100, 400))]
    run_lex(ctx, cs)
