"""Seeded generator of patterns and inputs.

A pattern is generated together with a way to draw strings that are likely to
match it; what it really means is decided by the specification alone.
"""

from unicodedata import normalize

SPECIAL = set("^$\\.*+?()[]|/{}-")
ASCII = "abcxyz019_ "
UNI = "aéßλ漢字😀́ Ω"
# characters that something might treat in a special way
ODD = "\0\t\n\x0b\r\x1b \x7f\x80\x85\xa0\xad\u0130\u0131\u017f\u0301\u0660\u2028\u212a\u3000\ud7ff\ue000\ufeff\ufffd\uffff" \
      "\U00010000\U0001f600\U0010ffffaAzZkKsSiI059_$/},<>&%#@!~`'\"=;:"


def odd(rng):
    """A small alphabet of them."""
    return "".join(rng.sample(ODD, rng.randint(2, 4)))


def alike():
    """Characters, each with the other characters it becomes, or that become
    it, when upper and lower case are not told apart or text is normalised."""
    near = {}
    for c in map(chr, range(0x110000)):
        if 0xD800 <= ord(c) < 0xE000:
            continue
        for w in [c.lower(), c.upper(), c.title(), c.casefold(), normalize("NFC", c), normalize("NFKC", c)]:
            if len(w) == 1 and w != c:
                near.setdefault(c, set()).add(w)
                near.setdefault(w, set()).add(c)
    return [(c, sorted(ws)[:12]) for c, ws in sorted(near.items()) if c not in SPECIAL]


class P:
    """text: the pattern; draw(rng): a string; atom: may take a quantifier;
    null: can match the empty string; w: rough number of machine states."""

    def __init__(self, text, draw, atom=False, null=False, w=1, grp=False):
        self.text, self.draw, self.atom, self.null, self.w, self.grp = text, draw, atom, null, w, grp


def lit(rng, c):
    o = ord(c)
    forms = []
    if c in SPECIAL:
        forms.append("\\" + c)
        if c in "$/}":
            forms.append(c)
    else:
        forms += [c] * 6
    if o < 256:
        forms.append("\\x%02x" % o)
        forms.append("\\x%02X" % o)
    if o < 0x10000:
        forms.append("\\u%04x" % o)
    if 0x1000 <= o <= 0xFFFFF:
        forms.append("\\u{%x}" % o)
    elif o < 0x1000:
        forms.append("\\u{%04X}" % o)
    if rng.random() < 0.85:
        forms = forms[:1]
    return P(rng.choice(forms), lambda r, c=c: c, atom=True)


def klass(rng):
    k = rng.choice(["\\d", "\\D", "\\w", "\\W", "\\s", "\\S", ".", "."])
    pool = {"\\d": "0123456789", "\\D": "ab é", "\\w": "abéλ漢", "\\W": "0 1-", "\\s": " \t\n ",
            "\\S": "ab0é", ".": "ab0 é\n"}[k]
    return P(k, lambda r: r.choice(pool), atom=True)


def bracket(rng, alpha):
    neg = rng.random() < 0.25
    parts, pool = [], []
    for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 3)):
        x = rng.random()
        if x < 0.5:
            c = rng.choice(alpha)
            parts.append(lit(rng, c).text)
            pool.append(c)
        elif x < 0.8:
            a, b = sorted([rng.choice(alpha), rng.choice(alpha)])
            if rng.random() < 0.1:
                a, b = b, a
            parts.append(lit(rng, a).text + "-" + lit(rng, b).text)
            pool += [a, b, chr((ord(a) + ord(b)) // 2)] if not 0xD800 <= (ord(a) + ord(b)) // 2 < 0xE000 else [a, b]
        else:
            k = klass(rng)
            parts.append(k.text)
            pool.append(k.draw(rng))
    if neg or not pool:
        pool = list(alpha)
    return P("[" + ("^" if neg else "") + "".join(parts) + "]", lambda r: r.choice(pool), atom=True)


def repeat(rng, p, counted, big):
    """p with a quantifier."""
    if counted and rng.random() < 0.75:
        top = 3 if p.w > 6 else 5
        if big and rng.random() < 0.3 and not p.null and p.w <= 4:
            top = rng.choice([10, 40, 70, 130, 300])
        lo = rng.randint(0, top)
        x = rng.random()
        if x < 0.35:
            q, hi = "{%d}" % lo, lo
        elif x < 0.6:
            q, hi = "{%d,}" % lo, None
        else:
            hi = rng.randint(0, top) if rng.random() < 0.15 else rng.randint(lo, top)
            q = "{%d,%d}" % (lo, hi)
    else:
        q, lo, hi = rng.choice([("*", 0, None), ("+", 1, None), ("?", 0, 1)])
    return repeated(p, q, lo, hi)


def times(p, lo, hi):
    return repeated(p, "{%d}" % lo if lo == hi else "{%d,}" % lo if hi is None else "{%d,%d}" % (lo, hi), lo, hi)


def sequence(xs):
    return P("".join(x.text for x in xs), lambda r: "".join(x.draw(r) for x in xs),
             null=all(x.null for x in xs), w=sum(x.w for x in xs))


def choice(xs):
    return P("|".join(x.text for x in xs), lambda r: r.choice(xs).draw(r),
             null=any(x.null for x in xs), w=sum(x.w for x in xs))


def repeated(p, q, lo, hi):
    def draw(r, p=p, lo=lo, hi=hi):
        top = lo + 3 if hi is None else hi
        if top < lo:
            top = lo
        n = r.choice([lo, top, r.randint(lo, top), max(0, lo - 1) if r.random() < 0.2 else lo])
        if p.w > 8:
            n = min(n, 6)
        return "".join(p.draw(r) for _ in range(n))

    w = p.w * (2 if hi is None else max(1, min(hi, 400)))
    return P(p.text + q, draw, null=p.null or lo == 0, w=max(w, 1))


def group(p):
    return P("(" + p.text + ")", p.draw, atom=True, null=p.null, w=p.w, grp=True)


def pattern(rng, depth=3, alpha="ab", counted=False, classes=False, big=False, quant=0.45):
    """A random pattern with at least one item."""

    def item(d):
        x = rng.random()
        if d > 0 and x < 0.4:
            a = group(expr(d - 1))
        elif classes and x < 0.55:
            a = bracket(rng, alpha)
        elif classes and x < 0.65:
            a = klass(rng)
        else:
            a = lit(rng, rng.choice(alpha))
        if rng.random() < quant and a.w <= 60:
            a = repeat(rng, a, counted, big)
        return a

    def cat(d):
        xs = [item(d) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        return sequence(xs)

    def expr(d):
        xs = [cat(d) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if len(xs) == 1:
            return xs[0]
        return choice(xs)

    while True:
        p = expr(depth)
        if p.w <= 2000 and len(p.text) < 400:
            return p


def mutate(rng, s, alpha):
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        i = rng.randint(0, len(s))
        x = rng.random()
        if x < 0.35:
            s = s[:i] + s[i + 1:]
        elif x < 0.7:
            s = s[:i] + rng.choice(alpha) + s[i:]
        elif x < 0.85:
            s = s[:i]
        else:
            j = rng.randint(i, min(len(s), i + 6))
            s = s[:j] + s[i:j] + s[j:]
    return s


def words(rng, p, alpha, n, limit=60):
    out = []
    for _ in range(n):
        s = p.draw(rng)
        if rng.random() < 0.3:
            s += p.draw(rng)
        out.append(mutate(rng, s, alpha)[:limit])
    return out


def stream(rng, ps, alpha, n, limit=200, noise=True):
    """Input for a lexer with the patterns ps, from about n pieces."""
    s = "".join(rng.choice(ps).draw(rng) for _ in range(n))
    if noise:
        s = mutate(rng, s, alpha)
    return s[:limit]


def rules(rng, n, **kw):
    return [pattern(rng, **kw) for _ in range(n)]
