"""Grammars and token sequences to try.  Nothing here decides what is right.

A grammar is (start, rules); rules: list of (head, body); variables are
positive, terminals negative: -(1 + kind)."""


def norm(g):
    start, rules = g
    seen, out = set(), []
    for h, b in rules:
        r = (h, tuple(b))
        if r not in seen:
            seen.add(r)
            out.append(r)
    return start, out


def heads(g):
    return {h for h, _ in g[1]}


def variables(g):
    return {g[0]} | heads(g) | {s for _, b in g[1] for s in b if s > 0}


def terminals(g):
    return sorted({s for _, b in g[1] for s in b if s < 0}, reverse=True)


def heights(g):
    """Least height of a derivation of each productive variable."""
    ht = {}
    while True:
        new = {}
        for h, b in g[1]:
            if all(s < 0 or s in ht for s in b):
                x = 1 + max([ht[s] for s in b if s > 0], default=0)
                if x < new.get(h, 10 ** 9):
                    new[h] = x
        new = {v: min(x, ht.get(v, x)) for v, x in new.items()}
        if new == ht:
            return ht
        ht = new


def productive(g):
    return set(heights(g)) == variables(g)


def complete(g):
    return variables(g) == heads(g)


def sentence(rng, g, size, ht=None):
    """A random sentence of about the given size (or None if too long)."""
    ht = ht or heights(g)
    if g[0] not in ht:
        return None
    by = {}
    for h, b in g[1]:
        if all(s < 0 or s in ht for s in b):
            by.setdefault(h, []).append(b)
    out, todo, steps = [], [g[0]], 0
    limit = 4 * size + 60 + 3 * max(len(b) for _, b in g[1])
    while todo:
        s = todo.pop()
        steps += 1
        if steps > 40 * size + 4000 or len(out) > limit:
            return None
        if s < 0:
            out.append(s)
            continue
        alts = by[s]
        if len(out) + len(todo) >= size:
            # the alternatives that end soonest
            key = lambda b: 1 + max([ht[x] for x in b if x > 0], default=0)
            m = min(map(key, alts))
            alts = [b for b in alts if key(b) == m]
        b = rng.choice(alts)
        todo.extend(reversed(b))
    return out


def mutate(rng, w, ts):
    w = list(w)
    k = rng.randrange(7)
    t = rng.choice(ts) if ts else -1
    if k == 0 and w:
        del w[rng.randrange(len(w))]
    elif k == 1:
        w.insert(rng.randint(0, len(w)), t)
    elif k == 2 and w:
        w[rng.randrange(len(w))] = t
    elif k == 3 and w:
        w = w[:rng.randrange(len(w))]
    elif k == 4:
        w = w + [t]
    elif k == 5 and len(w) > 1:
        i = rng.randrange(len(w) - 1)
        w[i], w[i + 1] = w[i + 1], w[i]
    else:
        w = w + w
    return w


def words(rng, g, n, size=8, foreign=True):
    """About n inputs: sentences, damaged sentences, random sequences."""
    ts = terminals(g) or [-1]
    pool = ts + ([min(ts) - 1] if foreign else [])
    ht = heights(g)
    out = [[]]
    for _ in range(n):
        k = rng.random()
        w = sentence(rng, g, rng.randint(0, size), ht) if k < 0.8 else None
        if w is None:
            w = [rng.choice(ts) for _ in range(rng.randint(0, size))]
        elif k > 0.45:
            w = mutate(rng, w, pool)
        out.append(w)
    # every kind of token right behind a sentence
    w = sentence(rng, g, rng.randint(0, size), ht)
    if w is not None:
        out += [w + [t] for t in (pool if len(pool) <= 6 else rng.sample(pool, 6))]
    uniq, seen = [], set()
    for w in out:
        if tuple(w) not in seen:
            seen.add(tuple(w))
            uniq.append(w)
    return uniq


# --- grammars ----------------------------------------------------------------------

def T(k):
    return -(1 + k)


def random_grammar(rng, nv=None, nt=None, maxalt=3, maxbody=4, pvar=0.45, peps=0.15):
    nv = nv or rng.randint(1, 6)
    nt = nt or rng.randint(1, 5)
    rules = []
    for v in range(1, nv + 1):
        for _ in range(rng.randint(1, maxalt)):
            n = 0 if rng.random() < peps else rng.randint(1, maxbody)
            rules.append((v, [rng.randint(1, nv) if rng.random() < pvar else T(rng.randrange(nt))
                              for _ in range(n)]))
    return norm((1, rules))


def marked_grammar(rng, nv=None, nt=None):
    """Alternatives start with different terminals (mostly SLR(1)), with empty
    alternatives and unit rules here and there."""
    nv = nv or rng.randint(1, 7)
    nt = nt or rng.randint(2, 7)
    rules = []
    for v in range(1, nv + 1):
        first = rng.sample(range(nt), min(nt, rng.randint(1, 3)))
        for t in first:
            body = [T(t)]
            for _ in range(rng.randint(0, 3)):
                body.append(rng.randint(1, nv) if rng.random() < 0.6 else T(rng.randrange(nt)))
            rules.append((v, body))
        k = rng.random()
        if k < 0.35:
            rules.append((v, []))
        elif k < 0.5:
            rules.append((v, [rng.randint(1, nv), T(rng.randrange(nt))]))
        elif k < 0.6:
            rules.append((v, [rng.randint(1, nv)]))
    return norm((rng.randint(1, nv), rules))


def layered_grammar(rng, nv=None):
    """Variables use later ones, terminals are mostly fresh (mostly SLR(1)), many
    variables can be empty; now and then a bracketed way back."""
    nv = nv or rng.randint(2, 7)
    peps = rng.choice((0.1, 0.4, 0.7))
    fresh, rules = [0], []

    def term():
        if fresh[0] and rng.random() < 0.1:
            return T(rng.randrange(fresh[0]))
        fresh[0] += 1
        return T(fresh[0] - 1)

    for v in range(1, nv + 1):
        later = list(range(v + 1, nv + 1))
        for _ in range(rng.randint(1, 2)):
            body = [rng.choice(later) if later and rng.random() < 0.7 else term()
                    for _ in range(rng.randint(1, 4))]
            if later and rng.random() < 0.3:
                body = [rng.choice(later) for _ in range(rng.randint(1, 3))]
            rules.append((v, body))
        k = rng.random()
        if k < 0.2:
            rules.append((v, [term(), rng.randint(1, v), term()]))
        elif k < 0.3:
            rules.append((v, [v, term()]))
        if rng.random() < peps:
            rules.append((v, []))
    return norm((1, rules))


def wide_grammar(rng):
    """Few variables with many alternatives: large FIRST and FOLLOW sets."""
    nv, nt = rng.randint(2, 4), rng.randint(6, 24)
    rules = []
    for v in range(1, nv + 1):
        for t in rng.sample(range(nt), rng.randint(1, nt)):
            rules.append((v, [T(t)] + [rng.randint(1, nv) for _ in range(rng.choice((0, 0, 0, 1)))]))
        for _ in range(rng.choice((0, 1, 1, 2))):
            rules.append((v, [rng.randint(1, nv) if rng.random() < 0.7 else T(rng.randrange(nt))
                              for _ in range(rng.randint(1, 3))]))
        if rng.random() < 0.5:
            rules.append((v, []))
    return norm((1, rules))


def wide_option(n, clash):
    """An optional part with n beginnings; a conflict when it can be left out."""
    x, c, d = T(n), T(n + 1), T(n + 2)
    rules = [(1, [2, c]), (2, [3, 4]), (3, [x]), (4, [])] + [(4, [T(i)]) for i in range(n)]
    return (1, rules + [(1, [x, c, d])] * clash)


def wide_follow(n, clash):
    """A variable followed by n beginnings of an optional variable and then by c;
    a conflict on the last of them."""
    c, d, x = T(n), T(n + 1), T(n + 2)
    rules = [(1, [2, 3, c]), (2, [x])] + [(3, [T(i)]) for i in range(n)] + [(3, [])]
    return (1, rules + [(1, [x, T(n - 1), d]), (1, [x, c, d])][:clash])


def fan_tail(n, depth=3):
    """What comes after the start reaches the ends of n variables through others."""
    e = T(2 * n + 1)
    rules = [(1, [2, e])] + [(v, [v + 1]) for v in range(2, 1 + depth)]
    top = 1 + depth
    for i in range(n):
        b, d = top + 1 + 2 * i, top + 2 + 2 * i
        rules += [(top, [T(i), b]), (b, [T(2 * n), d]), (d, []), (d, [T(n + i)])]
    return (1, rules)


def fan_out(n, tail):
    """n variables to choose from, each with its own terminal; and all sentences."""
    b = [(), (T(n),), (n + 2,), (1,)][tail]
    g = 1, [(1, (i + 2,) + b) for i in range(n)] + [(i + 2, (T(i),)) for i in range(n)] + \
        ([(n + 2, ()), (n + 2, (T(n),))] if tail == 2 else []) + ([(1, ())] if tail == 3 else [])
    return norm(g), [[T(i)] + [T(n)] * (tail == 1 or tail == 2 and i % 2) for i in range(n)]


def fan_in(n):
    """n variables end in one, and each has something else behind it."""
    x, y = T(2 * n), T(2 * n + 1)
    rules = []
    for i in range(n):
        rules += [(1, [T(i), i + 2, T(n + i)]), (i + 2, [T(i), n + 2])]
    return (1, rules + [(n + 2, [x, n + 3]), (n + 3, []), (n + 3, [y])])


def wrapped(rng, g):
    """The grammar inside another one: its sentences do not end at the end."""
    n = max(variables(g)) + 1
    k = max([-t for t in terminals(g)], default=0)
    l, r = T(k), T(k + 1)
    m = rng.randrange(4)
    extra = [[(n, [g[0], r])], [(n, [l, g[0], r])], [(n, [g[0], r]), (n, [l, g[0]])],
             [(n, [l, g[0], r, g[0]]), (n, [r])]][m]
    return norm((n, g[1] + extra))


def stretched(rng, g):
    """Some terminals replaced by several: longer bodies, the same conflicts."""
    k = max([-t for t in terminals(g)], default=0)
    to = {}
    for t in terminals(g):
        n = rng.choice((1, 1, 2, 5, 9))
        to[t] = [t] * n if rng.random() < 0.4 else [t] + [T(k)] * (n - 1)
    return norm((g[0], [(h, [x for s in b for x in to.get(s, [s])]) for h, b in g[1]]))


def veiled(rng, g):
    """Some terminals hidden behind chains of variables: FIRST has to be passed on far."""
    rules, new = [], []
    v = max(variables(g))
    u = max([-t for t in terminals(g)], default=0)
    for h, b in g[1]:
        b = list(b)
        for i, s in enumerate(b):
            if s < 0 and rng.random() < 0.4:
                n, optional = rng.choice((1, 2, 5, 12, 30)), rng.random()
                b[i] = v + 1
                for j in range(n):
                    v += 1
                    last = j == n - 1
                    if rng.random() < optional / 3:
                        # something optional in front of the rest
                        new += [(v, [v + 1, s if last else v + 2]), (v + 1, []), (v + 1, [T(u)])]
                        v, u = v + 1, u + 1
                    else:
                        new.append((v, [s if last else v + 1]))
        rules.append((h, b))
    return norm((g[0], rules + new))


def sunk(rng, g):
    """Some uses of variables put at the end of chains: FOLLOW has to be passed on far."""
    rules, new = [], []
    v = max(variables(g))
    u = max([-t for t in terminals(g)], default=0)
    for h, b in g[1]:
        b = list(b)
        for i, s in enumerate(b):
            if s > 0 and rng.random() < 0.5:
                n, optional = rng.choice((1, 2, 5, 12, 30)), rng.random()
                b[i] = v + 1
                for j in range(n):
                    v += 1
                    x = s if j == n - 1 else v + 1
                    if rng.random() < optional / 3:
                        # something optional behind the rest
                        new += [(v, [x if x == s else v + 2, v + 1]), (v + 1, []), (v + 1, [T(u)])]
                        v, u = v + 1, u + 1
                    else:
                        new.append((v, [x]))
        rules.append((h, b))
    return norm((g[0], rules + new))


def end_clash(n, kind):
    """Two reductions at the end of the input, n variables down, or none."""
    a, c, d = T(0), T(1), T(2)
    down = [(i, (i + 1,)) for i in range(1, n)] if kind < 4 else \
        [(i, (i + 1, n + 3)) for i in range(1, n)] + [(n + 3, ()), (n + 3, (d,))][:n]
    A, B = n + 1, n + 2
    return norm((1, down + [[(n, (A,)), (n, (B,)), (A, (a,)), (B, (a,))],
                            [(n, (c, A)), (n, (c, B, d)), (A, (a,)), (B, (a,))],
                            [(n, (c, A)), (n, (c, B)), (A, (a,)), (B, (a, a)), (B, (A,))],
                            [(n, (A, B)), (A, (a,)), (A, ()), (B, (c,)), (B, ())],
                            [(n, (c, A)), (n, (c, B)), (A, (a,)), (B, (a,))],
                            [(n, (c, A)), (n, (c, B, c)), (A, (a,)), (B, (a,))]][kind]))


def long_clash(n, kind):
    """Two bodies of n symbols and more that are told apart behind them, or not."""
    x, t, c, d = ([T(0)] * n if n % 2 else [T(i + 3) for i in range(n)]), T(0), T(1), T(2)
    return 1, [[(1, [2, t, d]), (1, [3]), (2, x), (3, x + [t, c])],
               [(1, [2, c, d]), (1, [3]), (2, x), (3, x + [t, c])],
               [(1, [2, c]), (1, [3, c]), (2, x), (3, x)],
               [(1, [2, c]), (1, [3, d]), (2, x), (3, x)],
               [(1, [2, c]), (1, [3, c]), (2, x), (3, x[1:]), (1, [x[0], 3, c])],
               [(1, x), (1, [2]), (2, x)]][kind]


def twins():
    """Bodies that differ in one place, or in the order of two symbols."""
    out = []
    c, d = T(1), T(2)
    for n in (2, 3, 5, 7, 9, 12, 17, 33):
        for frame in ([T(0)] * n, [T(i + 3) for i in range(n)], [T(0), 4] * n):
            x = frame[:n]
            ends = [(4, [T(40)])] if 4 in x else []
            for k in sorted({0, 1, 4, n // 2, n - 2, n - 1} & set(range(n))):
                at = lambda s, x=x, k=k: x[:k] + [s] + x[k + 1:]
                out += [(1, [(1, at(c)), (1, at(d))] + ends),
                        (1, [(1, [2, c]), (1, [3, d]), (2, at(c)), (3, at(d))] + ends),
                        (1, [(1, at(2)), (1, at(3)), (2, [c]), (3, [d]), (3, [d, c])] + ends),
                        (1, [(1, at(2)), (1, at(d)), (2, [c]), (2, [c, 1])] + ends)]
                j = (k + n // 2) % n
                if j != k:
                    y, z = at(c), at(d)
                    y[j], z[j] = d, c
                    out.append((1, [(1, y), (1, z)] + ends))
    return [norm(g) for g in out]


def long_body(n, variables=0):
    """Rules with n symbols, the last `variables` of them variables."""
    body = [T(i) for i in range(n - variables)] + [3 + i for i in range(variables)]
    return 1, [(1, [2]), (1, [1, T(n), 2]), (2, body), (2, body[:-1])] + \
        [(3 + i, [T(n + 1 + i)]) for i in range(variables)]


def optional_inside(n):
    """D -> A B1 ... Bn with optional Bi, and D followed by a terminal."""
    bs = list(range(4, n + 4))
    return 1, [(1, [2, T(0)]), (1, [T(1), 2, T(2)]), (2, [3] + bs), (3, [T(3)]), (3, [T(4), 2, T(5)])] + \
        [(b, [T(6 + b)]) for b in bs] + [(b, []) for b in bs]


def reachable(g):
    start, rules = g
    seen, todo = {start}, [start]
    while todo:
        v = todo.pop()
        for h, b in rules:
            if h == v:
                for s in b:
                    if s > 0 and s not in seen:
                        seen.add(s)
                        todo.append(s)
    return start, [r for r in rules if r[0] in seen]


def expression(levels, right=(), unary=False, call=False):
    """Expression grammar with `levels` binary operators."""
    rules = []
    for i in range(1, levels + 1):
        if i in right:
            rules.append((i, [i + 1, T(i), i]))
        else:
            rules.append((i, [i, T(i), i + 1]))
        rules.append((i, [i + 1]))
    top = levels + 1
    lp, rp, ident = T(levels + 1), T(levels + 2), T(0)
    rules += [(top, [lp, 1, rp]), (top, [ident])]
    if unary:
        rules.append((top, [T(levels + 3), top]))
    if call:
        a = top + 1
        rules += [(top, [ident, lp, a, rp]), (a, []), (a, [top + 2]),
                  (top + 2, [1]), (top + 2, [top + 2, T(levels + 4), 1])]
    return 1, rules


def listing(left, sep, empty):
    """Lists: left or right recursive, with separator, possibly empty."""
    S, L, I = 1, 2, 3
    a, c = T(0), T(1)
    body = ([L, c, I] if left else [I, c, L]) if sep else ([L, I] if left else [I, L])
    rules = [(S, [L]), (L, body), (L, [I]), (I, [a])]
    if empty:
        rules.append((S, []))
    return 1, rules


def dyck(k):
    """Balanced brackets of k kinds."""
    return 1, [(1, [])] + [(1, [T(2 * i), 1, T(2 * i + 1), 1]) for i in range(k)]


def json_like():
    S, O, M, P, A, E = 1, 2, 3, 4, 5, 6
    lb, rb, ls, rs, co, cm, st, nu = (T(i) for i in range(8))
    return 1, [(S, [O]), (S, [A]), (S, [st]), (S, [nu]),
               (O, [lb, rb]), (O, [lb, M, rb]), (M, [P]), (M, [M, cm, P]), (P, [st, co, S]),
               (A, [ls, rs]), (A, [ls, E, rs]), (E, [S]), (E, [E, cm, S])]


def statements():
    """A small imperative language."""
    Prog, St, Blk, Ex, Te, Fa, Els, Lst = range(1, 9)
    (iF, els, whl, idn, eq, sem, lb, rb, lp, rp, num, plus, mul, ret) = (T(i) for i in range(14))
    return 1, [(Prog, [Lst]), (Lst, []), (Lst, [Lst, St]),
               (St, [idn, eq, Ex, sem]), (St, [whl, lp, Ex, rp, Blk]),
               (St, [iF, lp, Ex, rp, Blk, Els]), (St, [ret, sem]), (St, [ret, Ex, sem]), (St, [Blk]),
               (Els, []), (Els, [els, Blk]), (Blk, [lb, Lst, rb]),
               (Ex, [Ex, plus, Te]), (Ex, [Te]), (Te, [Te, mul, Fa]), (Te, [Fa]),
               (Fa, [idn]), (Fa, [num]), (Fa, [lp, Ex, rp])]


def nullable_chain(n, shuffle=None):
    """S -> A1 ... An end; each Ai optional."""
    vs = list(range(2, n + 2))
    if shuffle:
        shuffle.shuffle(vs)
    return 1, [(1, vs + [T(n)])] + [(v, [T(v - 2)]) for v in range(2, n + 2)] + \
        [(v, []) for v in range(2, n + 2)]


def nullable_tail(n):
    """S -> a A1 ... An without anything behind it."""
    return 1, [(1, [T(n)] + list(range(2, n + 2)))] + [(v, [T(v - 2)]) for v in range(2, n + 2)] + \
        [(v, []) for v in range(2, n + 2)]


def unit_chain(n, tail=()):
    """S -> A1 -> ... -> An -> a."""
    return 1, [(i, [i + 1]) for i in range(1, n + 1)] + [(n + 1, [T(0)] + list(tail))]


def nested_tail(n):
    """Ai -> ti A(i+1): FOLLOW has to travel through all of them."""
    return 1, [(0 + i, [T(i), i + 1]) for i in range(1, n + 1)] + \
        [(n + 1, [T(0)]), (n + 1, [T(0), n + 2, T(n + 1)]), (n + 2, [1]), (n + 2, [])]


def keyword_grammar(n):
    """n alternatives with different first terminals, each with its own variable."""
    rules = [(1, [1, 2]), (1, [2])]
    for i in range(n):
        rules += [(2, [T(i), 3 + i, T(n)]), (3 + i, [T(n + 1)]), (3 + i, [T(n + 1), 2])]
    return 1, rules


def first_through_nullables(n):
    """FOLLOW(A) needs FIRST of a long run of variables that may be empty."""
    vs = list(range(3, n + 3))
    return 1, [(1, [2] + vs), (2, [T(n)]), (2, [2, T(n + 1)])] + \
        [(v, [T(v - 3)]) for v in vs] + [(v, []) for v in vs]


def staged_nullables(n, k):
    """n optional variables in a row whose FIRST sets become known in k stages."""
    rules = [(1, list(range(2, n + 2)) + [T(0)])]
    v, t = n + 2, 1
    for i in range(2, n + 2):
        rules += [(i, []), (i, [v])]
        for j in range(k):
            rules.append((v, [T(t)]))
            t += 1
            if j < k - 1:
                rules.append((v, [v + 1]))
            v += 1
    return 1, rules


FIXED = [
    (1, [(1, [])]),
    (1, [(1, [T(0)])]),
    (1, [(1, [1]), (1, [T(0)])]),                                     # S -> S | a
    (1, [(1, [1, T(0)]), (1, [])]),
    (1, [(1, [T(0), 1]), (1, [])]),
    (1, [(1, [1, T(0)]), (1, [T(0)])]),
    (1, [(1, [T(0), 1]), (1, [T(0)])]),
    (1, [(1, [T(0), 1, T(1)]), (1, [])]),
    (1, [(1, [T(0), 1, T(0)]), (1, [])]),                             # even palindromes: not SLR
    (1, [(1, [1, 1]), (1, [T(0)])]),
    (1, [(1, [1, T(0), 1]), (1, [T(1)])]),
    (1, [(1, [2, T(0)]), (1, [T(1), 2, T(2)]), (1, [T(3), T(2)]), (1, [T(1), T(3), T(0)]), (2, [T(3)])]),  # LALR, not SLR
    (1, [(1, [2, T(0), 3]), (1, [3]), (2, [T(1), 3]), (2, [T(2)]), (3, [2])]),  # assignment: not SLR
    (1, [(1, [T(0), 2, T(1)]), (1, [T(0), 3, T(2)]), (2, [T(3)]), (3, [T(3)])]),
    (1, [(1, [T(0), 2, T(3)]), (1, [T(1), 3, T(3)]), (1, [T(0), 3, T(4)]), (1, [T(1), 2, T(4)]), (2, [T(2)]), (3, [T(2)])]),  # LR(1) only
    (1, [(1, [T(0), 1]), (1, [T(0), 1, T(1), 1]), (1, [T(2)])]),      # dangling else
    (1, [(1, [2]), (2, [3]), (3, [1, T(0)]), (3, [T(1)])]),           # start variable inside
    (1, [(1, [2, 3]), (2, [T(0)]), (2, []), (3, [T(1)]), (3, [])]),
    (1, [(1, [2, 3, 2]), (2, [T(0)]), (2, []), (3, [T(1)])]),
    (1, [(1, [2, 2]), (2, [T(0), 2]), (2, [T(1)])]),
    (2, [(1, [T(0)]), (2, [1, 1])]),
    (1, [(1, [2, T(1)]), (2, [3, T(0)]), (2, []), (3, [])]),
    (1, [(1, [T(0), 2]), (2, [T(1), 1]), (2, [])]),
    (1, [(1, [2, 1]), (1, [T(0)]), (2, [])]),                         # hidden left recursion
    (1, [(1, [2]), (2, [2, 3]), (2, []), (3, [T(0)]), (3, [T(1), 1, T(2)])]),
    (1, [(1, [2, T(0)]), (1, [2, T(1)]), (2, [])]),
    (1, [(1, [2, T(0), 3, T(1)]), (1, [3, T(1), 2, T(0)]), (2, []), (3, [])]),  # LL(1), not SLR
    (1, [(1, [T(0)]), (1, [T(0), T(0)]), (1, [T(0), T(0), T(0)])]),
    (1, [(1, [2]), (1, [3]), (2, [T(0)]), (3, [T(0)])]),              # reduce/reduce at the end
    (1, [(1, [2, T(0)]), (1, [3, T(1)]), (2, [T(2)]), (3, [T(2)])]),
    (1, [(1, [1, 2]), (1, []), (2, [T(0)]), (2, [T(1)])]),
    (1, [(1, [2, 1]), (1, []), (2, [T(0)]), (2, [T(1)])]),
]


def families(rng, big=1):
    out = [norm(g) for g in FIXED]
    for n in (1, 2, 3, 5):
        out.append(expression(n))
        out.append(expression(n, right=(n,), unary=n % 2 == 0))
    out.append(expression(3, call=True))
    for left in (0, 1):
        for sep in (0, 1):
            for empty in (0, 1):
                out.append(listing(left, sep, empty))
    out += [dyck(1), dyck(2), dyck(5), json_like(), statements()]
    for n in (1, 2, 3, 6):
        out += [nullable_chain(n), nullable_tail(n), unit_chain(n), unit_chain(n, [T(1)]),
                nested_tail(n), keyword_grammar(n), first_through_nullables(n)]
        out += [fan_tail(n), fan_in(n), wide_option(n, 0), wide_option(n, 1), wide_follow(n, 0), wide_follow(n, 1), wide_follow(n, 2)]
    out.append(nullable_chain(5, rng))
    out += [long_body(6), long_body(9, 4), long_body(17, 2), optional_inside(1), optional_inside(2), optional_inside(5)]
    if big:
        out += [expression(10 * big), nullable_chain(12 * big), nullable_tail(10 * big), unit_chain(20 * big),
                nested_tail(15 * big), keyword_grammar(12 * big), dyck(8 * big),
                first_through_nullables(10 * big), first_through_nullables(25), first_through_nullables(60), nullable_tail(60), staged_nullables(4, 4),
                staged_nullables(12, 12), fan_tail(10, 6), fan_tail(30, 1), fan_in(12), fan_in(40), wide_option(9, 1), wide_option(33, 0), wide_option(80, 1), wide_follow(9, 1),
                *[long_clash(n, k) for n in (2, 7, 20, 65) for k in range(6)], wide_follow(33, 0), wide_follow(80, 1), wide_follow(80, 2), long_body(40 * big), long_body(70, 30), optional_inside(10 * big)]
    return [norm(g) for g in out]


def huge(n):
    """Grammars with about n states, variables, terminals or rules."""
    return [norm(g) for g in (
        long_body(n), long_body(2 * n, 40), (1, [(1, [T(i), T(n), i + 2, T(n + 1)]) for i in range(n)] + [(i + 2, [T(n + 2)]) for i in range(n)]), unit_chain(n // 4), nested_tail(n // 6),
        (1, [(1, [T(i)]) for i in range(n)]),
        (1, [(1, [2, T(n)])] + [(2, [T(i)]) for i in range(n)]),
        (1, [(1, [T(0)] * i + [T(1)]) for i in range(1, n // 8)]),
        (1, [(1, [T(i), 2]) for i in range(n // 8)] + [(2, []), (2, [1])]),
        (1, [(1, [T(i), 2, T(n)]) for i in range(n)] + [(2, [T(n + 1)]), (2, [T(n + 2), 3]), (3, []), (3, [T(n + 1)])]),
        (1, [(1, [T(i), i + 2, T(n)]) for i in range(n)] + [(i + 2, [T(n + 1)]) for i in range(n)]))]


def vary(rng, g):
    """A grammar a small edit away."""
    start, rules = g[0], [(h, list(b)) for h, b in g[1]]
    vs, ts = sorted(variables(g)), terminals(g) or [-1]
    k = rng.randrange(6)
    i = rng.randrange(len(rules))
    h, b = rules[i]
    sym = rng.choice(vs) if rng.random() < 0.5 else rng.choice(ts)
    if k == 0 and b:
        del b[rng.randrange(len(b))]
    elif k == 1:
        b.insert(rng.randint(0, len(b)), sym)
    elif k == 2 and b:
        b[rng.randrange(len(b))] = sym
    elif k == 3:
        rules.append((h, []))
    elif k == 4 and len(rules) > 1:
        del rules[i]
    else:
        rules.append((rng.choice(vs), [sym] + ([rng.choice(vs)] if rng.random() < 0.5 else [])))
    return norm((start, rules))


def rename(rng, g, vmax=5000, kmax=40):
    """The same grammar with other names."""
    vs = sorted(variables(g))
    ts = terminals(g)
    vm = dict(zip(vs, rng.sample(range(1, vmax), len(vs))))
    tm = dict(zip(ts, [T(k) for k in rng.sample(range(max(kmax, len(ts) + 3)), len(ts))]))
    m = {**vm, **tm}
    return vm[g[0]], [(vm[h], tuple(m[s] for s in b)) for h, b in g[1]]


# --- builder calls -----------------------------------------------------------------

def load(t, l):
    """Terminal with payload as the harness wants it."""
    return -(1 + (-t - 1) * 256 + l) if t < 0 else t


def plain_ops(g, loads=None):
    f = lambda b: [load(s, loads(s) if loads and s < 0 else 0) for s in b]
    return [("S", g[0])] + [("R", h, f(b)) for h, b in g[1]]


def shuffled_ops(rng, g, eps=False, noise=True):
    """Other calls that mean the same grammar."""
    rules = [(h, list(b)) for h, b in g[1]]
    if noise:
        rules += [(h, list(b)) for h, b in rng.choices(g[1], k=rng.randint(0, 3))]
    rng.shuffle(rules)
    ops = []
    while rules:
        h, b = rules.pop()
        same = [r for r in rules if r[0] == h]
        if same and rng.random() < 0.4:
            take = rng.sample(same, rng.randint(1, len(same)))
            for r in take:
                rules.remove(r)
            ops.append(("M", h, [b] + [x for _, x in take]))
        else:
            ops.append(("M", h, [b]) if rng.random() < 0.2 else ("R", h, b))
    starts = [("S", g[0])]
    if noise and rng.random() < 0.4:
        starts.insert(0, ("S", rng.choice(sorted(heads(g)))))
    pos = sorted(rng.randint(0, len(ops)) for _ in starts)
    for i, s in reversed(list(zip(pos, starts))):
        ops.insert(i, s)
    enc = lambda b: [load(s, 0) for s in b]
    sp = (lambda b: sprinkle(rng, enc(b))) if eps else enc
    return [op if op[0] == "S" else (op[0], op[1], sp(op[2])) if op[0] == "R"
            else (op[0], op[1], [sp(b) for b in op[2]]) for op in ops]


def sprinkle(rng, b):
    """Inserts empty-string symbols."""
    out = []
    for s in list(b) + [None]:
        if rng.random() < 0.4:
            out += [0] * (rng.randint(1, 3) if rng.random() < 0.97 else rng.choice((9, 40, 300)))
        if s is not None:
            out.append(s)
    if not b and rng.random() < 0.7 and not out:
        out = [0]
    return out
