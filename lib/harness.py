"""Builds the conformance harness from /repo's working tree and runs cases.

The harness records observations only.  A case on which the code under test
does not come back (endless loop, runaway memory, abort) is retried alone and
then recorded as the observation {"dead": "hang"|"crash"}.
"""
import json, os, queue, resource, subprocess, sys, threading, time, select

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PANGO_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
MEM_LIMIT = 6 << 30
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "20"))
WORKERS = 6


class ToolError(Exception):
    pass


def build():
    """Compiles harness + /repo crates; returns the path of the binary."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
               CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--release", "--offline", "-q",
           "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=600)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])
    return os.path.join(BUILD, "target", "release", "pango-conformance")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Child:
    def __init__(self, binary):
        # memory that is given back is overwritten, so that nobody gets away with using it
        env = dict(os.environ, MALLOC_PERTURB_="165")
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, preexec_fn=_limits, env=env)
        self.buf = b""

    def run(self, line, timeout):
        """Returns the record, or 'hang' / 'crash'."""
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            return "crash"
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return "hang"
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return "hang"
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                return "crash"
            self.buf += chunk
        out, self.buf = self.buf.split(b"\n", 1)
        return json.loads(out)

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


DEAD = [0]  # cases of this process that did not come back


def run_cases(binary, lines, timeout=None, max_dead=2):
    """Runs all case lines; returns the list of records in the same order.

    After `max_dead` cases that do not come back the remaining cases are
    skipped (record None): the run has failed already.
    """
    timeout = timeout or CASE_TIMEOUT
    if DEAD[0] >= 4:
        timeout = min(timeout, 5)
    res = [None] * len(lines)
    q = queue.Queue()
    for i in range(len(lines)):
        q.put(i)
    dead = [0]
    lock = threading.Lock()
    retry_lock = threading.Lock()

    def worker():
        child = Child(binary)
        try:
            while True:
                with lock:
                    if dead[0] >= max_dead:
                        return
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                r = child.run(lines[i], timeout)
                if isinstance(r, str):
                    child.kill()
                    # once more, with patience, without company
                    with retry_lock:
                        child = Child(binary)
                        if dead[0] >= max_dead:
                            return
                        r = child.run(lines[i], timeout * 2)
                        if isinstance(r, str):
                            child.kill()
                            child = Child(binary)
                            r = {"dead": r}
                            dead[0] += 1
                            DEAD[0] += 1
                res[i] = r
        finally:
            child.kill()

    ts = [threading.Thread(target=worker) for _ in range(min(WORKERS, max(1, len(lines))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


# --- case lines -----------------------------------------------------------

def text(s):
    """Length-prefixed code points of a string or a list of ints."""
    if isinstance(s, str):
        s = [ord(c) for c in s]
    return " ".join(map(str, [len(s)] + list(s)))


def lexer_line(i, rules, inp, extra=2):
    """rules: list of (mode, pattern)."""
    return " ".join(["L", str(i), str(len(rules))] +
                    [f"{m} {text(p)}" for m, p in rules] + [text(inp), str(extra)])


def first_match_line(i, pat, words):
    return " ".join(["M", str(i), text(pat), str(len(words))] + [text(w) for w in words])


def syntax_line(i, pats):
    return " ".join(["S", str(i), str(len(pats))] + [text(p) for p in pats])


def unicode_line(i, pat):
    return f"U {i} {text(pat)}"


def alphabetic_line(i):
    return f"A {i}"


def ops_words(ops):
    """ops: list of ("S", v) | ("R", v, body) | ("M", v, [body]); body: list of
    symbols, 0 epsilon, v > 0 variable, t < 0 terminal -(1 + kind * 256 + load)."""
    out = [str(len(ops))]
    for op in ops:
        if op[0] == "S":
            out += ["S", str(op[1])]
        elif op[0] == "R":
            out += ["R", str(op[1]), text(op[2])]
        else:
            out += ["M", str(op[1]), str(len(op[2]))] + [text(b) for b in op[2]]
    return " ".join(out)


BASE = 0x10000
# the first kinds without payload are spelled by characters of all sorts
SPECIAL = [0x20, 0x61, 0x0A, 0x24, 0x00, 0x30, 0x3B5, 0xFEFF, 0x85, 0x10FFFF]


def spell(t):
    """Character of a terminal with payload."""
    k = -t - 1
    return SPECIAL[k // 256] if k % 256 == 0 and k // 256 < len(SPECIAL) else BASE + k


def grammar_line(i, ops, inputs, fluent=0, flags=3):
    """inputs: lists of terminals encoded as in bodies."""
    ins = [[spell(t) for t in inp] for inp in inputs]
    return " ".join(["G", str(i), str(fluent), str(flags), ops_words(ops),
                     str(len(ins))] + [text(x) for x in ins])


def pipeline_line(i, ops, rules, inputs):
    """inputs: list of (calls of the lexer before it is parsed from, text)."""
    return " ".join(["P", str(i), ops_words(ops), str(len(rules))] +
                    [f"{k} {text(p)}" for k, p in rules] +
                    [str(len(inputs))] + [f"{k} {text(x)}" for k, x in inputs])
