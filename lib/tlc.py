"""Runs TLC on the modules of this directory."""
import os, re, subprocess, tempfile, shutil
from harness import VERIF, BUILD, ToolError

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIBS = [os.path.join(VERIF, d) for d in ("spec", "trace", "mc", "gen")]


def run(module, cfg=None, env=None, workers=6, timeout=600, heap="6g", extra=(), ok_codes=(0,)):
    """Returns (output, stats). Raises ToolError unless TLC finished cleanly."""
    path = next((os.path.join(d, module + ".tla") for d in LIBS
                 if os.path.exists(os.path.join(d, module + ".tla"))), None)
    if path is None:
        raise ToolError("no module " + module)
    cfg = cfg or path[:-4] + ".cfg"
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + meta,
               "-DTLA-Library=" + os.pathsep.join(LIBS),
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg, *extra, path]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        stats = {"transitions": int(m[-1][0]) if m else 0, "states": int(m[-1][1]) if m else 0,
                 "code": p.returncode}
        if p.returncode not in ok_codes:
            raise ToolError(f"TLC failed on {module} (exit {p.returncode}):\n{out[-3000:]}")
        return out, stats
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def verdicts(out):
    """VERDICT lines of a trace module: {tid: (phase, detail)}."""
    res = {}
    for m in re.finditer(r'<<"VERDICT", (\d+), "(\w+)", ([^>]*)>>', out):
        res[int(m.group(1))] = (m.group(2), m.group(3).strip())
    return res
