"""Running TLC: exhaustive model checking of a specification, and validation of recorded traces."""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HOME = Path(os.environ["VERIF_HOME"])
SCRATCH = Path(os.environ["VERIF_SCRATCH"])
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


_classes = None


def classes() -> Path:
    """Compile the Java module overrides (about one second) into the scratch directory."""
    global _classes
    if _classes is None:
        out = SCRATCH / "classes"
        out.mkdir(exist_ok=True)
        subprocess.run(
            ["javac", "-nowarn", "-cp", JARS, "-d", str(out), *map(str, (HOME / "java").glob("*.java"))],
            check=True, capture_output=True, text=True,
        )
        _classes = out
    return _classes


def _java(heap="3g"):
    return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", f"-Xmx{heap}", f"-Djava.io.tmpdir={SCRATCH}",
            "-cp", f"{classes()}:{JARS}", f"-DTLA-Library={HOME / 'spec'}"]


_n = [0]


def _rundir(tag):
    _n[0] += 1
    d = SCRATCH / f"tlc{_n[0]}_{tag}"
    d.mkdir()
    return d


def _stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def model_check(module, cfg=None, workers=4, heap="8g", timeout=800, env=None, simulate=None, depth=None):
    """Exhaustively check spec/<module>.tla with spec/<cfg or module>.cfg.

    Returns dict(ok, states, transitions, output).  Any TLC problem other than a property violation raises."""
    d = _rundir(module)
    cmd = _java(heap) + ["tlc2.TLC", "-config", str(HOME / "spec" / f"{cfg or module}.cfg"), "-metadir", str(d / "meta"),
                         "-workers", str(workers), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", f"num={simulate}"] + (["-depth", str(depth)] if depth else [])
    cmd.append(str(HOME / "spec" / f"{module}.tla"))
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
    out = p.stdout + p.stderr
    gen, dist = _stats(out)
    if p.returncode == 0:
        return dict(ok=True, states=dist, transitions=gen, output=out, wall=time.time() - t0, module=module)
    if p.returncode in (10, 11, 12, 13):
        return dict(ok=False, states=dist, transitions=gen, output=out, wall=time.time() - t0, module=module)
    raise TlcError(f"TLC failed on {module} (exit {p.returncode}):\n{out[-6000:]}")


_BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(\{.*?\})\s*>>', re.S)
_COV = re.compile(r'<<\s*"COV",\s*(\{.*?\}|<<.*?>>)\s*>>', re.S)


def _validate_chunk(args):
    """Decide the events of one chunk.  An event whose values are not even of the kind the specification speaks about (a result
    that is missing, a text where a number belongs) stops TLC: it is rejected, and the rest is decided without it."""
    module, events, k, timeout, heap = args
    bad, gen, dist, at = [], 0, 0, 0
    deadline = time.time() + timeout
    while at < len(events):
        b, g, s, stopped, out = _run_chunk(module, events[at:], f"{k}_{at}", max(1, deadline - time.time()), heap)
        bad += [(at + i, c) for i, c in b]
        gen, dist = gen + g, dist + s
        if stopped is None:
            break
        bad.append((at + stopped, [CANNOT]))
        at += stopped + 1
        if len([1 for _, c in bad if c == [CANNOT]]) >= 4:      # enough to see what is wrong
            break
    return bad, gen, dist


CANNOT = "the record cannot be evaluated"


def _run_chunk(module, events, tag, timeout, heap):
    d = _rundir(f"{module}_{tag}")
    path = d / "trace.ndjson"
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    (d / "T.cfg").write_text("INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n")
    cmd = _java(heap) + ["tlc2.TLC", "-config", str(d / "T.cfg"), "-metadir", str(d / "meta"), "-workers", "1",
                         "-noGenerateSpecTE", str(HOME / "spec" / f"{module}.tla")]
    e = dict(os.environ)
    e["TRACE"] = str(path)
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
    out = p.stdout + p.stderr
    stopped = None
    if p.returncode != 0:
        at = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)]
        if p.returncode not in (75, 76, 77) or not at or not 1 <= at[-1] <= len(events):
            raise TlcError(f"TLC could not evaluate the trace with {module} (exit {p.returncode}):\n{out[-8000:]}")
        stopped = at[-1] - 1
    gen, dist = _stats(out)
    if stopped is None and dist != len(events) + 1:
        raise TlcError(f"TLC consumed {dist - 1} of {len(events)} events of the trace with {module}\n{out[-4000:]}")
    bad = []
    for m in _BAD.finditer(out):
        bad.append((int(m.group(1)) - 1, sorted(set(re.findall(r'"([^"]*)"', m.group(2))))))
    path.unlink()
    return bad, gen, dist, stopped, out


def validate(module, events, chunks=None, timeout=840, heap="3g"):
    """Have TLC decide every recorded event with the trace specification spec/<module>.tla.

    The verdict is total: each event yields the set of failing clauses, printed by TLC as <<"BAD", i, {...}>>.
    Returns (list of (event index, [clauses]), generated, distinct)."""
    if not events:
        return [], 0, 0
    classes()
    chunks = chunks or min(8, max(1, len(events) // 50))
    parts = [list(range(k, len(events), chunks)) for k in range(chunks)]
    jobs = [(module, [events[i] for i in idx], k, timeout, heap) for k, idx in enumerate(parts)]
    bad, gen, dist = [], 0, 0
    with ThreadPoolExecutor(len(jobs)) as ex:
        for idx, (b, g, s) in zip(parts, ex.map(_validate_chunk, jobs)):
            bad += [(idx[i], c) for i, c in b]
            gen += g
            dist += s
    return sorted(bad), gen, dist
