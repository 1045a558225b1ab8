"""Runs TLC."""
import json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def java(heap):
    return ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC", "-cp", CP]


def run(module, cfg, env=None, workers=1, heap="3g", args=(), timeout=3000, scratch=None, lines=None):
    """Runs TLC.  Returns {states, transitions, lines, ok, output}; `lines` is
    called with every line printed by the specification."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch)
    cmd = java(heap) + ["tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-metadir", meta, "-config", cfg,
                        "-workers", str(workers)] + list(args) + [module + ".tla"]
    t = time.time()
    printed, tail = [], []
    p = subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT)
    res = {"states": 0, "transitions": 0, "ok": False, "violated": None}
    try:
        for raw in p.stdout:
            line = raw.decode(errors="replace").rstrip("\n")
            if line.startswith('"') and line.endswith('"'):
                s = json.loads(line)
                if lines:
                    lines(s)
                else:
                    printed.append(s)
                continue
            tail.append(line)
            if len(tail) > 300:
                del tail[100:200]
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                res["transitions"], res["states"] = int(m.group(1)), int(m.group(2))
            m = re.match(r"Error: (?:Invariant|Action property|Temporal properties?) ?(\S*)", line)
            if m:
                res["violated"] = m.group(1) or line
            if "Model checking completed. No error has been found." in line:
                res["ok"] = True
            if line.startswith("The number of states generated:"):
                res["transitions"] = res["states"] = int(line.split(":")[1])
            if time.time() - t > timeout:
                p.kill()
        p.wait()
    finally:
        if p.poll() is None:
            p.kill()
        shutil.rmtree(meta, ignore_errors=True)
    res["lines"], res["output"], res["rc"], res["wall"] = printed, "\n".join(tail), p.returncode, time.time() - t
    return res
