"""The checks: ./check C01 [--tier quick|thorough] [--replay FILE]"""
import argparse, json, os, random, sys, time, traceback
from . import build, directed, findings, gen, profiles, run, checks, tlc
from .run import Episode

VERIF = tlc.VERIF
MAX_REPORTS = 5

# --------------------------------------------------------------- what an
# unexpected event means.  An event is a violation of the property only if it
# is of a kind that the property speaks about.
RESULT, CRASH, REJECTED, ACCEPTED, EXCEPTION, MESSAGE, SHAPE = \
    "result", "crash", "valid template rejected", "invalid template accepted", "wrong exception", "message", "shape"
PRINTED, FAILURE, WHOLE, BINDING = "htmlext output", "htmlext failure", "htmlext input", "binding"
DEFAULT = {RESULT, CRASH, REJECTED, SHAPE}
CLAIMS = {
    "C18": {CRASH, PRINTED},
    "C19": {CRASH, FAILURE, WHOLE},
    "C20": {CRASH, BINDING},
    "C12": {CRASH, REJECTED, ACCEPTED, EXCEPTION},
    "C14": {CRASH, MESSAGE},
}


def parse_kind(exp, out):
    if exp["out"] == "ok":
        return REJECTED
    if out["out"] == "ok":
        return ACCEPTED
    return EXCEPTION if out["out"] == "other" else MESSAGE


def kinds(event, expected):
    """[(kind, description)]"""
    if event.get("out") in ("crash", "hang", "race"):
        return [(CRASH, "%s during %s: %s" % (event["out"], event["op"], event.get("what", "")[:400]))]
    exp = json.loads(expected)
    if event["op"] == "parse":
        return [(parse_kind(exp, event), "template %r: expected %s, got %s" % (bytes(event["src"]), show(exp), show(
            {"out": event["out"], "msg": event["msg"]})))]
    if event["op"] == "probe":
        res = []
        for x in exp:
            o = event["outs"][x["i"] - 1]
            res.append((parse_kind(x["exp"], o), "template %r: expected %s, got %s"
                        % (bytes(event["pre"] + event["sufs"][x["i"] - 1]), show(x["exp"]), show(o))))
        return res
    if event["op"] == "cli":
        text = "htmlext %s: expected %s; got status %s, stdout %s, stderr %s" % (
            show([{k: v for k, v in t.items()} for t in event["toks"]]), show(exp), event["code"], show(event["stdout"]), show(event["stderr"]))
        res = [(FAILURE if exp["fail"] or exp["lint"] or event["code"] else PRINTED, text)]
        if not exp["fail"] and event.get("whole"):
            res.append((WHOLE, text))
        if event["code"] and not exp["fail"]:
            res.append((PRINTED, text))
        return res
    if event["op"].startswith("b-"):
        return [(BINDING, "%s %s: expected %s, got %s" % (event["lang"], event["op"], show(exp), show(
            {k: event[k] for k in ("src", "out", "msg", "maps", "max") if k in event})))]
    if event["op"] == "doc":
        raise RuntimeError("the document is not well-formed")
    got = {k: event[k] for k in ("out", "groups", "res", "shape", "dom", "min", "below") if k in event}
    return [(RESULT, "%s: expected %s, got %s" % (event["op"], show(exp), show(got)))]


def show(x, limit=700):
    """Readable: lists of bytes as text."""
    def conv(v):
        if isinstance(v, list):
            if v and all(isinstance(c, int) and not isinstance(c, bool) for c in v):
                return bytes(c & 255 for c in v).decode("utf-8", "backslashreplace")
            return [conv(c) for c in v]
        if isinstance(v, dict):
            return {k: conv(c) for k, c in v.items()}
        return v
    s = json.dumps(conv(x), ensure_ascii=True)
    return s if len(s) <= limit else s[:limit] + "..."


def show_cmd(c):
    d = dict(c)
    for k in ("src", "html", "pre"):
        if k in d:
            d[k] = bytes(d[k]).decode("utf-8", "backslashreplace")
    for k in ("stdout", "stderr"):
        if k in d:
            d[k] = bytes(d[k]).decode("utf-8", "backslashreplace")[:2000]
    for k in ("sufs", "outs", "dom", "args", "toks", "files"):
        if k in d and len(json.dumps(d[k])) > 300:
            d[k] = "(%d)" % len(d[k])
    return d


class Enough(Exception):
    """Violations have been found; looking for more is not worth the time."""


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.detail, self.samples, self.violations, self.known = [], [], [], []
        self.assumptions = []
        self.builds = {}
        self.other = 0       # rejections that are another property's business

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, s):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, s), flush=True)

    def built(self, variant="plain", bindings=False):
        k = (variant, bindings)
        if k not in self.builds:
            self.builds[k] = build.build(variant, bindings)
            self.log("built " + variant + ("+bindings" if bindings else ""))
        return self.builds[k]

    def rng(self, name):
        return gen.G("%s/%s/%s" % (self.seed, self.prop, name))

    # ---- the specification itself
    def model(self, module, cfg=None, timeout=1500, workers=run.JOBS, heap="8g", env=None, args=()):
        self.enough()
        r = tlc.run(module, cfg or module + ".cfg", workers=workers, heap=heap, timeout=timeout, env=env, args=args)
        self.count(r)
        self.log("TLC %s %s: %d states, %.1fs" % (module, cfg or "", r["states"], r["wall"]))
        self.detail.append({"model": module, "config": cfg or module + ".cfg", "states": r["states"],
                            "transitions": r["transitions"], "wall_s": round(r["wall"], 1)})
        if not r["ok"]:
            raise RuntimeError("TLC on %s: %s\n%s" % (module, r["violated"], r["output"][-3000:]))
        return r

    def count(self, r):
        self.states += r["states"]
        self.transitions += r["transitions"]

    # ---- the implementation against the specification
    def episodes(self, name, eps, variant="plain", env=None, timeout=60, batch=1500, hosts=None):
        """Runs the episodes and has TLC check the traces.  hosts: None, "cli" or "bindings"."""
        self.enough()
        paths = self.built(variant, hosts == "bindings") if hosts else None
        driver = self.built(variant, hosts == "bindings")["driver"]
        for k in range(0, len(eps), batch):
            part = eps[k:k + batch]
            res = run.run(driver, part, env=env, sanitized=variant != "plain", timeout=timeout, paths=paths)
            self.states += res.states
            self.transitions += res.states - res.episodes
            self.traces += res.episodes
            self.log("%s: %d episodes, %d events, %d rejected, %.1fs %s"
                     % (name, res.episodes, res.events, len(res.rejections), res.wall, res.outs))
            self.detail.append({"traces": name, "variant": variant, "episodes": res.episodes, "events": res.events,
                                "by_op": res.ops, "by_outcome": res.outs, "wall_s": round(res.wall, 1)})
            if len(self.samples) < 3 and res.sample:
                self.samples.append({"traces": name, "trace": [show_cmd(e) for e in res.sample][:12]})
            self.judge(name, res, driver, variant, env, timeout, hosts)
            if len(self.violations) >= MAX_REPORTS:
                break

    def judge(self, name, res, driver, variant, env, timeout, hosts=None):
        claims = CLAIMS.get(self.prop, DEFAULT)
        seen = set()
        # where the library itself departs from the specification, its users are not to blame
        library = {id(r.episode) for r in res.rejections if r.event["op"] not in run.hosts.OPS} if hosts else ()
        for rej in res.rejections:
            if id(rej.episode) in library:
                self.other += 1
                continue
            ks = [d for k, d in kinds(rej.event, rej.expected) if k in claims]
            if not ks:
                self.other += 1
                continue
            if id(rej.episode) in seen or len(self.violations) >= MAX_REPORTS:
                continue
            seen.add(id(rej.episode))
            ep = self.confirm(rej, driver, variant, env, timeout, claims, hosts)
            if ep is None:
                self.log("NOT REPEATED: " + ks[0])
                continue
            self.violation(ks[0], {"kind": "session", "variant": variant, "hosts": hosts, "env": env or {}, "commands": ep,
                                   "rejected": show_cmd(rej.event)})

    def confirm(self, rej, driver, variant, env, timeout, claims, hosts=None):
        """The episode again (threads: several times), and as short as possible."""
        def fails(ep):
            r = run.run(driver, [Episode(ep)], env=env, sanitized=variant != "plain", timeout=2 * timeout, jobs=1,
                        paths=self.built(variant, hosts == "bindings") if hosts else None)
            return any(k in claims for x in r.rejections for k, _ in kinds(x.event, x.expected))
        par = any(c["op"] == "par" for c in rej.episode)
        ep = list(rej.episode)
        if not any(fails(ep) for _ in range(20 if par else 1)):
            # seen once in a run with threads: the recorded trace is evidence by itself
            return ep if par and rej.event.get("out") != "hang" else None
        return ep

    def violation(self, text, data):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(dict(data, property=self.prop, what=text), f, indent=1)
        self.violations.append(text)
        print("  " + text)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.enough()

    def enough(self):
        if len(self.violations) >= MAX_REPORTS or (self.violations and time.time() - self.t0 > 240):
            raise Enough()

    def finding(self, text):
        self.known.append(text)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)

    def evidence(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["-"],
               "runs": self.detail, "rejections_of_other_properties": self.other, "known_findings": self.known}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": self.assumptions + checks.TRUSTED,
                       "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    ctx = Context(a.property, a.tier, a.seed)
    if a.replay:
        return replay(ctx, a.replay)
    try:
        try:
            checks.CHECKS[a.property](ctx)
            findings.check(ctx)
        except Enough:
            pass
    except build.BuildError as e:
        print("cannot build: %s" % e)
        return 2
    ctx.evidence()
    ctx.log("%d violations, %d states, %d traces" % (len(ctx.violations), ctx.states, ctx.traces))
    return 1 if ctx.violations else 0


def replay(ctx, path):
    with open(path) as f:
        data = json.load(f)
    if data["kind"] != "session":
        return checks.replay(ctx, data)
    hosts = data.get("hosts")
    paths = ctx.built(data["variant"], hosts == "bindings")
    d = paths["driver"]
    for c in data["commands"]:
        print(json.dumps(show_cmd(c)))
    res = run.run(d, [Episode(data["commands"])], env=data["env"], sanitized=data["variant"] != "plain",
                  paths=paths if hosts else None)
    bad = 0
    for x in res.rejections:
        for k, text in kinds(x.event, x.expected):
            print("%s: %s" % (k, text))
            bad += k in CLAIMS.get(ctx.prop, DEFAULT)
    if bad:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    return 1 if bad else 0
