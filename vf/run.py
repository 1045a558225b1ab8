"""Scenarios: command lists that the driver executes against the real library,
and whose recorded events TLC then checks against the specification."""
import json, os, resource, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import hosts, tlc

JOBS = min(8, os.cpu_count() or 1)
CHUNK_BYTES = 24 << 20     # size of a trace file given to one TLC run


def b(s):
    """Text or bytes as a list of byte values."""
    return list(s.encode("utf-8") if isinstance(s, str) else s)


class Episode(list):
    """The commands of one scenario; the state is reset before it."""
    def __init__(self, cmds=(), note=None):
        super().__init__(cmds)
        self.note = note

    def do(self, op, **kw):
        self.append(dict(op=op, **kw))
        return self

    def doc(self, d, html, **kw):
        return self.do("doc", d=d, html=b(html), **kw)

    def parse(self, r, src, **kw):
        return self.do("parse", r=r, src=b(src), **kw)

    def extract(self, r=1, d=1, n=1, max=0):
        return self.do("extract", r=r, d=d, n=n, max=max)


class Rejection:
    def __init__(self, episode, event, expected, events):
        self.episode, self.event, self.expected, self.events = episode, event, expected, events


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_memory():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def drive(driver, episodes, workdir, env=None, timeout=60, sanitized=False):
    """Runs the episodes; returns the list of events (one list per episode)."""
    out = [[] for _ in episodes]
    start = 0
    k = hangs = 0
    while start < len(episodes):
        k += 1
        cin, cout = os.path.join(workdir, "c%d" % k), os.path.join(workdir, "e%d" % k)
        with open(cin, "w") as f:
            for n in range(start, len(episodes)):
                f.write(json.dumps({"op": "reset", "ep": n}) + "\n")
                for i, c in enumerate(episodes[n]):
                    f.write(json.dumps(dict(c, id=i), separators=(",", ":")) + "\n")
        hung = False
        log = open(os.path.join(workdir, "stderr%d" % k), "wb")
        try:
            rc = subprocess.run([driver, cin, cout], stderr=log, stdout=log, timeout=timeout,
                                preexec_fn=limits if sanitized else limits_memory,
                                env=dict(os.environ, **(env or {}))).returncode
        except subprocess.TimeoutExpired:
            rc, hung = -1, True
        log.close()
        if rc == 3:
            raise RuntimeError("the driver rejects its input: " + open(log.name).read()[-500:])
        last = start
        with open(cout, "rb") as f:
            for line in f:
                try:
                    e = json.loads(line)
                except ValueError:
                    break      # the line that was being written when it died
                if e["op"] == "reset":
                    last = e["ep"]
                    out[last] = []
                out[last].append(e)
        os.remove(cin), os.remove(cout)
        if rc == 0:
            break
        done = max([e.get("id", -1) for e in out[last]] + [-1])
        cmd = dict(episodes[last][min(done + 1, len(episodes[last]) - 1)])
        err = open(log.name, errors="replace").read()
        race = "ThreadSanitizer: data race" in err
        cmd.update(out="hang" if hung else "race" if race else "crash", what=err[-3000:])
        cmd.pop("html", None)
        out[last].append(cmd)
        start = last + 1
        hangs += 3 if hung else 1
        if hangs >= 12:
            break      # enough is known
    return out


def check_traces(traces, workdir, name, module="Trace", cfg="Trace.cfg", env=None, workers=JOBS, heap="10g"):
    """TLC on traces.  Returns [(trace number, event number, expected)], states."""
    path = os.path.join(workdir, name + ".ndjson")
    with open(path, "w") as f:
        for evs in traces:
            f.write(json.dumps(evs, separators=(",", ":")) + "\n")
    r = tlc.run(module, cfg, env=dict(env or {}, TRACE_IN=path), heap=heap, scratch=workdir, workers=workers)
    rej = []
    for s in r["lines"]:
        if s.startswith("REJECTED "):
            _, n, i, exp = s.split(" ", 3)
            rej.append((int(n) - 1, int(i) - 1, exp))
    want = sum(len(evs) + 1 for evs in traces)
    if not r["ok"] or r["states"] != want:
        shutil.copy(path, "/tmp/failed-trace.ndjson")
        raise RuntimeError("TLC did not finish the traces %s (%d of %d states):\n%s"
                           % (name, r["states"], want, r["output"][-3000:]))
    os.remove(path)
    return sorted(set(rej)), r["states"]


class Result:
    def __init__(self):
        self.rejections, self.states, self.events, self.episodes, self.ops = [], 0, 0, 0, {}
        self.sample = None
        self.outs = {}
        self.wall = 0.0
        self.all = []


def run(driver, episodes, env=None, workdir=None, jobs=JOBS, keep=False, sanitized=False, timeout=60, paths=None):
    """Drives and checks all episodes in parallel."""
    t = time.time()
    res = Result()
    res.episodes = len(episodes)
    own = workdir is None
    workdir = workdir or tempfile.mkdtemp(prefix="verif.")
    try:
        n = min(jobs, len(episodes))
        chunks = [list(range(k, len(episodes), n)) for k in range(n)]

        def one(k):
            w = os.path.join(workdir, "w%d" % k)
            os.makedirs(w, exist_ok=True)
            eps = [episodes[i] for i in chunks[k]]
            if paths is None:
                evs = drive(driver, eps, w, env=env, sanitized=sanitized, timeout=timeout)
            else:       # the driver's commands, and those of htmlext or of a binding
                at = [[i for i, c in enumerate(ep) if c["op"] not in hosts.OPS] for ep in eps]
                mine = drive(driver, [Episode([ep[i] for i in a]) for ep, a in zip(eps, at)], w, env=env, timeout=timeout)
                other = hosts.execute(paths, eps, w)
                evs = []
                for a, m, o in zip(at, mine, other):
                    for e in m:
                        if "id" in e:
                            e["id"] = a[e["id"]]
                    evs.append(sorted(m + o, key=lambda e: e.get("id", -1)))
            shutil.rmtree(w, ignore_errors=True)
            return evs

        events = [None] * len(episodes)
        with ThreadPoolExecutor(jobs) as ex:
            for k, evs in enumerate(ex.map(one, range(n))):
                for i, ev in zip(chunks[k], evs):
                    events[i] = ev
        if keep:
            res.all = events
        part, size, parts = [], 0, []
        for i, ev in enumerate(events):
            s = sum(len(e.get("src", ())) + len(e.get("stdout", ())) + len(e.get("dom", ())) * 30 + 40 for e in ev) * 4
            if part and size + s > CHUNK_BYTES:
                parts.append(part)
                part, size = [], 0
            part.append(i)
            size += s
        if part:
            parts.append(part)
        for part in parts:
            mod = "CliTrace" if paths else "Trace"
            rej, states = check_traces([events[i] for i in part], workdir, "t", mod, mod + ".cfg")
            res.states += states
            for (k, j, exp) in rej:
                i = part[k]
                res.rejections.append(Rejection(episodes[i], events[i][j], exp, events[i]))
        for ep in events:
            res.events += len(ep)
            for e in ep:
                res.ops[e["op"]] = res.ops.get(e["op"], 0) + 1
                if "out" in e:
                    key = e["op"] + ":" + str(e["out"])
                    res.outs[key] = res.outs.get(key, 0) + 1
        cand = [ep for ep in events[:40] if len(ep) > 1 and len(json.dumps(ep)) < 5000]
        res.sample = max(cand or events[:1], key=len)
    finally:
        if own:
            shutil.rmtree(workdir, ignore_errors=True)
    res.wall = time.time() - t
    return res
