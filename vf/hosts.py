"""Runs the commands of scenarios that are not the driver's: htmlext and the bindings."""
import json, os, pty, resource, select, shutil, subprocess, tempfile, termios, threading, time, tty

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
OPS = {"cli", "b-rule", "b-html", "b-extract", "b-free", "b-misuse"}


resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


# ------------------------------------------------------------------ htmlext
def cli(htmlext, c, scratch):
    """c: files [{name, st, src}], args (byte lists), tty, toks."""
    d = tempfile.mkdtemp(dir=scratch)
    stdin = b""
    try:
        for f in c["files"]:
            p = os.path.join(os.fsencode(d), bytes(f["name"]))
            if f["st"] == "ok":
                if bytes(f["name"]) == b"-":
                    stdin = bytes(f["src"])
                    continue
                with open(p, "wb") as fh:
                    fh.write(bytes(f["src"]))
            elif f["st"] == "dir":
                os.mkdir(p)
            elif f["st"] == "loop":
                os.symlink(os.path.basename(p), p)
            elif f["st"] == "under":
                open(os.path.join(d, "plain"), "w").close()
        argv = [os.fsencode(htmlext)] + [bytes(a) for a in c["args"]]
        e = {k: c[k] for k in ("op", "id", "toks", "tty")}
        if "whole" in c:
            e["whole"] = c["whole"]
        e["sink"] = c.get("sink", "ok")
        used = {t["f"] for t in c["toks"] if "f" in t}
        # only what the templates are read from is needed
        tm = {t["f"] for t in c["toks"] if t["k"] in ("x", "pos")}
        e["files"] = [dict(name=f["name"], st=f["st"], src=f["src"] if i + 1 in tm else []) for i, f in enumerate(c["files"])]
        try:
            if c["tty"]:
                rc, out, err = with_tty(argv, d, stdin)
            elif e["sink"] != "ok":
                with open("/dev/full", "wb") as full:
                    p = subprocess.run(argv, cwd=d, input=stdin, stdout=full, stderr=subprocess.PIPE, timeout=20,
                                       preexec_fn=(lambda: os.close(1)) if e["sink"] == "closed" else None)
                rc, out, err = p.returncode, b"", p.stderr
            else:
                rc, out, err = in_pieces(argv, d, stdin)
        except subprocess.TimeoutExpired:
            return dict(e, out="hang", what="htmlext")
        if rc < 0 or rc > 125:
            return dict(e, out="crash", what=err.decode(errors="replace")[-600:], code=rc)
        return dict(e, code=rc, stdout=list(out), stderr=list(err))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def in_pieces(argv, d, stdin):
    """Standard input comes slowly."""
    p = subprocess.Popen(argv, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        cut = len(stdin) // 3
        if cut and cut < 4096:
            p.stdin.write(stdin[:cut])
            p.stdin.flush()
            time.sleep(0.03)
            stdin = stdin[cut:]
        out, err = p.communicate(stdin, timeout=20)
    except BrokenPipeError:
        out, err = p.communicate(timeout=20)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise
    return p.returncode, out, err


def with_tty(argv, d, stdin):
    """Standard output is a terminal."""
    m, s = pty.openpty()
    tty.setraw(s)
    p = subprocess.Popen(argv, cwd=d, stdin=subprocess.PIPE, stdout=s, stderr=subprocess.PIPE, preexec_fn=limits)
    os.close(s)
    out = bytearray()

    def pump():
        while True:
            try:
                b = os.read(m, 65536)
            except OSError:
                return
            if not b:
                return
            out.extend(b)
    t = threading.Thread(target=pump)
    t.start()
    try:
        _, err = p.communicate(stdin, timeout=20)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise
    finally:
        t.join()
    os.close(m)
    return p.returncode, bytes(out), err


# ------------------------------------------------------------- the bindings
class Host:
    """An interpreter that executes b-* commands."""
    def __init__(self, paths, lang, scratch):
        self.log = open(os.path.join(scratch, "host-%s-%d" % (lang, id(self))), "w+b")
        env = dict(os.environ, LC_ALL="C.UTF-8")
        if lang == "python":
            cmd = ["/usr/bin/python3", os.path.join(HARNESS, "host.py")]
            env["PYTHONPATH"] = paths["python"]
            env["PYTHONDONTWRITEBYTECODE"] = "1"
        elif lang == "ruby":
            cmd = ["ruby", "-I", paths["ruby"], os.path.join(HARNESS, "host.rb")]
        else:
            cmd = ["php", "-n", "-d", "display_errors=stderr", "-d", "extension=" + os.path.join(paths["php"], "hext.so"), os.path.join(HARNESS, "host.php")]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=env, preexec_fn=limits)

    def ask(self, c, timeout=20):
        """The event, or None if the interpreter has died, or "hang"."""
        try:
            self.p.stdin.write(json.dumps(c).encode() + b"\n")
            self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                self.p.kill()
                return "hang"
            line = self.p.stdout.readline()
            return json.loads(line) if line.endswith(b"\n") else None
        except (BrokenPipeError, ValueError):
            return None

    def close(self):
        try:
            self.p.stdin.close()
            rc = self.p.wait(timeout=20)
        except (subprocess.TimeoutExpired, BrokenPipeError):
            self.p.kill()
            rc = self.p.wait()
        self.log.seek(0)
        err = self.log.read().decode(errors="replace")[-1500:]
        self.log.close()
        self.p.stdout.close()
        return rc, err


def execute(paths, episodes, scratch):
    """The events of all commands in OPS: one list per episode."""
    out, hosts = [], {}
    hangs = 0
    try:
        for ep in episodes:
            evs = []
            if hangs >= 3:       # nothing more to be learnt
                out.append(evs)
                continue
            for h in list(hosts):
                if hosts[h].ask({"op": "reset"}) is None:
                    hosts.pop(h).close()
            for i, c in enumerate(ep):
                c = dict(c, id=i)
                if c["op"] == "cli":
                    evs.append(cli(paths["htmlext"], c, scratch))
                    if evs[-1].get("out") == "hang":
                        hangs += 1
                        break
                elif c["op"] in OPS:
                    lang = c["lang"]
                    if lang not in hosts:
                        hosts[lang] = Host(paths, lang, scratch)
                    e = hosts[lang].ask(c)
                    if e is None or e == "hang":
                        rc, err = hosts.pop(lang).close()
                        hangs += e == "hang"
                        e = dict({k: c[k] for k in c if k not in ("html",)}, out="hang" if e else "crash", what="status %s: %s" % (rc, err))
                        evs.append(e)
                        break
                    evs.append(e)
            out.append(evs)
    finally:
        for h in hosts.values():
            h.close()
    return out
