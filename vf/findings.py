"""Known findings: genuine defects that are recorded, not repaired."""
import os, resource, signal, subprocess, tempfile
from . import run
from .run import Episode

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")


def stack():
    """The usual stack."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, hard))


def dies(cmd, **env):
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, preexec_fn=stack,
                           env=dict(os.environ, **env))
    except (subprocess.TimeoutExpired, ValueError, OSError):
        return False
    return r.returncode == -signal.SIGSEGV


def check(ctx):
    """Prints the known findings of the property that still show."""
    if ctx.prop == "C04":
        # F6: after a group of optional rules only, the search of the sibling
        # list ends if the last rule of the template matched nothing.
        e = Episode().doc(1, "<a id=1></a><i>k</i><a id=2></a>").parse(1, "<?a id:x/><?b id:y/>").extract(1, 1)
        r = run.run(ctx.built()["driver"], [e], keep=True)
        last = r.all[0][-1]
        if last.get("out") == "ok" and len(last["groups"]) == 1:
            ctx.finding("<?a id:x/><?b id:y/> on <a id=1></a><i>k</i><a id=2></a> yields only the first of two groups")
    if ctx.prop == "C12":
        # rules are destroyed recursively
        with tempfile.NamedTemporaryFile(suffix=".hext") as f:
            f.write(b"<a>" * 100000 + b"</a>" * 100000)
            f.flush()
            if dies([ctx.built()["htmlext"], "-l", "-x", f.name]):
                ctx.finding("a template of 100000 rules, each a child of the one before, overflows the stack when its rule is destroyed")
    if ctx.prop == "C20":
        # documents are searched recursively
        code = "import hext; n = 60000; hext.Rule('<b @text:t/>').extract(hext.Html('<div>' * n + '<b>x</b>' + '</div>' * n))"
        if dies(["/usr/bin/python3", "-c", code], PYTHONPATH=ctx.built(bindings=True)["python"], PYTHONDONTWRITEBYTECODE="1"):
            ctx.finding("a document of 60000 nested elements overflows the stack of the interpreter during the extraction")
