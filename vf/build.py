"""Builds the code under test from /repo's working tree, outside of /repo.

Every variant lives in /verif/build/<variant>-<hash of sources>; a finished
build is reused only if the sources are byte for byte the same."""
import hashlib, os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HEXT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, LC_ALL="C.UTF-8", CC="gcc", CXX="g++")

FLAGS = {
    "plain": "",
    "asan": "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer",
}


class BuildError(Exception):
    pass


def source_files():
    skip = {"_build", ".git", "test", "blackbox", "examples"}
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in skip and not d.startswith("build"))
        for f in sorted(files):
            if f.endswith((".cpp", ".h", ".txt", ".cmake", ".in", ".rl", ".i", ".py", ".rb")):
                out.append(os.path.join(base, f))
    return out


def digest(extra=()):
    h = hashlib.sha256()
    for f in list(source_files()) + list(extra):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def sh(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if p.returncode:
        sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
        raise BuildError("%s failed: %s" % (what, " ".join(cmd)))


def build(variant="plain", bindings=False, cli=True):
    """Returns a dict of paths: dir, driver, htmlext, prefix, python, ruby, php."""
    driver_src = os.path.join(VERIF, "harness", "driver.cpp")
    name = variant + ("-bind" if bindings else "")
    d = os.path.join(BUILD, "%s-%s" % (name, digest([driver_src])))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "done")):
            for old in os.listdir(BUILD):
                if old.startswith(name + "-") and not old.startswith(variant + "-bind-") == (not bindings):
                    shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            _build(d, variant, bindings, driver_src)
            open(os.path.join(d, "done"), "w").close()
    return {
        "dir": d, "driver": os.path.join(d, "driver"), "htmlext": os.path.join(d, "main", "htmlext"),
        "python": os.path.join(d, "python"), "ruby": os.path.join(d, "ruby"), "php": os.path.join(d, "php"),
    }


def _build(d, variant, bindings, driver_src):
    flags = FLAGS[variant]
    main, prefix = os.path.join(d, "main"), os.path.join(d, "prefix")

    def lib():
        sh(["cmake", "-S", REPO, "-B", main, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_SHARED_LIBS=ON",
            "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_INSTALL_PREFIX=" + prefix, "-DCMAKE_INSTALL_LIBDIR=lib"],
           "configuring")
        sh(["ninja", "-C", main], "building libhext and htmlext")

    def obj():
        sh(["g++", "-std=c++17", "-O1", "-g", "-pthread"] + flags.split() +
           ["-I" + os.path.join(REPO, "libhext", "include"), "-c", driver_src, "-o", os.path.join(d, "driver.o")],
           "compiling the driver")

    def bind(lang):
        b = os.path.join(d, lang)
        cmd = ["cmake", "-S", os.path.join(REPO, "libhext", "bindings", lang), "-B", b, "-G", "Ninja",
               "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_PREFIX_PATH=" + prefix, "-DSWIG_USE_SWIG_DEPENDENCIES=ON"]
        if lang == "python":
            cmd.append("-DPython3_EXECUTABLE=/usr/bin/python3")
        sh(cmd, "configuring " + lang)
        sh(["ninja", "-C", b], "building " + lang)

    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(obj), ex.submit(lib)]
        for f in fs:
            f.result()
        sh(["g++"] + flags.split() + ["-pthread", os.path.join(d, "driver.o"), "-o", os.path.join(d, "driver"),
            "-L" + os.path.join(main, "libhext"), "-lhext", "-lgumbo", "-lboost_regex",
            "-Wl,-rpath," + os.path.join(main, "libhext")], "linking the driver")
        os.remove(os.path.join(d, "driver.o"))
        if bindings:
            sh(["cmake", "--install", main], "installing")
            for f in [ex.submit(bind, l) for l in ("python", "ruby", "php")]:
                f.result()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v.replace("-bind", ""), v.endswith("-bind"))["dir"])
