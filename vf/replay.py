"""Behaviours generated by TLC from the specification, replayed into the code:
the predicted outcome of every one is compared with what the code does.  A
difference is run again as an ordinary episode, which TLC then judges."""
import json, os, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import run, tlc
from .run import Episode, b

TAGS = {"a": b"div", "b": b"span", "*": b"*"}
MODS = {"m": b"", "o": b"?", "g": b"+", "og": b"?+"}


def text(v):
    return bytes(v).decode() if isinstance(v, list) else v


def generate(ctx, module, cfg, timeout=1500):
    """Runs a Gen module; returns (rules, list of generated records)."""
    ctx.enough()
    rules, gens = [], []

    def line(s):
        if s.startswith("RULES "):
            rules.append(json.loads(s[6:]))
        elif s.startswith("GEN "):
            gens.append(json.loads(s[4:]))
    r = tlc.run(module, cfg, workers=run.JOBS, heap="8g", timeout=timeout, lines=line)
    if not r["ok"]:
        raise RuntimeError("TLC on %s: %s\n%s" % (module, r["violated"], r["output"][-3000:]))
    ctx.count(r)
    ctx.detail.append({"model": module, "config": cfg, "states": r["states"], "transitions": r["transitions"],
                       "wall_s": round(r["wall"], 1)})
    ctx.log("TLC %s: %d behaviours, %.1fs" % (cfg, len(gens), r["wall"]))
    return (rules[0] if rules else None), gens


def cap(i, mode):
    """The capture of rule i: by name (0), or of one name for all rules (1)."""
    return b" i:%d? @strip-tags:s" % i if mode == 0 else b" i:prepend('%d.'):n?" % i


def result(groups, of, mode):
    """The expected result, if a pair (rule, node) captures of(node), or nothing."""
    out = []
    for g in groups:
        ps = []
        for i, n in g:
            v = of(n)
            if mode == 0:
                if v is not None:
                    ps.append(("%d" % i, v))
                ps.append(("s", ""))
            elif v is not None:
                ps.append(("n", "%d.%s" % (i, v)))
        ps.sort(key=lambda p: p[0])
        if ps:
            out.append([[b(k), b(v)] for k, v in ps])
    return out


def doc_matching(g):
    return b"<div>" + b"".join(b"<!---->" if t == "#" else b"<%s i=%d></%s>" % (TAGS[t], k + 1, TAGS[t])
                               for k, t in enumerate(map(text, g["L"]))) + b"</div>"


def tmpl_matching(q, mode):
    return b"".join(b"<" + MODS["o" * r[1] + "g" * r[2] or "m"] + TAGS[r[0]] + cap(j + 1, mode) + b"/>" for j, r in enumerate(q))


def doc_tree(g):
    T = [text(t) for t in g["T"]]
    kids = [[] for _ in T]
    for n, p in enumerate(g["P"]):
        if p:
            kids[p - 1].append(n)

    def ser(n):
        if T[n] == "#":
            return b"<!---->"
        t = TAGS[T[n]]
        return b"<%s i=%d>" % (t, n + 1) + b"".join(map(ser, kids[n])) + b"</%s>" % t
    return b"<div>" + ser(0) + b"</div>"


def tmpl_tree(q, mode):
    leaf = lambda r: b"<" + MODS[r["f"]] + TAGS[r["t"]] + cap(r["i"], mode) + b"/>"
    head = b"<" + MODS[q["f"]] + TAGS[q["t"]] + cap(0, mode)
    if not q["ch"] and not q["ne"]:
        return head + b"/>"
    return head + b">" + b"".join(map(leaf, q["ch"])) + (b"{" + b"".join(map(leaf, q["ne"])) + b"}" if q["ne"] else b"") \
        + b"</" + TAGS[q["t"]] + b">"


def grid(ctx, name, tmpls, docs, expect, limits=None):
    """All templates on all documents (from node 5 on).  expect(doc, template) is the
    predicted outcome; limits(doc) a list of limits."""
    driver = ctx.built()["driver"]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif.")
    bad = []
    try:
        per = (len(docs) + run.JOBS - 1) // run.JOBS

        def one(k):
            mine = range(k * per, min(len(docs), (k + 1) * per))
            ep = Episode()
            for j, t in enumerate(tmpls):
                ep.parse(j + 1, t)
            for n in mine:
                ep.doc(1, docs[n])
                ep.do("grid", d=1, n=5, doc=n, **({"max": limits(n)} if limits else {}))
            w = os.path.join(work, "g%d" % k)
            os.makedirs(w)
            evs = run.drive(driver, [ep], w, timeout=300)[0]
            shutil.rmtree(w)
            res = []
            for e in evs:
                if e["op"] == "grid" and "outs" in e:
                    for j, o in enumerate(e["outs"]):
                        x = expect(e["doc"], j)
                        if o["out"] != x["out"] or (x["out"] == "ok" and o["groups"] != x["groups"]):
                            res.append((e["doc"], j, o, x))
                elif e.get("out", "ok") != "ok":
                    res.append((e.get("doc"), (e["r"] - 1) if e["op"] == "parse" else None, e, {"out": "ok"}))
            return res, sum(len(e["outs"]) for e in evs if e["op"] == "grid" and "outs" in e)
        with ThreadPoolExecutor(run.JOBS) as ex:
            rs = list(ex.map(one, range(run.JOBS if docs else 0)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    done = sum(r[1] for r in rs)
    bad = [x for r in rs for x in r[0]]
    ctx.traces += done
    ctx.log("%s: %d behaviours replayed, %d differ, %.1fs" % (name, done, len(bad), time.time() - t0))
    ctx.detail.append({"replayed": name, "templates": len(tmpls), "documents": len(docs), "behaviours": done, "differ": len(bad)})
    if len(ctx.samples) < 3 and docs and tmpls:
        n, j = len(docs) * 2 // 3, len(tmpls) * 2 // 3
        ctx.samples.append({"replayed": name, "document": docs[n].decode(), "template": tmpls[j].decode(),
                            "predicted": repr(expect(n, j))[:600]})
    if not bad:
        if done != len(tmpls) * len(docs):
            raise RuntimeError("%d of %d behaviours were replayed" % (done, len(tmpls) * len(docs)))
        return
    eps = []
    for n, j, o, x in bad[:40]:
        e = Episode()
        ns = [n] if n is not None else range(0, len(docs), max(1, len(docs) // 8))
        js = [j] if j is not None else range(len(tmpls))
        for k, q in enumerate(js):
            e.parse(k + 1, tmpls[q])
        for m in ns:
            e.doc(1, docs[m])
            for k, q in enumerate(js):
                e.extract(k + 1, 1, 5, limits(m)[q] if limits else 0)
        eps.append(e)
    before = len(ctx.violations)
    ctx.episodes(name + ", differences", eps)
    if len(ctx.violations) == before and ctx.other == 0:
        raise RuntimeError("predicted and checked outcomes disagree: %r" % (bad[0],))


def matching(ctx, cfg, mode=0):
    rules, gens = generate(ctx, "GenMatching", cfg)
    gens = [g for g in gens if g["L"]]
    rules = [[(text(r[0]), r[1], r[2]) for r in q] for q in rules]
    of = lambda g: lambda n: None if text(g["L"][n - 1]) == "#" else "%d" % n
    grid(ctx, cfg, [tmpl_matching(q, mode) for q in rules], [doc_matching(g) for g in gens],
         lambda n, j: {"out": "ok", "groups": result(gens[n]["X"][j], of(gens[n]), mode)})


def tree(ctx, cfg, mode=0, limits=False):
    rules, gens = generate(ctx, "GenTree", cfg)
    tm = [tmpl_tree(q, mode) for q in rules]
    docs = [doc_tree(g) for g in gens]
    res = lambda n, j: result(gens[n]["X"][j]["g"], lambda m: "%d" % m, mode)
    if not limits:
        grid(ctx, cfg, tm, docs, lambda n, j: {"out": "ok", "groups": res(n, j)})
    else:   # one below the number of searches, exactly, one above, 1
        for k, lim in ((0, "exactly"), (1, "above"), (-1, "below"), (None, "one")):
            limit = lambda n, j: 1 if k is None else max(1, gens[n]["X"][j]["c"] + k)
            grid(ctx, cfg + " limit " + lim, tm, docs,
                 lambda n, j: {"out": "limit"} if gens[n]["X"][j]["c"] >= limit(n, j) else {"out": "ok", "groups": res(n, j)},
                 lambda n: [limit(n, j) for j in range(len(tm))])


def tour(ctx, cfg="GenParser.cfg"):
    """The transition tour of the template language: for every state of the parser
    machine and every byte, a text that must be accepted, or one that must not."""
    _, gens = generate(ctx, "GenParser", cfg)
    driver = ctx.built()["driver"]
    t0 = time.time()
    cmds, want = [], []
    for k, g in enumerate(gens):
        sufs = [x["c"] for x in g["good"]] + [g["c"][0] if g["c"] else [62], []]
        exp, by = ["s"] * 256, [len(sufs) - 1 - (c * 7 + k) % 2 for c in range(256)]
        for j, x in enumerate(g["good"]):
            for c in x["b"]:
                exp[c], by[c] = "a", j
        for c in g["skip"]:
            exp[c] = "?"
        cmds.append(dict(op="tour", k=k, pre=g["p"], sufs=sufs, by=by))
        want.append("".join(exp))
    work = tempfile.mkdtemp(prefix="verif.")
    try:
        def one(i):
            w = os.path.join(work, "t%d" % i)
            os.makedirs(w)
            eps = [Episode(cmds[k:k + 40]) for k in range(i * 40, len(cmds), 40 * run.JOBS)]
            res = [e for ev in run.drive(driver, eps, w, timeout=300) for e in ev]
            shutil.rmtree(w)
            return res
        with ThreadPoolExecutor(run.JOBS) as ex:
            evs = [e for r in ex.map(one, range(run.JOBS)) for e in r if e["op"] == "tour"]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    diff, done = [], 0
    for e in evs:
        c = cmds[e["k"]]
        if not isinstance(e.get("outs"), str):      # died; which byte is not known
            diff += [(c["pre"] + [x] + c["sufs"][c["by"][x]]) for x in range(256)]
            continue
        done += 256
        diff += [c["pre"] + [x] + c["sufs"][c["by"][x]] for x in range(256) if want[e["k"]][x] not in (e["outs"][x], "?")]
    ctx.traces += done
    ctx.log("tour: %d states, %d texts, %d differ, %.1fs" % (len(gens), done, len(diff), time.time() - t0))
    ctx.detail.append({"replayed": "transition tour of the parser machine", "states": len(gens), "texts": done, "differ": len(diff),
                       "accepted": sum(w.count("a") for w in want)})
    if len(ctx.samples) < 3:
        c = cmds[len(cmds) // 2]
        ctx.samples.append({"replayed": "tour", "prefix": bytes(c["pre"]).decode("latin-1"),
                            "accepted next bytes": "".join(chr(x) for x in range(256) if want[len(cmds) // 2][x] == "a"),
                            "completions": [bytes(x).decode("latin-1") for x in c["sufs"]]})
    if not diff and done != 256 * len(gens):
        raise RuntimeError("%d of %d texts were parsed" % (done, 256 * len(gens)))
    if diff:
        before = len(ctx.violations)
        ctx.episodes("tour, differences", [Episode([dict(op="parse", r=1, src=t)]) for t in diff[:600]])
        if len(ctx.violations) == before and ctx.other == 0:
            raise RuntimeError("predicted and checked outcomes disagree: %r" % bytes(diff[0]))


def messages(ctx, g, per_state, cfg="GenParser.cfg", name="tour, messages"):
    """For every state of the parser machine: the text up to it, and some bytes that must not follow."""
    _, gens = generate(ctx, "GenParser", cfg)
    eps = []
    for k in range(0, len(gens), 20):
        e = Episode()
        for x in gens[k:k + 20]:
            good = {c for y in x["good"] for c in y["b"]}
            bad = [c for c in range(256) if c not in good]
            sufs = [[]] + [[c] + list(g.pick([b"", b"", b"x", b"\n", b">\n", b"\xc3\xa9"])) for c in g.sample(bad, min(per_state, len(bad)))]
            e.do("probe", pre=x["p"], sufs=sufs)
        eps.append(e)
    ctx.episodes(name, eps)


# ------------------------------------------------------------- command lines
CLI_FILES = [(b"a.x", "ok", b"<p id:n/>\n"), (b"b.x", "ok", b"<p class:m @text:n/>"), (b"bad.x", "ok", b"<p id:n>\n"),
             (b"none", "missing", b""), (b"dir", "dir", b""),
             (b"a.h", "ok", b"<p id=1 class='c\"'>x</p>\r\n<p id=2>y\0z</p><p id=3 class=d>w<i>\xc3\xa9</i></p>"), (b"b.h", "ok", b"<i>nothing</i>")]
CLI_TEXTS = [b"<p id:n/>", b"<p class:m @text:n/>", b"<p class:m"]


def cli(ctx, cfg, rng):
    """Every command line of the model, run."""
    from .hostprofiles import Run, documents
    _, gens = generate(ctx, "GenCli", cfg)
    eps = []
    for k in range(0, len(gens), 120):
        e = Episode()
        base = Run(rng)
        for n, st, src in CLI_FILES:
            base.file(n, src, st)
        documents(e, base)
        for j, toks in enumerate(gens[k:k + 120]):
            r = Run(rng)
            r.files = base.files
            for t in toks:
                v = t.get("v")
                r.add(t["k"], t.get("f"), CLI_TEXTS[t["src"] - 1] if "src" in t else None, bytes(v) if v is not None else None)
            # some with an output that cannot be written
            r.cmd(e, **({"sink": "closed" if j % 18 == 7 else "full"} if j % 6 == 1 and ctx.prop == "C19" else {}))
        eps.append(e)
    ctx.episodes("command lines of " + cfg, eps, hosts="cli", batch=400)


def cases(ctx, module, cfg=None):
    """The small cases that a module extending Gen enumerates: templates on pages,
    with the results that the specification demands."""
    ctx.enough()
    cfg = cfg or module + ".cfg"
    pages, todo, dark = {}, [], []

    def line(s):
        if s.startswith("PAGE "):
            g = json.loads(s[5:])
            pages[g["p"]] = g["h"]
        elif s.startswith("CASE "):
            todo.append(json.loads(s[5:]))
        elif s.startswith("DARK "):
            dark.append(s)
    r = tlc.run(module, cfg, workers=run.JOBS, heap="8g", timeout=2400, lines=line)
    if not r["ok"]:
        raise RuntimeError("TLC on %s: %s\n%s" % (module, r["violated"], r["output"][-3000:]))
    ctx.count(r)
    ctx.detail.append({"model": module, "config": cfg, "states": r["states"], "transitions": r["transitions"], "wall_s": round(r["wall"], 1)})
    ctx.log("TLC %s: %d pages, %d cases, %d not modelled, %.1fs" % (cfg, len(pages), len(todo), len(dark), r["wall"]))
    driver = ctx.built()["driver"]
    t0 = time.time()
    todo.sort(key=lambda g: (g["p"], g["t"]))
    work = tempfile.mkdtemp(prefix="verif.")

    def one(k):
        mine = todo[k * len(todo) // run.JOBS:(k + 1) * len(todo) // run.JOBS]
        ep, at = Episode(), []
        page = None
        for g in mine:
            if g["p"] != page:
                page = g["p"]
                ep.doc(1, pages[page])
            ep.parse(1, g["t"]).extract(1, 1)
            at.append(len(ep) - 1)
        w = os.path.join(work, "g%d" % k)
        os.makedirs(w)
        evs = {e["id"]: e for e in run.drive(driver, [ep], w, timeout=300)[0] if "id" in e}
        shutil.rmtree(w)
        res = []
        for g, i in zip(mine, at):
            e = evs.get(i)
            if e is None:       # it died there or before
                res.append(g)
                break
            if e.get("out") != "ok" or e["groups"] != g["g"]:
                res.append(g)
        return res, sum(i in evs for i in at)
    try:
        with ThreadPoolExecutor(run.JOBS) as ex:
            rs = list(ex.map(one, range(run.JOBS if todo else 0)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = [g for x in rs for g in x[0]]
    done = sum(x[1] for x in rs)
    ctx.traces += done
    ctx.log("%s: %d cases replayed, %d differ, %.1fs" % (cfg, done, len(bad), time.time() - t0))
    ctx.detail.append({"replayed": cfg, "pages": len(pages), "cases": done, "not_modelled": len(dark), "differ": len(bad)})
    if todo and len(ctx.samples) < 3:
        g = todo[len(todo) * 2 // 3]
        ctx.samples.append({"replayed": cfg, "template": bytes(g["t"]).decode(errors="replace"), "page": bytes(pages[g["p"]]).decode(errors="replace")[:300],
                            "predicted_groups": len(g["g"])})
    if not bad:
        if done != len(todo) or not todo:
            raise RuntimeError("%d of %d cases were replayed" % (done, len(todo)))
        return
    eps = [Episode().doc(1, pages[g["p"]]).parse(1, g["t"]).extract(1, 1) for g in bad[::max(1, len(bad) // 24)][:24]]
    before = len(ctx.violations)
    ctx.episodes(cfg + ", differences", eps)
    if len(ctx.violations) == before and ctx.other == 0:
        raise RuntimeError("predicted and checked outcomes disagree: %r" % bytes(bad[0]["t"]))


def structure(ctx, cfg="GenStructure.cfg", copies=False):
    """All short sequences of tags, closing tags and braces: rules or message.
    Or: copies of all rules among them, looked at when the original is gone."""
    ctx.enough()
    todo = []

    def line(s):
        if s.startswith("STRUCT "):
            todo.append(json.loads(s[7:]))
    r = tlc.run("GenStructure", cfg, workers=run.JOBS, heap="8g", timeout=2400, lines=line)
    if not r["ok"]:
        raise RuntimeError("TLC on %s: %s\n%s" % (cfg, r["violated"], r["output"][-3000:]))
    ctx.count(r)
    ctx.detail.append({"model": "GenStructure", "config": cfg, "states": r["states"], "transitions": r["transitions"], "wall_s": round(r["wall"], 1)})
    ctx.log("TLC %s: %d texts, %.1fs" % (cfg, len(todo), r["wall"]))
    driver = ctx.built()["driver"]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif.")
    size = 2000
    if copies:
        todo = [g for g in todo if g["o"] == "ok"]

    def script(ep, i, g):
        ep.parse(1, g["t"])
        if copies:      # slot 2 holds the previous copy, or nothing
            ep.do("copy", r=2, **{"from": 1}, path=[1], how="assign" if i % 2 else "construct").do("free", r=1).do("look", r=2)
        else:
            ep.do("look", r=1)
        return ep

    def one(k):
        mine = todo[k * size:(k + 1) * size]
        ep = Episode()
        for i, g in enumerate(mine):
            script(ep, i, g)
        per = len(ep) // max(1, len(mine))
        w = os.path.join(work, "g%d" % k)
        os.makedirs(w)
        evs = {e["id"]: e for e in run.drive(driver, [ep], w, timeout=300)[0] if "id" in e}
        shutil.rmtree(w)
        res = []
        for i, g in enumerate(mine):
            p, l = evs.get(per * i), evs.get(per * i + per - 1)
            if p is None:
                res.append(g)
                break
            if p["out"] != g["o"] or (g["o"] == "ok" and (l is None or l["shape"] != g["s"])) or (g["o"] != "ok" and p["msg"] != g["m"]):
                res.append(g)
        return res, sum(per * i in evs for i in range(len(mine)))
    try:
        with ThreadPoolExecutor(run.JOBS) as ex:
            rs = list(ex.map(one, range((len(todo) + size - 1) // size)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = [g for x in rs for g in x[0]]
    done = sum(x[1] for x in rs)
    ctx.traces += done
    ctx.log("%s: %d texts replayed, %d differ, %.1fs" % (cfg, done, len(bad), time.time() - t0))
    ctx.detail.append({"replayed": cfg, "texts": done, "accepted": sum(g["o"] == "ok" for g in todo), "differ": len(bad)})
    if len(ctx.samples) < 3 and todo:
        g = todo[len(todo) * 2 // 3]
        ctx.samples.append({"replayed": cfg, "text": bytes(g["t"]).decode(), "predicted": g["o"], "message": bytes(g["m"]).decode()})
    if not bad:
        if done != len(todo) or not todo:
            raise RuntimeError("%d of %d texts were replayed" % (done, len(todo)))
        return
    before = len(ctx.violations)
    ctx.episodes(cfg + ", differences", [script(Episode(), 1, g) for g in bad[::max(1, len(bad) // 24)][:24]])
    if len(ctx.violations) == before and ctx.other == 0:
        raise RuntimeError("predicted and checked outcomes disagree: %r" % bytes(bad[0]["t"]))


def histories(ctx, cfg="GenSession.cfg"):
    """All short histories of copying, moving, combining and changing two rules."""
    ctx.enough()
    page, todo = [], []

    def line(s):
        if s.startswith("PAGE "):
            page.append(json.loads(s[5:])["h"])
        elif s.startswith("HIST "):
            todo.append(json.loads(s[5:]))
    r = tlc.run("GenSession", cfg, workers=run.JOBS, heap="8g", timeout=2400, lines=line)
    if not r["ok"]:
        raise RuntimeError("TLC on %s: %s\n%s" % (cfg, r["violated"], r["output"][-3000:]))
    ctx.count(r)
    ctx.detail.append({"model": "GenSession", "config": cfg, "states": r["states"], "transitions": r["transitions"], "wall_s": round(r["wall"], 1)})
    ctx.log("TLC %s: %d histories, %.1fs" % (cfg, len(todo), r["wall"]))
    driver = ctx.built()["driver"]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif.")

    def episode(g):
        ep = Episode()
        ep.extend(g["h"])
        ep.doc(1, page[0])
        for o in g["x"]:
            ep.do("look", r=o["r"]).extract(o["r"], 1)
        return ep

    def one(k):
        mine = todo[k * len(todo) // run.JOBS:(k + 1) * len(todo) // run.JOBS]
        w = os.path.join(work, "g%d" % k)
        os.makedirs(w)
        res = []
        for g, evs in zip(mine, run.drive(driver, [episode(g) for g in mine], w, timeout=300)):
            evs = {e["id"]: e for e in evs if "id" in e}
            n = len(g["h"]) + 1
            for i, o in enumerate(g["x"]):
                look, ext = evs.get(n + 2 * i), evs.get(n + 2 * i + 1)
                if not look or not ext or look["shape"] != o["s"] or ext["out"] != "ok" or ext["groups"] != o["g"]:
                    res.append(g)
                    break
        shutil.rmtree(w)
        return res
    try:
        with ThreadPoolExecutor(run.JOBS) as ex:
            bad = [g for x in ex.map(one, range(run.JOBS)) for g in x]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ctx.traces += len(todo)
    ctx.log("%s: %d histories replayed, %d differ, %.1fs" % (cfg, len(todo), len(bad), time.time() - t0))
    ctx.detail.append({"replayed": cfg, "histories": len(todo), "differ": len(bad)})
    if len(ctx.samples) < 3:
        ctx.samples.append({"replayed": cfg, "history": todo[len(todo) // 2]["h"]})
    if not bad:
        return
    before = len(ctx.violations)
    ctx.episodes(cfg + ", differences", [episode(g) for g in bad[::max(1, len(bad) // 24)][:24]])
    if len(ctx.violations) == before and ctx.other == 0:
        raise RuntimeError("predicted and checked outcomes disagree: %r" % (bad[0]["h"],))
