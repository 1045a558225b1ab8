"""Large scenarios: long lists, deep trees, long values, long templates, many captures.

Every property has some; sizes stay where TLC needs seconds."""
from .gen import *
from .profiles import ATTRS
from .run import Episode, b

SIZES = [65, 127, 128, 129, 130, 255, 256, 257, 258, 260, 300]


def size(g, hi=300):
    return g.pick([s for s in SIZES if s <= hi]) if g.chance(0.6) else g.randint(40, hi)


def items(g, tags, n, p_text=0.1):
    """Siblings that can be told apart."""
    out = []
    for i in range(n):
        if g.chance(p_text):
            out.append(g.pick([b"t", b" ", b"<!--c-->"]))
        at = [("id", b"%d" % i)]
        if g.chance(0.3):
            at.append(("class", g.pick([b"x", b"y", b"x y"])))
        out.append(E(g.pick(tags), at))
    return out


def clumps(g, tags, n):
    """Long stretches of the same element."""
    out = []
    i = 0
    while i < n:
        t, m = g.pick(tags), g.pick([1, 1, 2, 3, 30, 100])
        for _ in range(min(m, n - i)):
            out.append(E(t, [("id", b"%d" % i)]))
            i += 1
    return out


def chain(g, tags, n, kid):
    for i in range(n):
        kid = E(g.pick(tags), [("id", b"%d" % i)], [kid] if g.chance(0.9) else [b"s", kid])
    return kid


def listing(g, mods):
    tags = ["b", "i", "u"][:g.randint(2, 3)]
    e = Episode().doc(1, b"<p>" + html_of(g, (clumps if g.chance(0.5) else items)(g, tags, size(g))) + b"</p>")
    for r in range(1, 4):
        k = g.pick([1, 2, 3, 5, 9, 14])
        rs = []
        for j in range(k):
            o, gr = mods(g)
            rs.append(rule(g, Lay(g, 0), g.pick(tags), opt=o, greedy=gr, pats=[b"id:n%d" % j] + [g.pick([b"class='x'", b"class!", b"class=='y'"])] * g.chance(0.2)))
        e.parse(r, b"".join(rs)).extract(r, 1)
    return e


def huge(g, mods):
    """More siblings than any of the thresholds that code likes to have."""
    n = g.pick([520, 1030, 1100, 1100])
    e = Episode().doc(1, b"<p>" + html_of(g, clumps(g, ["b"] if g.chance(0.7) else ["b", "b", "b", "i"], n)) + b"</p>")
    o, gr = mods(g)
    rs = [rule(g, Lay(g, 0), "b", opt=o, greedy=gr, pats=[b"id:n"])]
    if g.chance(0.3):
        rs.append(rule(g, Lay(g, 0), "i", opt=True, pats=[b"id:m"]))
    t = b"".join(rs)
    return e.parse(1, g.pick([t, t, t, b"<p>" + t + b"</p>"])).extract(1, 1)


def depth(g):
    tags = ["div", "b", "span"]
    n = size(g)
    e = Episode().doc(1, html_of(g, [chain(g, tags, n, E("i", [("id", b"z")], [b"x"]))]))
    e.doc(2, html_of(g, [E("div", [], [chain(g, tags, g.randint(3, 12), b"y") for _ in range(g.randint(3, 12))])]))
    for r, t in enumerate([b"<i id:n/>", b"<div id:n/>", b"<body>{<i id:n/>}</body>", b"<div id:m><span id:n/></div>",
                           b"<div id='%d'>{<+span id:n/>}{<i id:m/>}</div>" % g.randint(0, n), b"<*><i id:n @text:t/></*>", b"<div:first-child id:n/>"]):
        e.parse(r + 1, t).extract(r + 1, 1)
        if r in (1, 2, 3, 6):
            e.extract(r + 1, 2)
    # as deep as the template
    k = g.randint(3, 60)
    e.doc(3, html_of(g, [chain(g, ["div"], k + g.randint(-1, 2), E("i", [], [b"x"]))]))
    e.parse(9, b"<div>" * k + b"<i @text:t/>" + b"</div>" * k).extract(9, 3)
    return e


def traits(g):
    n = size(g) if g.chance(0.3) else g.randint(257, 320)
    tags = ["b", "i", "x-y"]
    e = Episode().doc(1, b"<p>" + html_of(g, items(g, tags, n, g.pick([0, 0.5]))) + b"</p>")
    at = "".join(" a%d=1" % i for i in range(n)).encode()
    e.doc(2, b"<p" + at + b">" + b"<b></b>" * n + b"</p><p></p>")
    for r in range(1, 7):
        t = g.pick(NTH) + "(" + g.pick(["%d", "%dn", "%dn+1", "n+%d", "-n+%d", "2n+%d", "-%dn+250", "%dn-3"]) % g.pick([1, 2, 3, n - 1, n, n + 1, 127, 128, 255, 256]) + ")"
        if g.chance(0.3):
            t = "not(:" + t + ")"
        e.parse(r, ("<%s:%s id:n/>" % (g.pick(tags + ["*"]), t)).encode()).extract(r, 1)
    for j, t in enumerate(NTH):
        e.parse(10 + j, ("<%s:%s(n+%d) id:n/>" % (g.pick(["*", "*", "b"]), t, g.pick([100, n - 50, n - 120]))).encode()).extract(10 + j, 1)
    for k in (n - 1, n, n + 1, n % 256, n % 128):
        e.parse(8, b"<p:child-count(%d) @text:t/>" % k).extract(8, 2).parse(9, b"<p:attribute-count(%d) @text:t/>" % k).extract(9, 2)
    return e


def long_value(g, n):
    k = g.random()
    if k < 0.3:
        return word(g, "ab ", n, n)
    if k < 0.6:
        return b" ".join(word(g, "abAB", 1, 9) for _ in range(n // 5))
    if k < 0.8:
        return word(g, "a", n, n)
    return word(g, "ab \n\t\r\f\v", n, n)


def values(g, regexes=False, rewrite=False):
    n = g.pick([255, 256, 257, 300, 511, 513, 1024, 1025, 1500]) if not regexes else g.pick([33, 40, 65])
    v = long_value(g, n)
    w = v[:-1] + b"z"
    e = Episode()
    e.doc(1, b'<a title="' + v + b'">' + v + b'</a><a title="' + w + b'">' + w + b"</a><a title=" + b"a" * (50 if regexes else 300) + b"></a>")
    ts = []
    i, j = sorted((g.randint(0, n), g.randint(0, n)))
    q = lambda x: b"'" + x.replace(b"\\", b"").replace(b"'", b"") + b"'"
    if regexes:
        rx = [b"[^z]z", b"a.*b", b"^.*$", b"z$", b"(a|b|\\s)+", b"b(.)", b"[a-b]{2,200}", b"a" * 60, b"(.)$", b"x|z"]
        for x in g.sample(rx, 4):
            ts.append(b"<a @text:t title=~/" + x + b"/" + g.pick([b"", b"i"]) + g.pick([b"", b"!"]) + b"/>")
            ts.append(b"<a title:filter(/" + x + b"/):t/>")
            ts.append(b"<a title:replace(/" + x + b"/,'<$&>'):t/>")
    elif rewrite:
        for _ in range(6):
            ps = [pipe(g, Lay(g, 0), [b"a", b"ab", b" ", b"z"]) for _ in range(g.pick([3, 9, 25]))]
            ps = [p for p in ps if not p.startswith((b"filter", b"replace"))]
            ts.append(b"<a " + g.pick([b"title", b"@text", b"@inner-html"]) + b"".join(b":" + p for p in ps) + b":t/>")
        ts.append(b"<a title:prepend(" + q(v) + b"):append(" + q(w) + b"):t/>")
        ts.append(b"<a title:trim(" + q(v[:99] + b"z") + b"):t/>")
    else:
        for op, x in ((b"==", v), (b"==", v[:-1]), (b"^=", v[:j]), (b"$=", v[i:]), (b"*=", v[i:j]), (b"=", v), (b"=", v[i:j]), (b"$=", w[i:]), (b"*=", w[i:]), (b"==", w)):
            ts.append(b"<a title" + op + q(x) + g.pick([b"", b"!"]) + b" @text:t/>")
        ts.append(b"<a " + b" ".join(b"title*=" + q(v[k:k + 5]) for k in range(0, 40)) + b" @text:t/>")
    for r, t in enumerate(ts):
        e.parse(r + 1, t).extract(r + 1, 1)
    return e


def captures(g):
    n = size(g, 260)
    nm = lambda: word(g, "ab", 1, 2) if g.chance(0.8) else word(g, "ab", 200, 300)
    at = b" ".join(b"a%d=%d" % (i, i) for i in range(n))
    e = Episode().doc(1, b"<p " + at + b">x<b " + at + b">y</b></p>").doc(2, b"<p>" + b"<b id=1>x</b><i id=2>y</i>" * size(g, 150) + b"</p>")
    e.parse(1, b"<p " + b" ".join(b"a%d:%s" % (g.randint(0, n), nm()) + g.pick([b"?", b"?", b""]) for i in range(n)) + b"/>").extract(1, 1)
    e.parse(2, b"<p " + b" ".join(b"a%d:%s?" % (g.randint(0, n), nm()) for i in range(n)) + b"><b " + b" ".join(b"a%d:%s?" % (i, nm()) for i in range(n)) + b"/></p>").extract(2, 1)
    e.parse(3, b"<p><+b id:n @text:m/></p>").extract(3, 2).parse(4, b"<p><b id:n @text:m/><i id:n/></p>").extract(4, 2).parse(5, b"<b id:n/><i id:a/>").extract(5, 2)
    return e


def nodes(g):
    inl, blk = INLINE[:12], ["div", "p", "section", "x-y"]
    n = size(g, 200)
    k = [chain(g, INLINE[1:10], g.randint(30, 120), b"a  b")]
    k += [g.pick([b"t", b" ", b"\n", b" x ", E(g.pick(inl[1:]), [], [b"i"]), E("div", [], [b"d"]), E("br"), b"<!--c-->"]) for _ in range(n)]
    e = Episode().doc(1, b"<div>" + html_of(g, k) + b"</div>").doc(2, b"<p title='" + word(g, "ab ", 1500, 1500) + b"'>" + word(g, "ab \n", 1500, 1500) + b"</p>")
    for f in ("text", "inner-html", "strip-tags"):
        e.do("builtin", d=1, n=1, f=f).do("builtin", d=2, n=1, f=f)
    e.parse(1, b"<div @text:t @inner-html:h @strip-tags:s/>").extract(1, 1).extract(1, 2)
    return e


def source(g, bad=None):
    """A long template."""
    lay = Lay(g, 0)
    k = g.random()
    n = size(g)
    if k < 0.2:
        t = b"\n" * n + b"<a/>"
    elif k < 0.4:
        t = b"\n".join(b"<b id:n%d%s/>" % (i, b" @text:t" * g.randint(0, 3)) for i in range(g.pick([9, 10, 11, 99, 100, 101, 120])))
    elif k < 0.5:
        d = g.randint(20, 90)
        t = (b"<a>" + b"\n" * g.chance(0.5)) * d + b"<b @text:t/>" + b"</a>" * d
    elif k < 0.6:
        d = g.randint(20, 45)
        t = b"<a>{" * d + b"<b @text:t/>" + b"}</a>" * d
    elif k < 0.75:
        t = b"<a title='" + long_value(g, n * 4).replace(b"\n", b" ") + b"' " + b"id:x " * g.pick([0, 3, 100]) + b"/>"
    elif k < 0.85:
        t = b"#" + b"c" * n + b"\n<a " + b" " * n + b"/>" + b"\n#" * n + b"\n"
    elif k < 0.93:
        t = b"<a" + b":first-child" * n + b"/>"
    else:
        t = b"<a:not(" + b":nth-child(2n+1)" * (n // 2) + b") @text" + b":trim" * n + b":x/>"
    if bad:
        q = g.random()
        if q < 0.4:
            t = t + g.pick([b"<", b"</a>", b"x", b"}", b"<a", b"<a>\n", b"<a id:"])
        elif q < 0.7:
            i = g.randint(0, len(t))
            t = t[:i] + g.pick([b"!", b"<", b"}", b"'", b"\xc3\xa9", b"\t", b"\0", b"{"]) + t[i:]
        else:
            t = t[:g.randint(0, len(t))]
    return t


def sources(g, bad):
    e = Episode()
    for r in range(1, 5):
        e.parse(r, source(g, bad and r > 1)).do("look", r=r)
    return e


def searches(g):
    tags = ["b", "div", "i"]
    e = Episode().doc(1, html_of(g, tree(g, 3, (2, 7), tags, ["id"], [b"1", b"2"])) + b"<div>" * g.randint(1, 40))
    for r, t in ((1, b"<div>{<b id:n/>}</div>"), (2, b"<i id:n?/>"), (3, b"<div>{<div>{<?b id:n/>}</div>}{<i @text:m/>}</div>"),
                 (4, b"<div>" + b"".join(b"{<%s/>}" % g.pick([b"b", b"i", b"?div", b"+i"]) for _ in range(g.randint(3, 9))) + b"</div>")):
        e.parse(r, t)
        for _ in range(9):
            e.extract(r, 1, 1, int(2 ** (g.random() * 10)))
        e.extract(r, 1).do("limit-of", r=r, d=1, n=1)
    return e


def histories(g):
    e = Episode()
    n = size(g, 70)
    e.doc(1, b"<p>" + html_of(g, items(g, ["b", "i"], n)) + b"</p>")
    e.parse(1, b"<p><+b id:n" + b" @text:t" * g.randint(1, 60) + b"/></p>").parse(2, b"<a>" * 40 + b"<b id:n/>" + b"</a>" * 40)
    e.parse(3, b"".join(b"<?b id:n%d/>" % i for i in range(n)))
    e.parse(4, b"<a:not(" + b":nth-child(3)" * 60 + b") id" + b":trim" * 60 + b":y/>")
    for r in range(1, 5):
        e.do("copy", r=r + 10, **{"from": r}, path=[1], how=g.pick(["construct", "assign"]))
    for r in g.sample(range(1, 5), 3):
        e.do("free", r=r)
    for r in range(11, 15):
        e.do("look", r=r).extract(r, 1)
    return e


def threads(g):
    e = Episode()
    for d in (1, 2):
        e.doc(d, b"<p>" + html_of(g, items(g, ["b", "i", "x-y"], g.randint(40, 80))) + b"</p>")
    e.parse(1, b"<b:nth-child(3n+1) @text:append('q'):t id=~/[0-4]/ id:replace(/[0-9]/,'<$&>'):n/>")
    e.parse(2, b"<p>{<+i id:n class:filter(/[xy]/):m?/>}</p>").parse(3, b"<*><?x-y id:n @inner-html:h/><b id:n/></*>")
    e.do("par", threads=[[dict(t=t, r=g.randint(1, 3), d=g.randint(1, 2), n=1, max=g.pick([0, 0, 2])) for _ in range(3)] for t in range(8)])
    return e


def printed(g):
    from .hostprofiles import Run, documents, nasty
    e, r = Episode(), Run(g)
    n = size(g, 200)
    v = lambda: nasty(g).replace(b"\0", b"")
    h = b"<p>" + b"".join(E("b", [("id", b"%d" % i), ("title", v())], [text_node(g, v())]).html() for i in range(n)) + b"</p>"
    hs = [r.file(b"d%d" % i, h if i < 1 else b"<p><b id=%d>x</b></p>" % i) for i in range(g.pick([1, 2, 12]))]
    ts = [g.pick([b"<b id:n/>", b"<p><+b id:n @text:m/></p>", b"<b title:n?/>", b"<+b title:%s?/>" % word(g, "ab", 300, 300),
                  b"<b " + b" ".join(b"id:n%d" % i for i in range(100)) + b"/>", b"<b:first-child id:n/>"]) for _ in range(g.pick([1, 1, 3]))]
    xs = [r.file(b"t%d" % i, t) for i, t in enumerate(ts)]
    documents(e, r)
    for f in xs:
        r.add("x", f)
    for f in hs:
        r.add("i", f)
    for k in "cpa":
        if g.chance(0.4):
            r.add(k)
    if g.chance(0.2):
        r.add("f", v=b"n")
    if g.chance(0.3):
        r.add("m", v=g.pick([b"1", b"3", b"100", b"300"]))
    r.cmd(e, tty=g.chance(0.1))
    return e


def inputs(g):
    """Many inputs, one of which may be bad."""
    from .hostprofiles import Run, documents, bad_template
    e, r = Episode(), Run(g)
    n = g.randint(5, 40)
    bad = g.randint(0, 3 * n)
    xs = [r.file(b"t%d" % i, bad_template(g) if i == bad else b"<b id:n/>") for i in range(n)]
    hs = [r.file(b"d%d" % i, b"<b id=%d>x</b>" % i, "missing" if i + n == bad else "ok") for i in range(g.randint(1, 6))]
    documents(e, r)
    for f in xs:
        r.add("x", f)
    for f in hs:
        r.add("i", f)
    for k in "cl":
        if g.chance(0.3):
            r.add(k)
    if g.chance(0.3):
        r.add("m", v=g.pick([b"1", b"2", b"3"]))
    if g.chance(0.5):
        r.shuffle()
    r.cmd(e)
    return e


def hosted(g):
    e = Episode()
    lang = g.pick(["python", "ruby", "php"])
    n = size(g, 200)
    h = b"<p>" + html_of(g, items(g, ["b", "i"], n)) + b"</p>"
    e.doc(1, h).do("b-html", lang=lang, d=1, html=b(h))
    ts = [b"<b id:n/>", b"<p><+b id:n class:m?/></p>", b"<b " + b" ".join(b"id:%s" % word(g, "ab", 1, 2) for i in range(n)) + b"/>",
          b"<p><+i id:n @text:append('" + word(g, "ab", 1500, 1500) + b"'):n/></p>", b"<p><b id:n/><i id:n/></p>"]
    for i, t in enumerate(ts):
        e.do("b-rule", lang=lang, r=i + 1, src=b(t)).do("b-extract", lang=lang, r=i + 1, d=1, max=g.pick([0, 0, 3, -1]))
    return e


M = lambda p, q: lambda g: (g.chance(p), g.chance(q))
KINDS = {
    "C01": [lambda g: listing(g, M(0.05, 0.05)), depth, lambda g: huge(g, M(0, 0))], "C02": [lambda g: listing(g, M(0.6, 0.1)), depth, lambda g: huge(g, M(1, 0))],
    "C03": [lambda g: listing(g, M(0.2, 0.6)), lambda g: huge(g, M(0.2, 1))],
    "C04": [depth, depth, nodes], "C05": [traits], "C06": [values, lambda g: listing(g, M(0, 0))], "C07": [lambda g: values(g, regexes=True)],
    "C08": [lambda g: values(g, rewrite=True)], "C09": [captures, lambda g: huge(g, M(0.2, 0.8))], "C10": [nodes, depth], "C11": [nodes], "C12": [lambda g: sources(g, False), lambda g: sources(g, True)],
    "C13": [lambda g: sources(g, False), captures, histories], "C14": [lambda g: sources(g, True)], "C15": [searches, depth], "C16": [threads, histories],
    "C17": [histories], "C18": [printed], "C19": [inputs, printed], "C20": [hosted],
}


def episodes(prop, g, n):
    ks = KINDS[prop]
    return [ks[i % len(ks)](g) for i in range(n)]
