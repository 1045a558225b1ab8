"""Scenario generators, one per property.  Each yields Episodes."""
import re
from .gen import *
from .run import Episode, b

ATTRS = ["id", "class", "href", "data-v", "x_a", "title", "data", "hre"]
NAMES = [b"n", b"m", b"o1", b"a.b", b"x-y", b"Z_"]


def nm(i):
    return b"r%d" % i


# =================================================================== matching
def sib_vocab(g):
    """Tags for siblings; few, so that rules overlap."""
    return g.some(FREE[:12] + CUSTOM[:3], 2, 4)


def sib_rules(g, lay, tags, n, mods, i0=0):
    """n sibling rules with recognisable captures, e.g. <div @text:r0/>."""
    out = []
    for i in range(n):
        t = "*" if g.chance(0.12) else g.pick(tags)
        pats = [b"data-i:" + nm(i0 + i) + b"?"]
        if g.chance(0.25):
            pats.append(b"class" + (b"=" + lit(g, lay, word(g, "ab", 1, 1)) if g.chance(0.7) else b"") + (b"!" if g.chance(0.2) else b""))
        if t == "*" and g.chance(0.5):
            pats = [b"@strip-tags:" + nm(i0 + i)]
        opt, greedy = mods(i)
        out.append(rule(g, lay, t, opt=opt, greedy=greedy, pats=pats))
    return out


def sib_list(g, tags, n, p_text=0.15):
    out = []
    for i in range(n):
        if g.chance(p_text):
            out.append(g.pick([b"t%d" % i, b" ", b"<!--c-->"]))
        else:
            e = E(g.pick(tags), [("data-i", b"%d" % i)])
            if g.chance(0.3):
                e.attrs.append(("class", g.pick([b"a", b"b", b"a b"])))
            if g.chance(0.1):
                e.kids = [b"k"]
            out.append(e)
    return out


def wrap_rules(g, lay, rs):
    """The rules as top level, as children or as nested rules of another."""
    k = g.random()
    if k < 0.5:
        return rs
    w = "section"
    if k < 0.75:
        return [rule(g, lay, w, pats=[b"id:w?"], kids=rs)]
    if k < 0.9:
        return [rule(g, lay, w, pats=[b"id:w?"], nested=[rs])]
    return [rule(g, lay, w, kids=[rule(g, lay, "section", kids=rs, opt=g.chance(0.3))])]


def siblings(g, n, mods_of, sizes=(1, 4)):
    for _ in range(n):
        tags = sib_vocab(g)
        lay = Lay(g, 0.2)
        e = Episode()
        k = g.randint(*sizes) if g.chance(0.95) else g.randint(5, 12)
        mods = mods_of(g)
        for d in (1, 2, 3):
            m = g.randint(0, 8) if g.chance(0.95) else g.randint(9, 40)
            kids = sib_list(g, tags, m)
            if g.chance(0.3):
                kids = [E("section", [("id", b"s")], kids), E("section", [("id", b"q")], sib_list(g, tags, g.randint(0, 5)))]
            e.doc(d, page(g, kids) if g.chance(0.5) else b"<section id=w>" + html_of(g, kids) + b"</section>")
        rs = wrap_rules(g, lay, sib_rules(g, lay, tags, k, mods))
        e.parse(1, join(g, lay, rs))
        for d in (1, 2, 3):
            e.extract(1, d)
        yield e


def c01(g, n):
    def mods_of(g):
        if g.chance(0.75):
            return lambda i: (False, False)
        return lambda i: (g.chance(0.2), g.chance(0.1))
    yield from siblings(g, n, mods_of)


def c02(g, n):
    def mods_of(g):
        p = g.pick([0.3, 0.5, 0.8, 1.0])
        q = g.pick([0, 0, 0, 0.2])
        return lambda i: (g.chance(p), g.chance(q))
    yield from siblings(g, n * 3 // 4, mods_of, (1, 5))
    # optional rules below a rule, childless elements
    for _ in range(n - n * 3 // 4):
        tags = sib_vocab(g)
        lay = Lay(g, 0.2)
        opt = lambda i: (g.chance(0.8), g.chance(0.15))
        below = lambda i0: sib_rules(g, lay, tags, g.randint(1, 3), opt, i0)
        top = rule(g, lay, g.pick(tags + ["*"]), pats=[b"data-i:top?"], kids=below(0) if g.chance(0.7) else (),
                   nested=[below(10 * j) for j in range(1, g.randint(1, 3))], opt=g.chance(0.2))
        e = Episode()
        for d in (1, 2):
            kids = [E(g.pick(tags), [("data-i", b"%d" % i)], sib_list(g, tags, g.size(4))) if g.chance(0.85) else b"t"
                    for i in range(g.randint(1, 4))]
            e.doc(d, page(g, kids))
        e.parse(1, join(g, lay, [top] + (sib_rules(g, lay, tags, 1, opt, 50) if g.chance(0.3) else [])))
        e.extract(1, 1).extract(1, 2)
        yield e


def c03(g, n):
    def mods_of(g):
        p = g.pick([0.5, 0.7, 1.0])
        q = g.pick([0, 0.2, 0.4])
        return lambda i: (g.chance(q), g.chance(p))
    yield from siblings(g, n, mods_of, (1, 4))


def c04(g, n):
    for i in range(n):
        tags = g.some(FREE[:14] + CUSTOM[:2], 2, 3)
        lay = Lay(g, 0.2)
        vals = [word(g, "ab", 1, 2) for _ in range(4)]
        e = Episode()
        if i % 50 == 49:   # deep or wide documents
            deep = g.chance(0.5)
            kids = [b"x"]
            for j in range(g.randint(20, 90)):
                el = E(g.pick(tags), [("id", b"%d" % j)])
                if deep:
                    el.kids = kids
                    kids = [el] + ([b"t"] if g.chance(0.1) else [])
                else:
                    kids.append(el)
            e.doc(1, html_of(g, kids))
        else:
            e.doc(1, page(g, tree(g, g.randint(2, 5), (1, 4), tags, ["id", "class"], vals)))
        e.doc(2, page(g, tree(g, 3, (0, 4), tags, ["id", "class"], vals)))
        for r in (1, 2):
            e.parse(r, join(g, lay, template(g, tags, ["id", "class"], vals, [nm(j) for j in range(6)],
                                             depth=g.pick([1, 2, 2, 3, 4]), width=g.pick([1, 1, 2, 3]), lay=lay,
                                             mods=g.chance(0.4), traits=0.05, preds=0.15, caps=0.85)))
            e.extract(r, 1).extract(r, 2)
        # from inner nodes on
        for _ in range(2):
            e.extract(g.randint(1, 2), 2, g.randint(1, 3))
        yield e


# ===================================================================== traits
def trait_doc(g, k):
    tags = g.some(["div", "p", "b", "span", "i", "a", "u"], 1, 3) + g.some(CUSTOM, 0, 2)
    kids = []
    for i in range(k):
        if g.chance(0.2):
            kids.append(g.pick([b"t", b" ", b"<!--c-->", b"\n", b"<template><b id='t'></b></template>"]))
        e = E(g.pick(tags), [("id", b"%d" % i)])
        e.attrs += [(a, None) for a in g.some(["a", "b", "c", "d"], 0, 4 if g.chance(0.3) else 0)]
        if g.chance(0.4):
            e.kids = g.some([E("b"), E("x-y"), b"t", b"<!---->", E("i"), E("br"), b" ", b"<template></template>"], 0, 5)
        kids.append(e)
    if g.chance(0.3):
        kids.append(g.pick([b"t", b"t", b"<template>t</template>", b"<!--c-->"]))
    return tags, kids


def c05(g, n):
    # API: large coefficients, all kinds
    for i in range(n):
        e = Episode()
        k = g.randint(0, 9) if g.chance(0.95) else g.randint(20, 60)
        tags, kids = trait_doc(g, k)
        e.doc(1, b"<section>" + html_of(g, kids) + b"</section>")
        t2, k2 = trait_doc(g, g.randint(0, 4))
        e.doc(2, page(g, k2))
        lay = Lay(g, 0.1)
        for r in range(1, 7):
            ts = [trait(g) for _ in range(g.pick([1, 1, 1, 2, 3]))]
            if g.chance(0.25):
                ts = [":%s(%s)" % (g.pick(NTH), nth_arg(g))]
            t = g.pick(["*", "*", g.pick(tags)])
            e.parse(r, rule(g, lay, t, traits=ts, pats=[b"id:n?", b"@strip-tags:s"] if g.chance(0.8) else [b"@inner-html:h"]))
            e.extract(r, 1)
            if r < 3:
                e.extract(r, 2)
        for r in range(7, 11):
            a, c = (g.randint(-6, 6), g.randint(-8, 8)) if g.chance(0.8) else \
                (g.pick([0, 1, -1, 2, 3, -3, 1000000, -1000000, 65536, 255, 256, 2147483647, -2147483647, -2147483648]),
                 g.pick([0, 1, 2, -1, 70000, -70000, 256, 65537, 2147483647, 2147483646, -2147483647, -2147483648, -2147483646]))
            m = dict(m="nth", a=a, b=c, last=g.chance(0.5), same=g.chance(0.5))
            k = g.random()
            if k < 0.1:
                m = dict(m="only", same=g.chance(0.5))
            elif k < 0.15:
                m = dict(m=g.pick(["children", "attrs"]), c=g.pick([0, 1, 2, 3, 256]))
            elif k < 0.25:
                m = dict(m="not", ms=[m, dict(m="only", same=True)][:g.randint(0, 2)])
            e.do("rule", r=r, by="tag", tag=b("*"), opt=False, greedy=False)
            e.do("add-match", r=r, path=[1], v=m)
            e.do("add-capture", r=r, path=[1], v=dict(c="attr", n=b("id"), to=b("n"), ps=[]))
            e.do("add-capture", r=r, path=[1], v=dict(c="fn", f="strip-tags", to=b("s"), ps=[]))
            e.extract(r, 1)
        yield e


# ================================================================ predicates
def c06(g, n):
    tests = ["words", "eq", "begins", "contains", "ends"]
    for i in range(n):
        e = Episode()
        k = i % 4
        if k == 0:      # value tests through the API
            for o in range(1, 5):
                v = value(g, big=120)
                t = g.pick(tests)
                x = dict(t=t, v=b(v))
                if t == "words" and g.chance(0.3):
                    x["vec"] = True
                for _ in range(g.pick([0, 0, 0, 1, 1, 2])):
                    x = dict(t="not", x=x)
                e.do("obj", o=o, kind="test", v=x)
                if g.chance(0.1):
                    e.do("obj-use", o=o, val=[])
                for _ in range(6):
                    s = near(g, v) if g.chance(0.7) else value(g, big=120)
                    if g.chance(0.4):
                        s = near(g, s)
                    e.do("obj-use", o=o, val=[b(s.replace(b"\0", b""))])
        elif k == 1:    # tag names
            lay = Lay(g, 0.1)
            tags = [g.pick(KNOWN) for _ in range(4)] + g.some(CUSTOM, 1, 3)
            tags += [g.pick(KNOWN) + g.pick(["x", "-", "1"]), g.pick(KNOWN)[:-1]]
            h = b""
            for j, t in enumerate(tags):
                el = E(case(g, t), [("id", b"%d" % j)], [b"x"] if g.chance(0.5) else [])
                h += el.html() + g.pick([b"", b"t", b"<!--c-->"])
            if g.chance(0.3):
                h = g.pick([b"<svg>%s</svg>", b"<math>%s</math>", b"<table><tr><td>%s</table>", b"<template>%s</template>",
                            b"<select>%s</select>", b"<frameset>%s</frameset>"]) % h
            e.doc(1, h)
            for r in range(1, 7):
                t = g.pick(tags + ["*"])
                if not t.replace("-", "").replace("_", "").isalnum():
                    t = "*"
                e.parse(r, rule(g, lay, case(g, t), pats=[b"id:n?", b"@text:t"])).extract(r, 1).do("look", r=r)
            for r in range(7, 11):
                if g.chance(0.5):
                    e.do("rule", r=r, by="name", tag=b(case(g, g.pick(tags + ["", "x y", "é"]))), opt=False, greedy=False)
                else:
                    e.do("rule", r=r, by="tag", tag=b(g.pick(KNOWN + ["*", ""])), opt=False, greedy=False)
                    if g.chance(0.3):
                        e.do("set-tagname", r=r, path=[1], v=b(case(g, g.pick(tags))))
                e.do("add-capture", r=r, path=[1], v=dict(c="attr", n=b("id"), to=b("n"), ps=[]))
                e.extract(r, 1).do("look", r=r)
        else:           # templates
            lay = Lay(g, 0.2)
            vals = [value(g, big=60) for _ in range(5)]
            attrs = g.some(["id", "class", "href", "data-v", "x_a", "title", "aB", "x1"] if g.chance(0.6) else
                           ["data", "data-v", "data-vw", "dat", "x", "x_", "x-a", "id", "ids", "href", "hre", "title", "tit"], 2, 4)
            kids = []
            for j in range(g.randint(1, 6)):
                el = E(g.pick(["div", "p", "x-y"]), [("i", b"%d" % j)])
                for a in g.some(attrs, 0, 4):
                    el.attrs.append((case(g, a), g.pick(vals) if g.chance(0.6) else near(g, g.pick(vals))))
                    if g.chance(0.05):
                        el.attrs.append((a, g.pick(vals)))
                if g.chance(0.5):
                    el.kids = [text_node(g, g.pick(vals))]
                kids.append(el)
            e.doc(1, page(g, kids))
            for r in range(1, 6):
                ps = [predicate(g, lay, attrs, vals) for _ in range(g.pick([1, 1, 1, 2, 3]))]
                ps.insert(g.randint(0, len(ps)), b"i:n?")
                e.parse(r, rule(g, lay, g.pick(["*", "div", "*"]), pats=ps)).extract(r, 1)
        yield e


# =================================================================== regexes
def subject(g):
    k = g.random()
    if k < 0.6:
        return "".join(g.pick("aabbABc1 2.-") for _ in range(g.randint(0, 8))).encode()
    if k < 0.8:
        return value(g)
    return g.pick([b"a b", b"ab\nba", b"\nab", b"ab\n", b"aAbB", b"", b"a\r\nb", b"foo bar", b"aaa", b"abab", b"1 2 3"])


def c07(g, n):
    for i in range(n):
        e = Episode()
        k = i % 3
        if k == 0:
            for o in range(1, 5):
                src = regex(g) if g.chance(0.4) else random_regex(g, 3)
                re = dict(src=b(src), ic=g.chance(0.3))
                kind = g.random()
                if kind < 0.35:
                    e.do("obj", o=o, kind="test", v=dict(t="re", re=re))
                    for _ in range(4):
                        e.do("obj-use", o=o, val=[b(subject(g))])
                    e.do("obj-use", o=o, val=[])
                else:
                    p = dict(p="filter", re=re) if kind < 0.65 else dict(p="replace", re=re, v=b(g.pick(FORMATS)))
                    e.do("obj", o=o, kind="pipe", v=[p])
                    for _ in range(4):
                        e.do("obj-use", o=o, val=b(subject(g)))
        else:           # several expressions in one template, flags in between
            lay = Lay(g, 0.2)
            subs = [subject(g) for _ in range(4)]
            kids = []
            for j in range(g.randint(1, 5)):
                el = E(g.pick(["div", "p", "b", "Div", "x-y", "X-Y", "aB"]), [("i", b"%d" % j)])
                for a in ("class", "id"):
                    if g.chance(0.75):
                        el.attrs.append((a, g.pick(subs)))
                if g.chance(0.5):
                    el.kids = [text_node(g, g.pick(subs))]
                kids.append(el)
            e.doc(1, page(g, kids))
            fl = lambda: g.pick([b"", b"", b"", b"i", b"i", b"c", b"ic", b"ci", b"cc", b"iii"])
            def rx():
                return lay.rx((regex(g) if g.chance(0.5) else random_regex(g, 2)).encode(), fl())
            for r in range(1, 5):
                rs = []
                for q in range(g.randint(1, 3)):
                    ts = []
                    if g.chance(0.3):
                        ts.append(b":type-matches(" + rx() + b")")
                    if g.chance(0.15):
                        ts.append(b":not(:type-matches(" + rx() + b"))")
                    ps = [b"i:n%d?" % q]
                    for _ in range(g.randint(1, 3)):
                        z = g.random()
                        s = g.pick([b"class", b"id", b"@text", b"@strip-tags"])
                        if z < 0.4:
                            ps.append(s + b"=~" + rx() + g.pick([b"", b"", b"!"]))
                        elif z < 0.7:
                            ps.append(s + b":filter(" + rx() + b"):f%d" % q)
                        else:
                            ps.append(s + b":replace(" + rx() + b"," + lit(g, lay, g.pick(FORMATS).encode()) + b"):g%d" % q)
                    rs.append(rule(g, lay, g.pick(["*", "div", "*", "x-y"]), opt=g.chance(0.7), traits=ts, pats=ps))
                e.parse(r, join(g, lay, rs)).extract(r, 1)
        yield e


# ===================================================================== pipes
def with_nul(g, v, p=0.12):
    """a zero byte somewhere: a byte like any other to every pipe"""
    if not g.chance(p):
        return v
    i = g.randint(0, len(v))
    return v[:i] + b"\0" + v[i:]


def raw_pipe(g, v):
    k = g.random()
    if k < 0.15:
        return dict(p="trim", v=b(with_nul(g, g.pick([b" ", b"a", b"ab", b"", b" \n\t", near(g, v)]))))
    if k < 0.3:
        return dict(p="collapsews")
    if k < 0.5:
        return dict(p=g.pick(["tolower", "toupper"]))
    if k < 0.75:
        return dict(p=g.pick(["prepend", "append"]), v=b(with_nul(g, near(g, v))))
    re = dict(src=b(regex(g)), ic=g.chance(0.3))
    return dict(p="filter", re=re) if g.chance(0.5) else dict(p="replace", re=re, v=b(g.pick(FORMATS)))


def ws_value(g):
    n = g.randint(0, 10) if g.chance(0.9) else g.randint(30, 200)
    return "".join(g.pick(HTML_WS + ["\v", "a", "B", "é", "-", "\x1f", "\u00a0", "\x80"]) if g.chance(0.6)
                   else g.pick("abAB ") for _ in range(n)).encode("utf-8", "replace")


def c08(g, n):
    for i in range(n):
        e = Episode()
        vals = [ws_value(g) if g.chance(0.5) else value(g, big=150) for _ in range(4)]
        if i % 2:
            for o in range(1, 5):
                ps = [raw_pipe(g, g.pick(vals)) for _ in range(g.pick([1, 1, 2, 3, 4, 6]))]
                e.do("obj", o=o, kind="pipe", v=ps)
                for _ in range(4):
                    s = near(g, g.pick(vals)) if g.chance(0.6) else bytes(g.randint(0, 255) for _ in range(g.randint(0, 12)))
                    e.do("obj-use", o=o, val=b(with_nul(g, s)))
        else:
            lay = Lay(g, 0.2)
            attrs = ["id", "class", "title"]
            kids = [E(g.pick(["div", "p"]), [(a, g.pick(vals)) for a in g.some(attrs, 1, 3)],
                      [text_node(g, g.pick(vals)), E("b", [], [text_node(g, g.pick(vals))])]) for _ in range(g.randint(1, 3))]
            e.doc(1, page(g, kids))
            for r in range(1, 4):
                rs = [rule(g, lay, g.pick(["*", "div", "p"]), opt=g.chance(0.5),
                           pats=[capture(g, lay, attrs, [b"n", b"m", b"o"], vals, p_pipe=0.8) for _ in range(g.randint(1, 4))])
                      for _ in range(g.randint(1, 2))]
                e.parse(r, join(g, lay, rs)).extract(r, 1)
        yield e


# ================================================================== captures
def c09(g, n):
    for i in range(n):
        lay = Lay(g, 0.2)
        e = Episode()
        tags = g.some(FREE[:8] + ["x-y"], 2, 3)
        attrs = g.some(ATTRS, 2, 4)
        vals = [word(g, "ab1", 1, 3) for _ in range(5)] + [b""]
        names = g.some([b"n", b"m", b"a", b"A", b"b", b"ab", b"a b", b"\xc3\xa9", b"n.m", b"1", b"z-", b"\xff", b"B"], 1, 4)
        e.doc(1, page(g, tree(g, 3, (1, 4), tags, attrs, vals)))
        e.doc(2, page(g, tree(g, 2, (1, 6), tags, attrs, vals, texts=0.5)))
        for r in range(1, 4):
            rs = []
            def mk(depth):
                ps = [capture(g, lay, attrs, names, vals, 0.1) for _ in range(g.pick([0, 1, 1, 2, 3]) if g.chance(0.97) else 12)]
                if g.chance(0.15):
                    ps.append(predicate(g, lay, attrs, vals))
                g.shuffle(ps)
                kids = [mk(depth - 1) for _ in range(g.randint(1, 2))] if depth and g.chance(0.5) else ()
                ne = [[mk(depth - 1) for _ in range(g.randint(1, 2))]] if depth and g.chance(0.3) else ()
                return rule(g, lay, g.pick(tags + ["*"]), opt=g.chance(0.4), greedy=g.chance(0.3), pats=ps, kids=kids, nested=ne)
            rs = [mk(2) for _ in range(g.randint(1, 3))]
            e.parse(r, join(g, lay, rs)).extract(r, 1).extract(r, 2)
        for _ in range(3):
            e.do("captures", r=g.randint(1, 3), path=[1], d=1, n=1)
        # captures alone
        for o in range(1, 3):
            c = dict(c="attr", n=b(case(g, g.pick(attrs))), to=b(g.pick(names)), ps=[])
            if g.chance(0.4):
                c = dict(c="fn", f=g.pick(["text", "inner-html", "strip-tags"]), to=b(g.pick(names)), ps=[])
            e.do("obj", o=o, kind="capture", v=c)
            for nn in (1, 2, 3):
                e.do("obj-use", o=o, d=2, n=nn)
        yield e


# ====================================================================== text
def text_kids(g, depth, tags):
    out = []
    for _ in range(g.randint(0, 4)):
        k = g.random()
        if k < 0.4:
            n = g.randint(1, 6) if g.chance(0.95) else g.randint(50, 300)
            out.append(esc_text("".join(g.pick("ab \t\n\f\r\vé\u00a0-&\"'\x1c\x1f\u0085\u2003\u200b\u3000") for _ in range(n)).encode()))
        elif k < 0.5:
            out.append(g.pick([b" ", b"\n", b"<!-- c -->", b"<!--x-->", b"<!---->", b"&nbsp;", b"&lt;b&gt;", b"&amp;", b"&#10;", b"&#11;", b"&#13;", b"&#x85;", b"&emsp;", b"&#x3000;"]))
        else:
            e = E(g.pick(tags))
            if g.chance(0.3):
                e.attrs = [("id", b"x")]
            if depth:
                e.kids = text_kids(g, depth - 1, tags)
            out.append(e)
    return out


def special(g):
    return g.pick([b"<template>in <b>t</b></template>", b"<pre>\n a  b\n</pre>", b"<textarea> x\n y</textarea>",
                   b"<script>var x = '<b>';</script>", b"<style>a { }</style>", b"<title> T  t </title>",
                   b"<svg><title>x</title><g>a</g><![CDATA[ cd ]]></svg>", b"<math><mi>x</mi><mo> y </mo></math>",
                   b"<table><tr><td>1<td>2<tr><td> 3</table>", b"<select><option>a<option>b</select>",
                   b"<noscript>n<b>s</b></noscript>", b"<p>1<p>2", b"<ul><li>a<li>b</ul>", b"a<br>b<hr>c<wbr>d",
                   b"<iframe>if</iframe>", b"<xmp><b>x</b></xmp>", b"<plaintext>a<b>c", b"<b>a<p>b</b>c</p>",
                   b"<ruby>a<rp>(</rp><rt>b</rt></ruby>", b"<image src=x>", b"<foo-bar>x</foo-bar>y",
                   b"<video>v<source>w</video>", b"<noembed>e</noembed>", b"<svg><foreignObject><p>x</p></foreignObject></svg>"])


def c10(g, n, fs=("text",)):
    for i in range(n):
        e = Episode()
        k = g.random()
        # every standard element, in the middle of text
        tags = [KNOWN[(i * 3 + j) % len(KNOWN)] for j in range(3)] + g.some(INLINE, 1, 3) + g.some(FREE, 1, 3) + g.some(CUSTOM, 0, 1)
        kids = text_kids(g, g.randint(1, 4), tags if k < 0.6 else g.some(INLINE + FREE, 2, 5))
        if g.chance(0.3):
            kids.insert(g.randint(0, len(kids)), special(g))
        if g.chance(0.5):
            t = tags[g.randrange(3)]
            kids += [b"a", E(t, [], [b"b"]), b"c"]
        h = page(g, kids)
        if g.chance(0.03):
            h = b"<div>" * g.randint(30, 200) + h
        e.doc(1, h)
        nodes = min(30, 4 + h.count(b"<"))
        for f in fs:
            e.do("builtins", d=1, f=f)
        if g.chance(0.4):
            lay = Lay(g, 0)
            e.parse(1, rule(g, lay, g.pick(tags + ["*", "*", "body"]), pats=[b"@" + f.encode() + b":" + f[:1].encode() for f in fs]))
            e.extract(1, 1)
        yield e


def attr_value(g):
    return g.pick([b"", b"x", b"a b", b'q"q', b"a'b", b"b\\s", b"&amp;", b"<b>", b"\xc3\xa9", b"a\nb", b"\t", b"=", value(g)])


def c11(g, n):
    fs = ("inner-html", "strip-tags")
    for i in range(n):
        e = Episode()
        tags = [KNOWN[(i * 2 + j) % len(KNOWN)] for j in range(2)] + g.some(FREE + INLINE, 1, 3) + g.some(CUSTOM + VOID, 1, 3)
        kids = text_kids(g, g.randint(1, 3), tags)
        def deco(xs):
            for x in xs:
                if isinstance(x, E):
                    if g.chance(0.4):
                        x.attrs = [(case(g, a), attr_value(g) if g.chance(0.85) else None)
                                   for a in g.some(["id", "class", "a", "data-x", "xlink:href", "xml:lang", "xmlns",
                                                    "xmlns:xlink", "b.c", "x_y", "viewbox", "checked"], 1, 4)]
                    deco(x.kids)
        deco(kids)
        if g.chance(0.3):
            kids.insert(g.randint(0, len(kids)), special(g))
        if g.chance(0.15):
            if g.chance(0.5):
                kids.insert(g.randint(0, len(kids)), g.pick([b"<![CDATA[ c<d ]]>", b"<![CDATA[]]>", b"<![CDATA[e]]>"]))
            kids = [E("svg", [("xlink:href", b"#a"), ("xml:lang", b"en"), ("xmlns:xlink", b"u"), ("viewBox", b"0 0")],
                      [E(g.pick(["a", "g", "linearGradient", "foreignObject", "title"]), [("xlink:title", b"t"), ("definitionURL", b"d")], kids)])]
        e.doc(1, page(g, kids))
        for f in fs:
            e.do("builtins", d=1, f=f)
        if g.chance(0.3):
            e.parse(1, rule(g, Lay(g, 0), g.pick(tags + ["*", "body"]), pats=[b"@inner-html:h", b"@strip-tags:s"])).extract(1, 1)
        yield e


# ================================================================= templates
def any_template(g, lay=None, big=True):
    """A random valid template of any shape, as text."""
    lay = lay or Lay(g, g.pick([0, 0.3, 1.0]))
    tags = g.some(FREE + CUSTOM + ["h1", "li", "br"], 2, 4)
    attrs = g.some(ATTRS + ["a", "i", "c", "aB-c_1"], 2, 4)
    vals = [value(g) for _ in range(4)]
    return join(g, lay, template(g, tags, attrs, vals, NAMES + [b"trim", b"text"], depth=g.pick([1, 1, 2, 3]),
                                 width=g.pick([1, 2, 3]), lay=lay, traits=0.35, preds=0.4, caps=0.5)), tags, attrs, vals


FRAGMENTS = [b"<", b">", b"/", b"/>", b"</", b"<a", b"<div", b"<?a", b"<+a", b"<*", b"</a>", b"</div>", b"</*>", b"{", b"}",
             b"#", b"\n", b" ", b":", b":first-child", b":not(", b")", b"(", b":nth-child(", b"2n+1", b"odd", b"even", b"-1", b"+",
             b"2n", b"n", b"@text", b"@inner-html", b"@strip-tags", b"=", b"==", b"^=", b"*=", b"$=", b"=~", b"!", b"?", b"id",
             b":x", b'"v"', b"'v'", b"/r/", b"/r/i", b"i", b"c", b":trim", b":trim(", b":filter(", b":replace(", b",", b":append(",
             b"class", b"x", b'"', b"'", b"\\", b"\\'", b"*", b"0", b"9", b"99999999999", b"2147483647", b"2147483648", b"-",
             b"_", b".", b"A", b"\0", b"\x80", b"\xff", b"\xc3\xa9", b"\t", b"\v", b"\f", b"\r", b"\r\n", b"<a/>", b"<a>", b":empty",
             b":child-count(", b":attribute-count(", b":type-matches(", b":prepend(", b":tolower", b":collapsews", b":only-child",
             b"<a><b/></a>", b"<a>{<b/>}</a>", b"{}", b"#c\n", b"&", b"~", b"%", b"\x7f", b"\x01", b"[", b"(?", b"/(/", b"/[/", b"/*/"]


def mutate(g, t):
    for _ in range(g.pick([1, 1, 1, 2, 3])):
        i = g.randint(0, len(t))
        j = min(len(t), i + g.randint(1, 4))
        k = g.random()
        if k < 0.2:
            t = t[:i] + t[j:]
        elif k < 0.45:
            t = t[:i] + g.pick(FRAGMENTS) + t[i:]
        elif k < 0.6:
            t = t[:i] + bytes([g.randint(0, 255)]) + t[i:]
        elif k < 0.75:
            t = t[:i] + bytes([g.randint(0, 255)]) + t[i + 1:]
        elif k < 0.83:
            t = t[:i]
        elif k < 0.9:
            t = t[:i] + t[i:j] * 2 + t[j:]
        elif k < 0.95:
            t = t[i:]
        else:
            m = g.randint(0, len(t))
            t = t[:i] + t[min(i, m):max(i, m)] + t[i:]
    return t


NUMS = ["0", "1", "00", "007", "2147483647", "2147483648", "2147483649", "02147483647", "4294967295", "4294967296",
        "9223372036854775807", "99999999999999999999", "000000000000000000001", "10000000000", "214748364", "2147483650"]


def number_templates(g):
    x, y = g.pick(NUMS), g.pick(NUMS)
    s = g.pick(["", "", "-"])
    t = g.pick(NTH)
    return ("<a" + g.pick([":child-count(%s)" % x, ":attribute-count(%s)" % x, ":%s(%s%s)" % (t, s, x), ":%s(%s%sn)" % (t, s, x),
                           ":%s(%s%sn%s%s)" % (t, s, x, g.pick("+-"), y), ":not(:%s(%s%sn%s%s))" % (t, s, x, g.pick("+-"), y),
                           ":not(:child-count(%s):attribute-count(%s))" % (x, y)])
            + g.pick(["/>", "/>", ">", ""])).encode()


WORDS = ["empty", "child-count", "attribute-count", "nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type",
         "first-child", "first-of-type", "last-child", "last-of-type", "only-child", "only-of-type", "type-matches", "not",
         "even", "odd", "text", "inner-html", "strip-tags", "trim", "collapsews", "tolower", "toupper", "prepend", "append",
         "filter", "replace"]


def word_templates(g):
    w = g.pick(WORDS)
    k = g.random()
    if k < 0.3:
        w = w[:g.randint(0, len(w))]
    elif k < 0.5:
        w = w + g.pick(["x", "-", "s", "1", " ", "(", ")"])
    elif k < 0.7:
        i = g.randrange(len(w))
        w = w[:i] + g.pick("abcdefghijklmnopqrstuvwxyz-_A") + w[i + g.randint(0, 1):]
    elif k < 0.8:
        w = g.pick([w.upper(), w.capitalize(), w + w, w[::-1]])
    f = g.pick(["<a:%s/>", "<a:%s(1)/>", "<a:%s(2n+1)/>", "<a:%s(/x/)/>", "<a:not(:%s)/>", "<a:nth-child(%s)/>", "<a @%s:x/>",
                "<a @%s='v'/>", "<a b:%s:x/>", "<a b:%s('v'):x/>", "<a b:%s(/v/):x/>", "<a b:%s(/v/,'w'):x/>", "<a b:%s()/>",
                "<%s/>", "<a %s/>", "<a b:%s/>", "<a :%s/>", "<a:first-child:%s/>", "<*:%s/>", "<a></%s>", "<%s></%s>"])
    return (f % ((w,) * f.count("%s"))).encode()


def bad_or_good(g):
    k = g.random()
    if k < 0.2:
        return any_template(g)[0]
    if k < 0.55:
        return mutate(g, any_template(g)[0])
    if k < 0.7:
        return b"".join(g.pick(FRAGMENTS) for _ in range(g.randint(0, 8)))
    if k < 0.76:
        return number_templates(g)
    if k < 0.86:
        return word_templates(g)
    if k < 0.9:
        t = any_template(g)[0]
        return mutate(g, t[:len(t) // 2] + any_template(g)[0][-len(t) // 2:])
    if k < 0.95:     # structure: tags and braces only
        return b"".join(g.pick([b"<a>", b"<b>", b"<x>", b"</a>", b"</b>", b"</x>", b"</A>", b"</X>", b"{", b"}", b"<a/>", b"<*>",
                                b"</*>", b" ", b"<?a>", b"#\n"]) for _ in range(g.randint(1, 9)))
    return g.pick([b"", b" ", b"\n", b"#", b"# c", b"#c\n", b"\0", bytes(range(256)), b"<a/>" * 200, b"<a>" * 60 + b"</a>" * 60,
                   b"<a>{" * 30 + b"<b/>" + b"}</a>" * 30, b"\n" * 120 + b"<a", b" " * 300 + b"<", b"<a>" * 40,
                   b"<a>{" * 20 + b"<b/>", b"<" + b"x" * 300 + b"/>", b"<a b='" + b"v" * 400 + b"'/>",
                   b"<a" + b":empty" * 40 + b"/>", b"<a b" + b":trim" * 60 + b":x/>"])


def c12(g, n):
    for i in range(n):
        e = Episode()
        for r in range(1, 9):
            t = bad_or_good(g)
            e.parse(r, t, **({"how": "cstr"} if b"\0" not in t and g.chance(0.1) else {}))
        yield e


def probes(g, prefixes, full):
    """Every prefix, continued by one byte; then a closing suffix."""
    common = b"<>/{}#?+* \n:()!=^$~@,\"'\\.-_019aeinotxzAZ\0\x80\xff\t\r[|&;"
    for p in prefixes:
        sufs = [[]] + [[c] for c in (range(256) if full else sorted(set(common) | {g.randrange(256) for _ in range(8)}))]
        e = Episode()
        e.do("probe", pre=list(p), sufs=sufs)
        e.do("probe", pre=list(p), sufs=[b(g.pick(FRAGMENTS) + g.pick([b"/>", b">", b"", b"</a>", b")/>", b"'/>", b"}</a>"]))
                                         for _ in range(8 if full else 4)])
        yield e


def c13(g, n):
    for i in range(n):
        e = Episode()
        k = g.random()
        t, tags, attrs, vals = any_template(g)
        e.parse(1, t).do("look", r=1)
        # the same with another layout, if it can be made by hand: spaces and comments between rules
        for d in (1, 2):
            e.doc(d, page(g, tree(g, 3, (1, 5), tags, attrs, [v for v in vals if v] or [b"a"])))
            e.extract(1, d)
        if g.chance(0.5):
            st = g.getstate()
            for r, lay in ((2, Lay(g, 0.0)), (3, Lay(g, 1.0))):
                lay.g = G(g.random())
                tt, _, _, _ = any_template(g, lay)
                e.parse(r, tt).do("look", r=r).extract(r, 1)
        # two templates in a row, as siblings and as parent and child
        u = any_template(g)[0]
        e.parse(4, t + g.pick([b"", b"\n", b"#x\n"]) + u).do("look", r=4).extract(4, 1)
        e.parse(5, b"<section id:w?>" + t + u + b"</section>").do("look", r=5)
        e.parse(6, b"<*>{" + t + b"}{" + u + b"}" + t + b"</*>").do("look", r=6).extract(6, 2)
        yield e


def lines_template(g):
    """A template over many lines."""
    n = g.pick([1, 2, 3, 5, 9, 10, 11, 12, 30]) if g.chance(0.95) else g.pick([99, 100, 101, 150])
    out = b""
    for _ in range(n):
        out += g.pick([b"<a/>", b"  <b id:x/>", b"", b"\t<i/>", b"# comment", b"<a><b/>", b"</a>", b"<x", b" id:y", b"/>", b"{<b/>}",
                       b"<p>", b"</p>", b"<a", b">", b"\xc3\xa9" if g.chance(0.05) else b"", b"  ", b"<s/> # c", b"class='a"
                       if g.chance(0.1) else b" "]) + g.pick([b"\n", b"\n", b"\n", b"\r\n", b"\n\n"])
    return out


def c14(g, n):
    for i in range(n):
        e = Episode()
        for r in range(1, 7):
            k = g.random()
            if k < 0.35:
                t = lines_template(g) + g.pick([b"", b"<", b"<a", b"</b>", b"}", b"x", b"<a:foo/>", b"<a b=~/(/ />", b"<a b=c/>"])
            elif k < 0.6:
                lay = Lay(g, 1.0)
                t = mutate(g, any_template(g, lay)[0])
            elif k < 0.85:
                t = bad_or_good(g)
            else:
                t = g.pick([b"", b"\n", b"a\n"]) + g.pick([b"<a b=~/%s/%s />", b"<a:type-matches(/%s/%s)/>", b"<a b:filter(/%s/%s):x/>",
                     b"<a b:replace('%s'%s, 'x'):y/>"]) % (g.pick([b"(", b"[", b"a**", b"\\", b"*", b"a{2,1}", b")", b"\n[", b"(\n", b"[b-a]"]),
                                                         g.pick([b"", b"i", b"ci"]))
            e.parse(r, t)
        yield e


# ================================================================ extraction
def searching(g, lay, tags, depth):
    """A chain of rules that start searches while others are looked for."""
    out = []
    for k in range(g.pick([2, 2, 3])):
        t = g.pick(tags + ["*"])
        leaf = lambda: rule(g, lay, g.pick(tags + ["*"]), opt=g.chance(0.2), pats=[b"@text:n"] if g.chance(0.5) else [])
        kids, nested = [], []
        if depth and g.chance(0.6):
            nested = [[leaf()] if g.chance(0.7) else searching(g, lay, tags, 0) for _ in range(g.pick([1, 1, 2]))]
        if depth and g.chance(0.25):
            kids = searching(g, lay, tags, depth - 1) if g.chance(0.3) else [leaf()]
        out.append(rule(g, lay, t, opt=g.chance(0.4), greedy=g.chance(0.15), pats=[b"@text:m"] if g.chance(0.3) else [], kids=kids, nested=nested))
    return out


def c15(g, n):
    for i in range(n):
        e = Episode()
        tags = g.some(FREE[:10], 2, 3)
        lay = Lay(g, 0)
        vals = [word(g, "ab", 1, 1) for _ in range(3)]
        big = g.chance(0.06)
        for d in (1, 2):
            e.doc(d, page(g, tree(g, g.randint(2, 4), (2, 12) if big else (1, 4), tags, ["id", "class"], vals)))
        for r in (1, 2):
            if g.chance(0.4):
                e.parse(r, join(g, lay, searching(g, lay, tags[:2], g.pick([1, 1, 2]))))
                continue
            e.parse(r, join(g, lay, template(g, tags + ["*"], ["id", "class"], vals, [b"n", b"m"], depth=g.pick([1, 2, 3]),
                                             width=g.pick([1, 1, 2]), lay=lay, mods=g.chance(0.6), traits=0.05, preds=0.2, caps=0.9)))
        lim = list(range(0, 13)) + [g.randint(13, 80) for _ in range(3)] + [-1, 1000000]
        g.shuffle(lim)
        for m in lim:
            e.extract(g.pick([1, 1, 2]), g.pick([1, 1, 1, 2]), 1, m)
        for m in range(1, 7):
            e.extract(2, 2, 1, m)
        for r in (1, 2):
            for d in (1, 2):
                e.do("limit-of", r=r, d=d, n=g.pick([1, 1, 2, 3]))
        e.extract(1, 1, g.randint(1, 3), g.randint(1, 6))
        e.do("look", r=1).do("doc-look", d=1)
        e.extract(1, 1).extract(2, 1)
        yield e


def c16(g, n):
    """Histories of parses, extractions, failures and destructions."""
    for i in range(n):
        e = Episode()
        tags = g.some(FREE[:10], 2, 3)
        lay = Lay(g, 0)
        vals = [word(g, "ab", 1, 2) for _ in range(4)]
        attrs = ["id", "class"]
        htmls, texts = {}, {}
        swap = bytes.maketrans(b"ab12", b"ba21")
        def mkdoc(d):
            # something else in the place of what has been there
            if d in htmls and g.chance(0.6):
                h = re.sub(rb"(?<=[\">'])[ab12 ]+(?=[\"<'])", lambda m: m.group(0).translate(swap), htmls[d])
            else:
                h = page(g, tree(g, 3, (1, 4), tags, attrs, vals))
            htmls[d] = h
            e.doc(d, h)
        def tmpl(r=0):
            if r in texts and g.chance(0.5):
                return re.sub(rb"(?<=['/])[ab12 ]+(?=['/])", lambda m: m.group(0).translate(swap), texts[r])
            texts[r] = fresh()
            return texts[r]
        def fresh():
            return join(g, lay, template(g, tags + ["*"], attrs, vals, [b"n", b"m"], depth=g.pick([1, 2]), width=g.pick([1, 2, 3]),
                                         lay=lay, traits=0.3, preds=0.4, caps=0.9))
        shape = None
        for d in (1, 2):
            mkdoc(d)
        for r in (1, 2, 3):
            e.parse(r, tmpl(r))
        for _ in range(g.randint(8, 20)):
            k = g.random()
            if k < 0.6:
                e.extract(g.randint(1, 3), g.randint(1, 2), 1, g.pick([0, 0, 0, 0, 1, 2, 3, 5]))
            elif k < 0.68:
                r = g.randint(1, 3)
                e.parse(r, tmpl(r))
            elif k < 0.74:
                e.parse(9, mutate(g, tmpl()))
            elif k < 0.84:
                d = g.randint(1, 2)
                e.do("doc-free", d=d)
                mkdoc(d)
            elif k < 0.88:
                e.do("copy", r=g.randint(1, 3), **{"from": g.randint(1, 3)}, path=[1], how=g.pick(["construct", "assign"]))
            elif k < 0.92:
                e.do("look", r=g.randint(1, 3))
            elif k < 0.96:
                e.do("doc-look", d=g.randint(1, 2))
            else:
                e.extract(g.randint(1, 3), g.randint(1, 2), g.randint(1, 3))
        for r in (1, 2, 3):
            for d in (1, 2):
                e.extract(r, d)
        yield e


def c16_threads(g, n):
    for i in range(n):
        e = Episode()
        tags = g.some(FREE[:10], 2, 3)
        lay = Lay(g, 0)
        vals = [g.pick([b"a", b"b", b"ab c", b" x  y "]) for _ in range(4)]
        attrs = ["id", "class"]
        for d in (1, 2):
            e.doc(d, page(g, tree(g, 3, (2, 6), tags, attrs, vals)))
        for r in (1, 2, 3):
            ts = template(g, tags + ["*"], attrs, vals, [b"n", b"m"], depth=2, width=2, lay=lay, traits=0.5, preds=0.6, caps=0.9)
            # everything that could keep state, in one rule
            ts.append(rule(g, lay, "*", opt=g.chance(0.5), pats=[
                b"@text:" + pipe(g, lay, vals) + b":p", b"@inner-html:h", b"class:" + pipe(g, lay, vals) + b":q?",
                b"@text=~" + lay.rx(regex(g).encode(), b"i") + g.pick([b"", b"!"])] + [predicate(g, lay, attrs, vals)] * g.chance(0.5),
                traits=[trait(g)] if g.chance(0.4) else []))
            e.parse(r, join(g, lay, ts))
        th = []
        for t in range(g.randint(2, 4)):
            th.append([dict(t=t, r=g.randint(1, 3), d=g.randint(1, 2), n=1, max=g.pick([0, 0, 0, 2, 5])) for _ in range(g.randint(2, 5))])
        e.do("par", threads=th)
        for r in (1, 2, 3):
            e.extract(r, 1)
        yield e


# ============================================================ value semantics
class Shape:
    """The structure of the rules in the slots, to build valid paths."""
    def __init__(self):
        self.rules = {}

    @staticmethod
    def copy(c):
        return [dict(ch=Shape.copy(x["ch"]), ne=[Shape.copy(q) for q in x["ne"]]) for x in c]

    def paths(self, c):
        out = []
        def go(c, pre):
            for i, x in enumerate(c):
                p = pre + [i + 1]
                out.append((p, x, c))
                go(x["ch"], p + [0])
                for k, q in enumerate(x["ne"]):
                    go(q, p + [k + 1])
        go(c, [])
        return out


def raw_test(g, vals, d=1):
    k = g.random()
    if d and k < 0.2:
        return dict(t="not", x=raw_test(g, vals, d - 1))
    if k < 0.3:
        return dict(t="re", re=dict(src=b(regex(g)), ic=g.chance(0.3)))
    return dict(t=g.pick(["words", "eq", "begins", "contains", "ends"]), v=b(near(g, g.pick(vals))))


def raw_match(g, attrs, vals, d=1):
    k = g.random()
    if k < 0.35:
        return dict(m="attr", n=b(g.pick(attrs)), x=raw_test(g, vals) if g.chance(0.7) else dict(t="any"))
    if k < 0.45:
        return dict(m="fn", f=g.pick(["text", "inner-html", "strip-tags"]), x=raw_test(g, vals))
    if k < 0.6:
        return dict(m="nth", a=g.randint(-2, 2), b=g.randint(-1, 3), last=g.chance(0.5), same=g.chance(0.5))
    if k < 0.65:
        return dict(m="only", same=g.chance(0.5))
    if k < 0.75:
        return dict(m=g.pick(["children", "attrs"]), c=g.randint(0, 2))
    if k < 0.82:
        return dict(m="type", re=dict(src=b(g.pick(["d", "^p", "-"])), ic=g.chance(0.5)))
    if k < 0.87:
        return dict(m="user")
    if d:
        return dict(m="not", ms=[raw_match(g, attrs, vals, d - 1) for _ in range(g.pick([0, 1, 2, 2, 3, 4]))])
    return dict(m="children", c=0)


def raw_capture(g, attrs, vals, names=("n", "m", "o")):
    ps = [raw_pipe(g, g.pick(vals)) for _ in range(g.pick([0, 0, 1, 2, 3]))]
    to = b(g.pick(names))
    if g.chance(0.5):
        return dict(c="attr", n=b(g.pick(attrs)), to=to, ps=ps)
    return dict(c="fn", f=g.pick(["text", "inner-html", "strip-tags"]), to=to, ps=ps)


def c17(g, n):
    for i in range(n):
        if i % 3 == 2:
            yield from c17_parts(g, 1)
            continue
        if i % 12 == 4:
            yield c17_texts(g)
            continue
        e = Episode()
        tags = ["div", "p", "x-y"]
        attrs = ["id", "class"]
        vals = [b"a", b"b", b"a b", b"B"]
        sh = Shape()
        R = sh.rules
        for d in (1, 2):
            e.doc(d, page(g, tree(g, 3, (1, 4), tags, attrs, vals)))
        docs = {1, 2}
        def new(r):
            if g.chance(0.3):
                return
            e.do("rule", r=r, by=g.pick(["name", "tag"]), tag=b(g.pick(["div", "p"])), opt=g.chance(0.3), greedy=g.chance(0.2))
        for _ in range(g.randint(6, 26)):
            r = g.randint(1, 4)
            k = g.random()
            if r not in R or k < 0.06:
                if g.chance(0.35):
                    lay = Lay(g, 0)
                    t = rule(g, lay, g.pick(tags + ["*"]), opt=g.chance(0.2), greedy=g.chance(0.2), pats=[capture(g, lay, attrs, [b"n", b"m"], vals)],
                             kids=[rule(g, lay, g.pick(tags), opt=g.chance(0.5), pats=[b"id:c?"])], nested=[[rule(g, lay, g.pick(tags), opt=True, pats=[b"class:k"])]])
                    e.parse(r, t)
                    R[r] = [dict(ch=[dict(ch=[], ne=[])], ne=[[dict(ch=[], ne=[])]])]
                else:
                    by = g.pick(["name", "tag"])
                    t = g.pick(["div", "p", "DIV"] + (["x-y", "X-y", "*", ""] if by == "name" else ["*", ""]))
                    e.do("rule", r=r, by=by, tag=b(t.lower() if by == "tag" else t), opt=g.chance(0.25), greedy=g.chance(0.2))
                    R[r] = [dict(ch=[], ne=[])]
                if g.chance(0.7):
                    e.do("add-capture", r=r, path=[1], v=raw_capture(g, attrs, vals))
                continue
            ps = sh.paths(R[r])
            p, x, c = g.pick(ps)
            if k < 0.14:
                e.do("add-match", r=r, path=p, v=raw_match(g, attrs, vals))
            elif k < 0.24:
                e.do("add-capture", r=r, path=p, v=raw_capture(g, attrs, vals))
            elif k < 0.34:
                op = g.pick(["set-optional", "set-greedy", "set-tag", "set-tagname"])
                v = g.chance(0.5) if op in ("set-optional", "set-greedy") else b(g.pick(["div", "p", "", "*"]) if op == "set-tag" else g.pick(tags))
                e.do(op, r=r, path=p, v=v)
            elif k < 0.56 and len(R) > 1 or k < 0.4:
                f = g.pick(sorted(R))
                if len(sh.paths(R[f])) + len(ps) > 30:
                    continue
                move = g.chance(0.4) and f != r
                how = g.pick(["child", "next", "nested"])
                e.do("append", r=r, path=p, **{"from": f}, how=how, move=move)
                new = Shape.copy(R[f])
                if how == "child":
                    x["ch"] += new
                elif how == "nested":
                    x["ne"].append(new)
                else:
                    c += new
                if move:
                    del R[f]
            elif k < 0.7:
                to = g.randint(1, 4)
                inner = g.chance(0.5)
                q = p if inner else [1]
                # the copied rule may be part of the rule that is assigned to
                e.do("copy", r=to, **{"from": r}, path=q, how=g.pick(["construct", "assign", "assign"]))
                cc = c if inner else R[r]
                R[to] = Shape.copy(cc[q[-1] - 1:])
            elif k < 0.78:
                to = g.randint(1, 4)
                if to == r:
                    continue
                e.do("move", r=to, **{"from": r}, how=g.pick(["construct", "assign"]))
                R[to] = R.pop(r)
            elif k < 0.82:
                e.do("free", r=r)
                del R[r]
            elif k < 0.86:
                e.do("look", r=r)
            elif k < 0.9 and docs:
                f = g.pick(sorted(docs))
                to = g.randint(1, 3)
                if f != to:
                    e.do("doc-move", d=to, **{"from": f}, how=g.pick(["construct", "assign"]))
                    docs.discard(f)
                    docs.add(to)
            elif docs:
                e.extract(r, g.pick(sorted(docs)))
        for r in sorted(R):
            e.do("look", r=r)
            for d in sorted(docs):
                e.extract(r, d)
                e.do("matches", r=r, path=[1], d=d, n=g.randint(1, 3))
                e.do("captures", r=r, path=[1], d=d, n=g.randint(1, 3))
        for d in sorted(docs):
            e.do("doc-look", d=d)
        yield e


def c17_texts(g):
    """Copies of whole templates, of any form."""
    e = Episode()
    ts = []
    for r in (1, 2, 3):
        t, tags, attrs, vals = any_template(g)
        e.parse(r, t)
        ts.append(t)
    for d in (1, 2):
        e.doc(d, page(g, tree(g, 3, (1, 5), tags, attrs, [v for v in vals if v] or [b"a"])))
    for _ in range(g.randint(3, 9)):
        a, z = g.randint(1, 5), g.randint(1, 5)
        k = g.random()
        if k < 0.6:
            e.do("copy", r=z, **{"from": a}, path=[1], how=g.pick(["construct", "assign", "assign"]))
        elif k < 0.75 and a != z:
            e.do("move", r=z, **{"from": a}, how=g.pick(["construct", "assign"]))
        elif k < 0.85:
            e.do("append", r=a, path=[1], **{"from": z}, how=g.pick(["child", "next", "nested"]), move=False)
        elif k < 0.92:
            e.do("free", r=a)
        else:
            e.do("look", r=a)
    for r in range(1, 6):
        e.do("look", r=r).extract(r, 1).extract(r, 2)
    return e


def c17_parts(g, n):
    """Copies of tests, matches, captures and pipes."""
    for i in range(n):
        e = Episode()
        attrs = ["id", "class"]
        vals = [b"a", b"b", b"a b", b"Ab c"]
        e.doc(1, page(g, tree(g, 2, (2, 5), ["div", "p", "x-y"], attrs, vals)))
        kinds = {}
        # often all objects are of one class: only then assignment copies
        focus = g.chance(0.7)
        sort = {}
        def make(o, kind):
            one = dict(test=lambda: raw_test(g, vals, 2), match=lambda: raw_match(g, attrs, vals, 2),
                       capture=lambda: raw_capture(g, attrs, vals),
                       pipe=lambda: [raw_pipe(g, g.pick(vals)) for _ in range(g.randint(1, 4))])[kind]
            cls = lambda v: v[0].get("p") if kind == "pipe" else v.get("t") or v.get("m") or v.get("c")
            v = one()
            if focus and kind not in sort:
                sort[kind] = g.pick(sorted({cls(one()) for _ in range(60)}))
            for _ in range(200):
                if not focus or cls(v) == sort[kind]:
                    break
                v = one()
            e.do("obj", o=o, kind=kind, v=v)
            kinds[o] = kind
        def use(o):
            k = kinds[o]
            if k == "test":
                e.do("obj-use", o=o, val=[b(near(g, g.pick(vals)))] if g.chance(0.9) else [])
            elif k == "pipe":
                e.do("obj-use", o=o, val=b(near(g, g.pick(vals))))
            else:
                e.do("obj-use", o=o, d=1, n=g.randint(1, 5))
        kind = g.pick(["test", "match", "capture", "pipe"])
        for _ in range(g.randint(5, 18)):
            o = g.randint(1, 4)
            if o not in kinds or g.chance(0.1):
                make(o, kind if g.chance(0.9) else g.pick(["test", "match", "capture", "pipe"]))
                continue
            k = g.random()
            if k < 0.35:
                use(o)
            elif k < 0.65:
                to = g.randint(1, 4)
                e.do("obj-copy", o=to, **{"from": o}, how=g.pick(["clone", "construct", "assign", "assign"]))
                kinds[to] = kinds[o]
            elif k < 0.8:
                to = g.randint(1, 4)
                if to == o:
                    continue
                e.do("obj-move", o=to, **{"from": o}, how=g.pick(["construct", "assign"]))
                kinds[to] = kinds.pop(o)
            elif k < 0.88:
                e.do("obj-free", o=o)
                del kinds[o]
            elif kinds[o] in ("match", "capture"):
                e.do("rule", r=1, by="tag", tag=b("*"), opt=False, greedy=False)
                e.do("add-obj", r=1, path=[1], o=o)
                if kinds[o] == "match":
                    e.do("add-capture", r=1, path=[1], v=dict(c="attr", n=b("id"), to=b("i"), ps=[]))
                e.do("copy", r=2, **{"from": 1}, path=[1], how="construct")
                e.extract(1, 1).extract(2, 1)
        for o in sorted(kinds):
            use(o)
            use(o)
        yield e
