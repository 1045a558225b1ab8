"""Scenarios for htmlext and for the bindings."""
from .gen import *
from .profiles import any_template, bad_or_good, mutate, ATTRS
from .run import Episode, b

LONG = dict(x=b"hext", i=b"html", s=b"str", c=b"compact", p=b"pretty", a=b"array", l=b"lint", h=b"help", V=b"version",
            f=b"filter", m=b"max-searches")

# beginnings of these names that are no beginnings of others
SHORT = dict(x=[b"hex"], i=[b"ht", b"htm"], s=[b"s", b"st"], c=[b"c", b"comp"], p=[b"p", b"pre"], a=[b"a", b"arr"], l=[b"l", b"lin"],
             h=[b"hel"], V=[b"v", b"vers"], f=[b"f", b"filt"], m=[b"m", b"max", b"max-"])


def bad_template(g):
    return g.pick([b"<", b"<a", b"<a>", b"</a>", b"<a/></a>", b"x", b"<a:foo/>", b"<a b=~/(/ />", b"<a {/>", b"<a/>\n<b/>\n<c", b"<a></b>"])


class Run:
    """A command line under construction."""
    def __init__(self, g):
        self.g, self.files, self.toks, self.args = g, [], [], []

    def file(self, name, src, st="ok"):
        name = {"long": bytes(name) * (300 // len(name) + 1), "under": b"plain/" + name}.get(st, name)
        self.files.append(dict(name=b(name), st=st, src=b(src)))
        return len(self.files)

    def opt(self, k, v):
        """The spellings of an option with a value."""
        s, l = b"-" + k.encode(), b"--" + self.long(k)
        ways = [[s, v], [l, v]] if v[:1] != b"-" or v == b"-" or v[1:2].isdigit() else []
        if v:
            ways += [[s + v], [l + b"=" + v]]
        return self.g.pick(ways)

    def long(self, k):
        """The name of an option, sometimes as short as it is unique."""
        return self.g.pick(SHORT[k]) if self.g.chance(0.12) else LONG[k]

    def add(self, k, f=None, src=None, v=None):
        t = dict(k=k)
        if f is not None:
            t["f"] = f
        if src is not None:
            t["src"] = b(src)
        if v is not None:
            t["v"] = b(v)
        if k in "xi":
            a = self.opt(k, bytes(self.files[f - 1]["name"]))
        elif k == "pos":
            a = [bytes(self.files[f - 1]["name"])]
        elif k == "s":
            a = self.opt(k, src)
        elif k in "fm":
            a = self.opt(k, v)
        elif k == "bad":
            a = [self.g.pick([b"--bogus", b"-z", b"-q9", b"--html-file=x"])]
        elif k == "noarg":
            a = [self.g.pick([b"-x", b"--hext", b"-i", b"--html", b"-s", b"--str", b"-f", b"--filter", b"-m", b"--max-searches"])]
        else:
            a = [b"-" + k.encode() if self.g.chance(0.6) else b"--" + self.long(k)]
        self.toks.append(t)
        self.args.append(a)
        return self

    def shuffle(self):
        """Another order of the arguments."""
        k = list(range(len(self.toks)))
        self.g.shuffle(k)
        self.toks, self.args = [self.toks[i] for i in k], [self.args[i] for i in k]

    def noarg_last(self):
        k = sorted(range(len(self.toks)), key=lambda i: self.toks[i]["k"] == "noarg")
        self.toks, self.args = [self.toks[i] for i in k], [self.args[i] for i in k]

    def cmd(self, e, tty=False, **kw):
        self.noarg_last()
        args = [b(x) for a in self.written() for x in a]
        return e.do("cli", files=self.files, toks=self.toks, args=args, tty=tty, **kw)

    def written(self):
        """The arguments, with flags run together and with `--` before the files."""
        g = self.g
        n = sum(t["k"] == "pos" for t in self.toks)
        odd = lambda a: a[0][:1] == b"-" and a[0] != b"-"
        if any(t["k"] == "noarg" for t in self.toks):
            # nothing can follow an option without its value but the end
            args = [[b"./" + a[0]] if t["k"] == "pos" and odd(a) else a for t, a in zip(self.toks, self.args)]
        elif n and (any(t["k"] == "pos" and odd(a) for t, a in zip(self.toks, self.args)) or g.chance(0.1)):
            k = sorted(range(len(self.toks)), key=lambda i: self.toks[i]["k"] == "pos")
            self.toks, self.args = [self.toks[i] for i in k], [self.args[i] for i in k]
            args = self.args[:-n] + [[b"--"]] + self.args[-n:]
        else:
            args = self.args
        if g.chance(0.25):
            out = []
            for a in args:
                if a == [b"--"]:
                    break
                if out and len(out[-1]) == 1 and out[-1][0][:1] == b"-" and all(c in b"cpalhV" for c in out[-1][0][1:]) \
                        and len(out[-1][0]) > 1 and a[0][:1] == b"-" and a[0][1:2].isalpha() and len(a[0]) > 1:
                    out[-1] = [out[-1][0] + a[0][1:]] + a[1:]
                else:
                    out.append(list(a))
            args = out + (args[args.index([b"--"]):] if [b"--"] in args else [])
        return args


def names(g, n, ext):
    """Names of files."""
    base = [b"a", b"b1", b"x y", b"\xc3\xa9", b"c.d", b"very-long-name-of-a-file", b"t'q", b"z\"q", b"1", b"_", b"n\xff", b"-l", b"--lint", b"-x"]
    return [x + ext for x in g.sample(base, n)]


def documents(e, r):
    """The library's own view of the files: the slot of a document is the number of its file."""
    for i, f in enumerate(r.files):
        if f["st"] == "ok":
            e.doc(i + 1, bytes(f["src"]))


CTRL = [bytes([i]) for i in range(1, 32)] + [b"\x7f", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"\xe2\x80\xa8", b'"', b"\\", b"/",
        b"\\u0041", b"\\n", b"</script>", b"\xef\xbb\xbf", b"\xc2\x80", b"\0", b"'"]


def nasty(g):
    return b"".join(g.pick([word(g, "ab1", 1, 2), g.pick(CTRL), g.pick(CTRL)]) for _ in range(g.randint(1, 5)))


def quoted(g, v):
    return b"'" + v.replace(b"\\", b"\\\\").replace(b"'", b"\\'") + b"'"


NAMES18 = [b"n", b"m", b"o1", b"a.b", b"x-y", b"Z_", b"n2", b"a", b"B", b"0", b"12", b"-5", b"007", b"9223372036854775808"]


def printing_template(g, tags, attrs, nul=True):
    """A template with captures of all kinds and values with special bytes."""
    def cap():
        name = g.pick(NAMES18)
        if g.chance(0.15):
            name = g.pick([b"a\0b", b"a\0", b"a", b"\0", b'"', b"a\nb", b"\\", b"\xc3\xa9", b"a b", nasty(g)])
            name = quoted(g, name if nul else name.replace(b"\0", b"") or b"n")
        p = b""
        if g.chance(0.3):
            v = nasty(g)
            if not nul:
                v = v.replace(b"\0", b"")
            p = b":" + g.pick([b"append", b"prepend"]) + b"(" + quoted(g, v) + b")"
        if g.chance(0.5):
            return g.pick([b"@text", b"@inner-html", b"@strip-tags"]) + p + b":" + name
        return g.pick(attrs).encode() + p + b":" + name + (b"?" if g.chance(0.6) else b"")
    out = b""
    for _ in range(g.randint(1, 2)):
        t = g.pick(tags + ["*"]).encode()
        q = g.pick([b"", b"", b"?"])
        out += b"<" + q + t + b" " + b" ".join(cap() for _ in range(g.randint(1, 3)))
        out += b"/>" if g.chance(0.6) else b"><?" + g.pick(tags).encode() + b" " + cap() + b"/></" + t + b">"
    return out


def c18(g, n):
    for i in range(n):
        e = Episode()
        r = Run(g)
        tags = g.some(FREE[:10], 1, 3)
        attrs = g.some(ATTRS, 1, 3)
        vals = [nasty(g).replace(b"\0", b"") if g.chance(0.6) else value(g) for _ in range(5)]
        if g.chance(0.03):
            vals.append(word(g, "abc", 3000, 3000))
        nx, ns, nh = g.pick([0, 1, 1, 2]), g.pick([0, 0, 1, 2]), g.pick([1, 1, 2, 3])
        if not nx + ns:
            nx = 1
        tiny = g.chance(0.2)     # many documents of a few bytes, each with elements of its own
        if tiny:
            own = [w + word(g, "abx", 1, 1) for w in (b"x-", b"y-", b"z")]
            nh = g.randint(2, 5)
            xs = [r.file(nn, b"".join(b"<%s %s/>" % (g.pick(own + [b"*"]), g.pick([b"@text:t", b"a:t", b"@inner-html:t"])) for _ in range(g.randint(1, 3))))
                  for nn in names(g, nx, b".hext")]
            hs = [r.file(nn, g.pick([b"<%s>%s", b"<%s a=%s>", b"<%s><b>%s", b"<%s>%s<i>"]) % (g.pick(own), word(g, "12", 0, 3))) for nn in names(g, nh, b".html")]
        else:
            xs = [r.file(nn, printing_template(g, tags, attrs)) for nn in names(g, nx, g.pick([b".hext", b""]))]
            hs = [r.file(nn, page(g, tree(g, 2, g.pick([(0, 2), (1, 4)]), tags, attrs, vals, texts=0.5))) for nn in names(g, nh, b".html")]
        documents(e, r)
        pos = xs[:1] + hs if ns == 0 and nx == 1 and g.chance(0.6) else []
        for f in pos:
            r.add("pos", f)
        if not pos:
            order = [("x", f) for f in xs] + [("s", None)] * ns + [("i", f) for f in hs]
            g.shuffle(order)
            for k, f in order:
                if k == "s":
                    r.add("s", src=printing_template(g, tags, attrs, nul=False))
                else:
                    r.add(k, f)
            if g.chance(0.2):     # the same document or template again
                r.add("i", g.pick(hs))
            if xs and g.chance(0.1):
                r.add("x", g.pick(xs))
        base = list(zip(r.toks, r.args))
        for _ in range(3):
            r.toks, r.args = [t for t, _ in base], [a for _, a in base]
            for k in "cpa":
                if g.chance(0.45):
                    r.add(k)
            if g.chance(0.3):
                r.add("f", v=g.pick(NAMES18 + [b"zz"]) if g.chance(0.8) else g.pick([b"a", b'"', b"a\nb", b"\\", b"\xc3\xa9", b"a b", b""]))
            if g.chance(0.25):
                r.add("m", v=g.pick([b"0", b"1", b"2", b"3", b"5", b"9", b"20", b"100000", b"007", b"9999999999", b"4294967296", b"4294967297", b"2147483649", b"4294967298"]))
            if g.chance(0.5):    # options anywhere, files in their order
                r.shuffle()
                if pos:
                    it = iter([(t, a) for t, a in base])
                    k = [i for i, t in enumerate(r.toks) if t["k"] == "pos"]
                    for i in k:
                        r.toks[i], r.args[i] = next(it)
            r.cmd(e, tty=g.chance(0.2))
        yield e


def raw_bytes(g):
    """The contents of a file that is easily read only in part."""
    marks = [b"\xef\xbb\xbf", b"\xef", b"\xef\xbb", b"\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0", b"\x1a", b"\xff", b"\x1f\x8b", b"#!", b" ", b"\n", b"\t", b"\r", b"\x0c", b"\x04"]
    p = [b"<p>a</p>", b"\r\n", b"\n", b"\r", b"\0", b"\x1a", b"<p>b\0c</p>", b"<p>\xc3\xa9</p>", b"<p>\r\nx\r\n</p>", b" ", b"<p>z"] + marks
    s = b"".join(g.pick(p) for _ in range(g.randint(1, 12)))
    k = g.random()
    if k < 0.1:
        s = b"<p>" + b"x" * g.pick([4095, 4096, 4097, 8191, 8192, 9000, 511, 1023, 1024]) + b"</p>" + s
    elif k < 0.14:
        s = b"<p>a</p><!--" + b"y" * g.pick([16384, 32768, 65536, 70000, 131073]) + b"-->" + s
    if g.chance(0.45):        # what a reader may take for a mark at the edge
        s = b"".join(g.pick(marks) for _ in range(g.randint(1, 2))) + g.pick([s, b"z" + s, b"<p>" + s])
    if g.chance(0.3):
        s += g.pick([b"z", b"<p>z", b""]) + b"".join(g.pick(marks) for _ in range(g.randint(1, 2)))
    return s


def c19(g, n):
    for i in range(n):
        e = Episode()
        r = Run(g)
        tags = g.some(FREE[:6], 1, 2)
        attrs = ["id"]
        k = g.random()
        if k < 0.25:      # whole inputs
            x = r.file(b"t", g.pick([b"<p @text:t/>", b"<p @inner-html:t/>", b"<*><p @text:t/></*>"] + [b"<body @text:t @inner-html:h/>", b"<html @text:t/>"] * 5 + [ b"<p @text:t/>\r\n", b"\n\n<p @text:t/>",
                                     b"<p @text:append('\0a'):t/>", b"#\0\n<p @text:t/>", b"\xef\xbb\xbf<p @text:t/>", b"\xef<body @text:t/>", b"\xbb\xbf<p @text:t/>", b"\xff\xfe<p @text:t/>", b"<p @text:t/>\0",
                                     b"<p @text:t/>#" + b"y" * 5000 + b"\n<p", b""]))
            h = r.file(g.pick([b"h", b"h.html", b"-"]), raw_bytes(g))
            documents(e, r)
            r.add("x", x).add("i", h)
            if g.chance(0.3):
                r.add("c")
            r.cmd(e, whole=True)
            if g.chance(0.3):     # the template from standard input
                r = Run(g)
                x = r.file(b"-", g.pick([b"<p @text:t/>", b"<p @text:t/", b"<body @inner-html:t/>", b"<body @inner-html:t/>", b"\xef\xbb\xbf<p @text:t/>", b"\xef<p @text:t/>", b"<p @text:prepend('\r\n'):t/>\n"]))
                h = r.file(b"h", raw_bytes(g))
                documents(e, r)
                r.add("pos", x).add("pos", h).cmd(e, whole=True)
            yield e
            continue
        # several inputs, of which some are bad
        nx, ns, nh = g.randint(0, 3), g.randint(0, 2), g.randint(0, 3)
        st = lambda: g.pick(["missing", "dir", "loop", "long", "under"]) if g.chance(0.12) else "ok"
        bad = g.pick([0.0, 0.0, 0.15, 0.5])
        tm = lambda: (bad_template(g) if g.chance(0.7) else bad_or_good(g)) if g.chance(bad) else printing_template(g, tags, attrs)
        xs = [r.file(nn, tm(), st()) for nn in names(g, nx, b".x")]
        hs = [r.file(nn, page(g, tree(g, 2, (0, 4), tags, attrs, [b"v", b"w"], texts=0.4)), st()) for nn in names(g, nh, b".h")]
        documents(e, r)
        order = [("x", f) for f in xs] + [("s", None)] * ns + [("i", f) for f in hs]
        if g.chance(0.4):
            g.shuffle(order)
        positional = g.chance(0.4)
        for k, f in order:
            if k == "s":
                r.add("s", src=tm().replace(b"\0", b"0") or b"<a/>")
            else:
                r.add("pos" if positional and g.chance(0.7) else k, f)
        lint = g.chance(0.25)
        extra = []
        if lint:
            extra.append("l")
        if g.chance(0.25):
            extra.append("m")
        for x in "cpaf":
            if g.chance(0.12):
                extra.append(x)
        if g.chance(0.15):
            extra.append(g.pick(["bad", "noarg", "h", "V", "m", "f", "c", "l"]))
        for x in extra:
            v = None
            if x == "m":
                v = g.pick([b"1", b"2", b"3", b"4", b"6", b"10", b"50"]) if g.chance(0.85) else \
                    g.pick([b"x", b"1x", b"1.5", b"9" * 30, b"0x1", b"-1", b"-18446744073709551615", b"-0", b"+2", b"+", b" 3", b"2 ", b"1,0", b"",
                            b"18446744073709551615", b"18446744073709551616", b"0" * 30 + b"2", b"18446744073709551617"])
            if x == "f":
                v = g.pick(NAMES18)
            r.add(x, v=v)
        if g.chance(0.6):
            r.shuffle()
        sink = g.pick(["full", "full", "closed"]) if g.chance(0.12) else "ok"
        r.cmd(e, tty=sink == "ok" and g.chance(0.05), sink=sink)
        yield e


# =================================================================== bindings
def split_characters(g, tags, attrs):
    """Values cut within a character, under names captured once and more often."""
    names = g.some(NAMES18, 1, 2)

    def cap(p):
        x = g.pick([b"@text", b"@inner-html", g.pick(attrs).encode()])
        return x + p + b":" + g.pick(names) + (b"" if x[:1] == b"@" else b"?")
    out = b""
    for _ in range(g.randint(1, 2)):
        t = g.pick(tags + ["*", "*"]).encode()
        caps = [cap(b":filter(" + g.pick([b"/./", b"/^.../", b"/.$/", b"/../", b"/[^a-z]/"]) + b")") for _ in range(g.pick([1, 1, 2, 3]))]
        if g.chance(0.5):
            caps.append(cap(b""))
        g.shuffle(caps)
        out += b"<?" + t + b" " + b" ".join(caps) + b"/>"
    return b"<?body>" + out + b"</body>" if g.chance(0.5) else out


def c20(g, n):
    for i in range(n):
        e = Episode()
        lang = g.pick(["python", "ruby", "php"])
        lay = Lay(g, 0.1)
        tags = g.some(FREE[:10], 1, 3)
        attrs = g.some(ATTRS, 1, 3)
        vals = [nasty(g) if g.chance(0.4) else value(g) if g.chance(0.6) else
                b"".join(g.pick([b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"a", b"b "]) for _ in range(g.randint(1, 4))) for _ in range(5)]
        ok = lambda v: v.decode("utf-8", "ignore").encode() if lang == "python" else v
        vals = [ok(v) for v in vals]

        def text():
            k = g.random()
            if k < 0.12:
                return split_characters(g, tags, attrs)
            if k < 0.5:
                return printing_template(g, tags, attrs)
            if k < 0.7:
                return any_template(g)[0]
            if k < 0.85:
                return bad_or_good(g)
            if k < 0.9:
                return g.pick([b"", b"<a b=~/(/ />", b"<a b=~/(a*)*c/ b:x/>", b"<", b"<p @text:t/>", b"<* @text:replace(/(a|aa)+$/,'x'):t/>"])
            return join(g, lay, template(g, tags, attrs, vals or [b"a"], NAMES18, depth=g.pick([1, 2]), width=2, lay=lay, caps=0.9))

        def doc(d):
            e_doc = ok(page(g, tree(g, 2, (1, 4), tags, attrs, vals, texts=0.5)))
            e.doc(d, e_doc).do("b-html", lang=lang, d=d, html=b(e_doc), drop=g.chance(0.5))

        doc(1), doc(2)
        for r in (1, 2, 3):
            if g.chance(0.9):
                e.do("b-rule", lang=lang, r=r, src=b(ok(printing_template(g, tags, attrs))))
        for _ in range(g.randint(4, 14)):
            k = g.random()
            if k < 0.35:
                e.do("b-rule", lang=lang, r=g.randint(1, 3), src=b(ok(text())))
                if g.chance(0.3):
                    # calling the constructor of an object again, in vain
                    e.do("b-rule", lang=lang, r=g.randint(1, 3), src=b(ok(text()) + b"<"), again=True)
            elif k < 0.8:
                m = g.pick([0, 0, 0, 1, 2, 3, 5, 1000, 0, 1, 2, -1, -2, -3, 7])
                e.do("b-extract", lang=lang, r=g.randint(1, 3), d=g.randint(1, 2), max=m, **({"explicit": True} if g.chance(0.3) else {}))
            elif k < 0.87:
                doc(g.randint(1, 2))
            elif k < 0.9:
                e.do("b-misuse", lang=lang, kind=g.pick(["extract-type", "rule-missing", "max-type", "rule-type", "html-type", "rule-list", "rule-hollow"]
                                                          # SWIG's own conversion crashes for these in PHP
                                                          + ["html-hollow"] * (lang != "php")))
            else:
                # the slot of a document stays in the library's own view; only templates are dropped
                e.do("b-free", lang=lang, what="rule", slot=g.randint(1, 3))
        for r in (1, 2, 3):
            e.do("b-extract", lang=lang, r=r, d=1, max=0)
        if g.chance(0.35):
            # many documents, one after the other in the same place
            r, m = g.randint(1, 3), g.pick([0, 0, 50])
            e.do("b-rule", lang=lang, r=r, src=b(ok(printing_template(g, tags, attrs))))
            t0 = g.pick(tags).encode()
            e.do("b-rule", lang=lang, r=g.pick([1, 2, 3]), src=b(b"<" + t0 + b" @text:t/>"))
            for j in range(g.randint(3, 8)):
                h = b"<%s>%s" % (t0, word(g, "abc12", 1, 2))
                e.doc(2, h).do("b-html", lang=lang, d=2, html=b(h), drop=True)
                for r in (1, 2, 3):
                    e.do("b-extract", lang=lang, r=r, d=2, max=m)
        if g.chance(0.4):
            # characters of more than one byte, cut
            many = lambda: b"".join(g.pick([b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"a", b"b"]) for _ in range(g.randint(1, 3)))
            tx = g.pick(tags).encode()
            d = b"".join(b"<" + tx + b" " + attrs[0].encode() + b"='" + many() + b"'>" + many() + b"</" + tx + b">" for _ in range(g.randint(1, 3)))
            e.doc(2, d).do("b-html", lang=lang, d=2, html=b(d))
            for r in (1, 2, 3):
                e.do("b-rule", lang=lang, r=r, src=b(split_characters(g, [tx.decode()], attrs[:1])))
                e.do("b-extract", lang=lang, r=r, d=2, max=0)
        yield e
