"""Building blocks for scenario generators: documents, templates, values.

Nothing here knows what the right answer is: the specification judges every
event.  The generators only have to be varied, and to hit things often."""
import random

HTML_WS = [" ", "\t", "\n", "\f", "\r"]
INLINE = ("a abbr acronym b bdo big cite code del dfn em fieldset font i img ins kbd label legend map object q s "
          "samp small span strike strong sub sup tt u var").split()
VOID = "area base br col embed hr img input keygen link meta param source track wbr".split()
KNOWN = ("html head title base link meta style script noscript template body article section nav aside h1 h2 h3 h4 "
         "h5 h6 hgroup header footer address p hr pre blockquote ol ul li dl dt dd figure figcaption main div a em "
         "strong small s cite q dfn abbr data time code var samp kbd sub sup i b u mark ruby rt rp bdi bdo span br wbr "
         "ins del image img picture iframe embed object param video audio source track canvas map area math mi mo mn "
         "ms mtext mglyph malignmark annotation-xml svg foreignobject desc table caption colgroup col tbody thead "
         "tfoot tr td th form fieldset legend label input button select datalist optgroup option textarea keygen "
         "output progress meter details summary menu menuitem applet acronym bgsound dir frame frameset noframes "
         "isindex listing xmp nextid noembed plaintext rb strike basefont big blink center font marquee multicol nobr "
         "spacer dialog tt rtc").split()
# elements that can be nested freely
FREE = ("div span article section nav aside header footer main b i em strong small u s code kbd var samp sub sup q "
        "cite dfn abbr bdo big tt ins del label fieldset legend figure figcaption blockquote address ul ol dl map "
        "object font strike center dir menu details summary canvas video audio mark ruby bdi data time progress meter "
        "output").split()
CUSTOM = ["x-y", "foo-bar", "my_tag", "zz", "x-Y", "Foo-Bar", "custom1", "divx", "di", "abc-def-ghi"]


class G(random.Random):
    def chance(self, p):
        return self.random() < p

    def pick(self, xs):
        return xs[self.randrange(len(xs))]

    def some(self, xs, lo=0, hi=None):
        xs = list(xs)
        hi = len(xs) if hi is None else min(hi, len(xs))
        return self.sample(xs, self.randint(min(lo, hi), hi))

    def size(self, small=3, big=0, p=0.03):
        """Mostly small, sometimes big."""
        if big and self.chance(p):
            return self.randint(small, big)
        return min(self.randint(0, small), self.randint(0, small + 1))


# ---- values (bytes)
def word(g, letters="abAB1", lo=1, hi=4):
    return "".join(g.pick(letters) for _ in range(g.randint(lo, hi))).encode()


def value(g, big=0):
    """A byte string without NUL."""
    k = g.random()
    if k < 0.06:
        return b""
    if k < 0.45:
        return g.pick([b" ", b" ", b" ", b"  ", b"   "]).join(word(g) for _ in range(g.randint(1, 4)))
    if k < 0.6:
        return word(g)
    if k < 0.8:
        n = g.size(8, big)
        return "".join(g.pick("aAbB  \t\n\r\f\v.,-_/<>&\"'\\$#;=éßñ€😀\u00a0\u0130ſ") for _ in range(n)).encode()
    if k < 0.9:
        n = g.size(6, big)
        return bytes(g.randint(1, 255) for _ in range(n))
    if k < 0.95:
        w = word(g)
        return g.pick([b" ", b"  ", b"\t", b"\n"]) + w + g.pick([b" ", b"  ", b"\n", b"\f"]) + w + g.pick([b" ", b""])
    return word(g, "ab ", 1, 12)


def near(g, v):
    """A value related to v."""
    k = g.random()
    if not v or k < 0.22:
        return v
    i, j = sorted((g.randint(0, len(v)), g.randint(0, len(v))))
    if k < 0.36:
        return v[:j]
    if k < 0.5:
        return v[i:]
    if k < 0.64:
        return v[i:j]
    if k < 0.7:
        return v.swapcase()
    if k < 0.76:
        return v + v[:1]
    if k < 0.82:
        return v[:i] + bytes([g.randint(1, 255)]) + v[i:]
    if k < 0.88:
        ws = v.split(b" ")
        if g.chance(0.5):
            ws = [w for w in ws if w] or [b""]
        g.shuffle(ws)
        return g.pick([b" ", b" ", b"  ", b"\t"]).join(ws[:g.randint(1, len(ws))] if g.chance(0.6) else ws)
    if k < 0.94:
        return g.pick([b" ", b"  ", b""]) + v + g.pick([b" ", b""])
    return v + g.pick([b" ", b"\t"]) + word(g)


def utf8_ok(v):
    try:
        v.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


# ---- HTML
def controls(v):
    """HTML only knows most control characters as references."""
    out = bytearray()
    for c in v:
        if c < 32 and c not in b"\t\n\r\f\0" or c == 127 or (c == 13 and len(v) % 3 == 0):
            out += b"&#%d;" % c
        else:
            out.append(c)
    return bytes(out)


def esc_attr(v):
    return controls(v.replace(b"&", b"&amp;").replace(b'"', b"&quot;"))


def esc_text(v):
    return controls(v.replace(b"&", b"&amp;").replace(b"<", b"&lt;"))


class E:
    """An HTML element under construction."""
    def __init__(self, tag, attrs=(), kids=()):
        self.tag, self.attrs, self.kids = tag, list(attrs), list(kids)

    def html(self, g=None):
        t = self.tag if not g or g.chance(0.9) else self.tag.upper()
        out = b"<" + t.encode()
        for n, v in self.attrs:
            if v is None:
                out += b" " + n.encode()
            elif g and v and g.chance(0.2) and all(c > 32 and c not in b"\"'=<>`&" for c in v):
                out += b" " + n.encode() + b"=" + v + (b" " if v.endswith(b"/") else b"")
            elif g and g.chance(0.2) and b"'" not in v:
                out += b" " + n.encode() + b"='" + controls(v.replace(b"&", b"&amp;")) + b"'"
            else:
                out += b" " + n.encode() + b'="' + esc_attr(v) + b'"'
        out += b">"
        if self.tag.lower() in VOID:
            return out
        for k in self.kids:
            out += k.html(g) if isinstance(k, E) else k
        return out + b"</" + t.encode() + b">"


def text_node(g, v):
    return esc_text(v)


def comment(g):
    return b"<!--" + g.pick([b"", b" c ", b"<b>x</b>", b"a - b", b"\n"]) + b"-->"


def tree(g, depth, width, tags, attrs, vals, texts=0.3, junk=0.08):
    """A random list of siblings."""
    out = []
    for _ in range(width if isinstance(width, int) else g.randint(*width)):
        k = g.random()
        if k < texts:
            out.append(text_node(g, g.pick(vals)))
        elif k < texts + junk:
            out.append(g.pick([comment, lambda _: b" ", lambda _: b"\n"])(g))
        else:
            e = E(g.pick(tags))
            for n in g.some(attrs, 0, 3):
                e.attrs.append((n, g.pick(vals)))
            if depth > 1 and g.chance(0.6):
                e.kids = tree(g, depth - 1, g.randint(0, 3), tags, attrs, vals, texts, junk)
            elif g.chance(0.5):
                e.kids = [text_node(g, g.pick(vals))]
            out.append(e)
    return out


def html_of(g, kids):
    return b"".join(k.html(g) if isinstance(k, E) else k for k in kids)


def page(g, kids):
    """Siblings as a document, in one of several surroundings."""
    h = html_of(g, kids)
    k = g.random()
    if k < 0.5:
        return h
    if k < 0.75:
        return b"<!DOCTYPE html><html><head><title>t</title></head><body>" + h + b"</body></html>"
    if k < 0.9:
        return b"<div>" + h + b"</div>"
    return b"<section>\n" + h + b"\n</section>"


# ---- templates
SPACES = ["", "", "", " ", "  ", "\n", "\t", " \n ", "\r\n", "\v", "\f"]


class Lay:
    """How a template is laid out; the meaning must not depend on it."""
    def __init__(self, g, level=1.0):
        self.g, self.level = g, level

    def ws(self, need=False):
        if not self.g.chance(self.level):
            return b" " if need else b""
        s = self.g.pick(SPACES)
        if need and not s:
            s = " "
        return s.encode()

    def between(self):
        s = self.ws()
        if self.g.chance(0.08 * self.level):
            s += b"#" + self.g.pick([b"", b" comment", b"<a/>", b"{ }", b"' \"", b"\xc3\xa9"]) + b"\n" + self.ws()
        return s

    def quote(self, v):
        """A literal; v may hold quotes only if preceded by backslashes."""
        qs = [q for q in (b"'", b'"') if literal_ok(v, q)]
        if not qs:
            return None
        q = self.g.pick(qs)
        return q + v + q

    def rx(self, src, flags=b""):
        qs = [q for q in (b"/", b"'", b'"') if literal_ok(src, q)]
        if not qs:
            return None
        q = self.g.pick(qs)
        return q + src + q + flags


def literal_ok(v, q):
    """Can v be written between the quotes q?"""
    for i, c in enumerate(v):
        if v[i:i + 1] == q and v[i - 1:i] != b"\\":
            return False
    return not v.endswith(b"\\")


def lit(g, lay, v):
    q = lay.quote(v)
    return q if q is not None else lay.quote(bytes(c for c in v if c not in b"\\'\""))


NTH = ["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"]


EXTREME = [2147483647, 2147483648, 2147483646, 2147483645, 2147483640, 1073741824, 4294967297, 65536]


def number(g):
    if g.chance(0.04):
        return str(g.pick(EXTREME))
    return str(g.pick([0, 1, 1, 2, 2, 3, 4, 5, 7, 12]))


def nth_arg(g):
    k = g.random()
    if k < 0.15:
        return g.pick(["even", "odd"])
    if k < 0.35:
        return g.pick(["", "", "", "-"]) + number(g)
    a = g.pick(["", "", "-"]) + number(g) + "n"
    if k < 0.5:
        return a
    return a + g.pick("+-") + number(g)


def simple_trait(g, vocab):
    k = g.random()
    if k < 0.35:
        return ":%s(%s)" % (g.pick(NTH), nth_arg(g))
    if k < 0.75:
        return ":" + g.pick(["first-child", "last-child", "first-of-type", "last-of-type", "only-child",
                             "only-of-type", "empty"])
    if k < 0.85:
        return ":child-count(%s)" % number(g)
    if k < 0.93:
        return ":attribute-count(%s)" % number(g)
    return ":type-matches(/%s/%s)" % (g.pick(["^d", "a", "^(div|p)$", "-", ".", "[xy]", "^span$", "D"]),
                                      g.pick(["", "", "i"]))


def trait(g, vocab=None):
    if g.chance(0.2):
        return ":not(" + "".join(simple_trait(g, vocab) for _ in range(g.randint(1, 3))) + ")"
    return simple_trait(g, vocab)


REGEXES = ["a", "^a", "b$", "a|b", "(a)(b)?", "a+", "[ab]+", "(\\w+) (\\w+)", "\\d", "\\s", "^$", "", ".", "a.b",
           "(?:a|b)c", "(a|b)*", "x?", "[^a]", "^[A-Z]", "(b+)a", "\\bA", "(.)\\1", "a{2}", "a{1,2}?", "b*?a",
           "([a-z]+)([0-9]*)", "(?=a)", "(?!a)b", "()", "(a)|(b)", "\\.", "[[:alpha:]]+", "[a-]", "[]a]", "a$|^b"]


def regex(g):
    if g.chance(0.8):
        return g.pick(REGEXES)
    return random_regex(g, 3)


def random_regex(g, d):
    n = g.randint(1, 3)
    out = ""
    for _ in range(n):
        k = g.random()
        if k < 0.4 or d == 0:
            a = g.pick(["a", "b", "A", "B", "1", " ", ".", "[ab]", "[^b]", "\\w", "\\d", "\\s", "[a-z]"])
        elif k < 0.55:
            a = "(" + random_regex(g, d - 1) + ")"
        elif k < 0.65:
            a = "(?:" + random_regex(g, d - 1) + ")"
        elif k < 0.8:
            a = "(" + random_regex(g, d - 1) + "|" + random_regex(g, d - 1) + ")"
        elif k < 0.9:
            a = g.pick(["^", "$", "\\b"])
            out += a
            continue
        else:
            a = "[ab1]"
        if g.chance(0.35):
            a += g.pick(["*", "+", "?", "{2}", "{1,2}", "{0,1}", "*?", "+?", "??"])
        out += a
    if g.chance(0.15):
        out += "|" + g.pick(["a", "b", "ab", ""])
    return out


FORMATS = ["", "x", "$1", "[$&]", "$$", "\\1", "${1}", "$2$1", "a$1b", "\\n", "$0", "$3", "\\\\", "<$1>", "é"]


def pipe(g, lay, vals):
    k = g.random()
    if k < 0.4:
        return g.pick([b"trim", b"collapsews", b"tolower", b"toupper"])
    if k < 0.5:
        return b"trim(" + lit(g, lay, g.pick([b"a", b" ", b"ab", b"", b"\n\t ", b"aA", near(g, g.pick(vals))])) + b")"
    if k < 0.68:
        return g.pick([b"prepend", b"append"]) + b"(" + lit(g, lay, near(g, g.pick(vals))) + b")"
    if k < 0.86:
        return b"filter(" + lay.rx(regex(g).encode(), g.pick([b"", b"", b"i", b"c", b"ic", b"ii"])) + b")"
    return (b"replace(" + lay.rx(regex(g).encode(), g.pick([b"", b"", b"i"])) + lay.ws() + b"," + lay.ws()
            + lit(g, lay, g.pick(FORMATS).encode()) + b")")


BUILTINS = [b"@text", b"@inner-html", b"@strip-tags"]


def pipes(g, lay, vals, p=0.2, hi=3):
    if not g.chance(p):
        return b""
    return b"".join(pipe(g, lay, vals) + b":" for _ in range(g.randint(1, hi)))


def capname(g, lay, names):
    n = g.pick(names)
    if g.chance(0.25):
        return lit(g, lay, n)
    return n


def case(g, n):
    return n if g.chance(0.85) else n.upper() if g.chance(0.5) else n.capitalize()


def capture(g, lay, attrs, names, vals, p_pipe=0.2):
    if g.chance(0.35):
        return g.pick(BUILTINS) + b":" + pipes(g, lay, vals, p_pipe) + capname(g, lay, names)
    return (case(g, g.pick(attrs)).encode() + b":" + pipes(g, lay, vals, p_pipe) + capname(g, lay, names)
            + (b"?" if g.chance(0.35) else b""))


def predicate(g, lay, attrs, vals):
    k = g.random()
    neg = b"!" if g.chance(0.3) else b""
    if k < 0.2:
        return case(g, g.pick(attrs)).encode() + neg
    s = g.pick(BUILTINS) if g.chance(0.15) else case(g, g.pick(attrs)).encode()
    if k < 0.3:
        return s + b"=~" + lay.rx(regex(g).encode(), g.pick([b"", b"", b"i"])) + neg
    return s + g.pick([b"=", b"==", b"^=", b"*=", b"$="]) + lit(g, lay, near(g, g.pick(vals))) + neg


def rule(g, lay, tag, opt=False, greedy=False, traits=(), pats=(), kids=(), nested=()):
    """The text of a rule.  kids: texts of child rules; nested: lists of texts."""
    mods = [b"?"] * opt + [b"+"] * greedy
    if g.chance(0.2):
        mods = mods * g.randint(1, 2)
        g.shuffle(mods)
    out = b"<" + b"".join(mods) + (tag if isinstance(tag, bytes) else tag.encode())
    for t in traits:
        out += t if isinstance(t, bytes) else t.encode()
    for p in pats:
        out += lay.ws(need=True) + p
    out += lay.ws()
    if not kids and not nested and g.chance(0.8):
        return out + b"/>"
    out += b">"
    parts = [("k", k) for k in kids]
    for n in nested:
        parts.insert(g.randint(0, len(parts)), ("n", n))
    for kind, p in parts:
        out += lay.between()
        out += p if kind == "k" else b"{" + lay.between() + lay.between().join(p) + lay.between() + b"}"
    tag = tag if isinstance(tag, bytes) else tag.encode()
    if g.chance(0.1) and tag.lower() in [k.encode() for k in KNOWN]:
        tag = tag.swapcase()
    return out + lay.between() + b"</" + tag + b">"


def template(g, tags, attrs, vals, names, depth=2, width=3, lay=None, mods=True, traits=0.15, preds=0.35, caps=0.7):
    """A random valid template: a list of rule texts."""
    lay = lay or Lay(g, 0.5)
    out = []
    for _ in range(g.randint(1, width)):
        ps = []
        if g.chance(caps):
            ps += [capture(g, lay, attrs, names, vals) for _ in range(g.randint(1, 2))]
        if g.chance(preds):
            ps += [predicate(g, lay, attrs, vals) for _ in range(g.randint(1, 2))]
        g.shuffle(ps)
        kids = template(g, tags, attrs, vals, names, depth - 1, width, lay, mods, traits, preds, caps) \
            if depth > 1 and g.chance(0.45) else []
        nested = [template(g, tags, attrs, vals, names, depth - 1, max(1, width - 1), lay, mods, traits, preds, caps)
                  for _ in range(g.pick([1, 1, 1, 2, 2, 3, 4]))] if depth > 1 and g.chance(0.3) else []
        t = "*" if g.chance(0.15) else case(g, g.pick(tags))
        out.append(rule(g, lay, t, opt=mods and g.chance(0.25), greedy=mods and g.chance(0.2),
                        traits=[trait(g) for _ in range(g.randint(1, 2))] if g.chance(traits) else [],
                        pats=ps, kids=kids, nested=nested))
    return out


def join(g, lay, rules):
    return lay.between() + lay.between().join(rules) + lay.between()
