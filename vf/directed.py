"""Scenarios written by hand: past defects and corner cases, per property."""
from .run import Episode, b

# property: [(documents, templates)]
CASES = {
    "C01": [(["<div><b i=1></b><i i=2></i><b i=3></b></div>", "<b i=1></b>", ""],
             ["<b i:x/><i i:y/>", "<div><b i:x/><i i:y/><b i:z/></div>", "<b i:x/><b i:y/>"])],
    "C02": [(["<div></div>", "<div><p id=1></p></div>", "<div>t</div><p></p>"],
             ["<div><?p id:x/></div>", "<div @text:t><?p id:x/></div>", "<div @text:t>{<?p id:x/>}</div>", "<div @text:t>{<p id:x/>}</div>",
              "<?div @text:t><?p id:x/>{<?i/>}</div><p @text:p/>"])],
    "C03": [(["<b i=1></b><b i=2></b><i i=3></i><b i=4></b>", "<i i=1></i><b i=2></b>"],
             ["<+b i:x/>", "<+b i:x/><i i:y/>", "<?+b i:x/><i i:y/>", "<+b i:x/><?i i:y/>", "<?+b i:x/>", "<?i i:y/><+b i:x/>"])],
    "C04": [(["<div i=1><div i=2><p i=3>x</p></div></div><p i=4></p>", "<p i=1></p>" * 5],
             ["<div i:d><p i:p/></div>", "<div i:d>{<p i:p/>}</div>", "<p i:p/>", "<div i:d><div i:e>{<p i:p/>}</div></div>",
              "<body>{<p i:p/>}</body>", "<html><body><p i:p/></body></html>"])],
    "C05": [(["<div></div><p></p>t<div></div>", "", "<x-y></x-y><z-z></z-z>"],
             ["<*:first-child @inner-html:h/>", "<html:first-child @text:h/>", "<html:only-child @text:h/>", "<html:nth-child(1n) @text:t/>",
              "<*:nth-of-type(2) @inner-html:h/>", "<*:only-of-type @inner-html:h/>", "<x-y:only-of-type @text:t/>", "<*:empty @text:t/>",
              "<*:not(:first-child:last-child) @text:t/>", "<*:nth-child(-2n+3) @text:t/>", "<*:nth-last-child(2n-1) @text:t/>",
              "<*:nth-child(0n+2) @text:t/>", "<*:nth-child(even) @text:t/>", "<*:nth-child(odd) @text:t/>"])],
    "C06": [(["<div class='a b' i=1>t</div><DIV class='' i=2></DIV><X-y i=3></X-y><div i=4></div>"],
             ["<div class='a' i:n/>", "<div class='a b' i:n/>", "<div class='b a' i:n/>", "<div class=='a' i:n/>", "<div class^='a' i:n/>",
              "<div class*=' ' i:n/>", "<div class$='b' i:n/>", "<div class! i:n/>", "<div class='a'! i:n/>", "<div class=''! i:n/>",
              "<div class='' i:n/>", "<div class=='' i:n/>", "<x-Y i:n/>", "<DIV CLASS i:n/>", "<* @text=='t' i:n?/>", "<* @text='t'! i:n?/>",
              "<div class*=''! i:n/>", "<div class^='' i:n/>"])],
    "C07": [(["<div a=Foo b=foo c=FOO>Bar</div><foo-Bar a=x>y</foo-Bar>"],
             ["<div a=~/foo/i b=~/FOO/ a:n/>", "<div a=~/foo/i a:filter(/FOO/):n/>", "<div a:filter(/f/i):n b:filter(/F/):m/>",
              "<div a=~/foo/i/><div c:c/>", "<div a=~/foo/ic c=~/foo/! b:n/>", "<*:type-matches(/bar/) a:n/>", "<*:type-matches(/Bar/) a:n/>",
              "<*:type-matches(/bar/i) a:n/>", "<div a:replace(/(f)(o)/i,'$2$1'):n/>", "<div a:replace(/o/,'0'):n a:filter(/(o)|F/):m/>"])],
    "C08": [(["<div a='  x  y  ' b='ABC' c=\"\">T</div>"],
             ["<div a:trim:n a:m/>", "<div a:trim(' x'):n/>", "<div a:collapsews:n/>", "<div b:tolower:append('Z'):n/>",
              "<div b:append('Z'):tolower:n b:m/>", "<div b:prepend('1'):prepend('2'):append('3'):append('4'):n/>", "<div c:trim:n c:collapsews:m/>",
              "<div @text:tolower:prepend('a'):n @text:m/>", "<div b:filter(/B./):append('x'):n/>", "<div b:trim(''):n/>"])],
    "C09": [(["<div a=1 b=2><p a=3>t</p></div><div b=4></div>"],
             ["<div a:x b:x/>", "<div a:x? b:x?/>", "<div b:x a:y? @text:x/>", "<div a:x><p a:x/></div>", "<div a:x? @text:x><?p a:x/></div>",
              "<div z:x?/>", "<div z:x/>", "<div a:z b:a><p @text:m/></div>", "<div a:''/>", "<div a:'é' b:e/>"])],
    "C15": [(["<div><p i=1></p></div>", ""], ["<p i:x/>", "<div>{<p i:x/>}</div>", "<*>{<*/>}</*>"])],
}


def episodes(prop):
    out = []
    for docs, tmpls in CASES.get(prop, []):
        e = Episode()
        for d, h in enumerate(docs):
            e.doc(d + 1, h)
        for r, t in enumerate(tmpls):
            e.parse(r + 1, t)
        for r in range(len(tmpls)):
            for d in range(len(docs)):
                e.extract(r + 1, d + 1)
                if prop == "C15":
                    for m in range(1, 16):
                        e.extract(r + 1, d + 1, 1, m)
        out.append(e)
    for t in TEMPLATES.get(prop, []):
        out.append(Episode().parse(1, t))
    if prop == "C17":
        attr = dict(c="attr", n=b("id"), to=b("n"), ps=[])
        fn = dict(c="fn", f="text", to=b("n"), ps=[])
        for v in (attr, fn):
            e = Episode().doc(1, "<p id=1>t</p>")
            e.do("obj", o=1, kind="capture", v=v).do("obj", o=2, kind="capture", v=dict(v, to=b("m")))
            e.do("obj-copy", o=2, **{"from": 1}, how="assign")
            for o in (1, 2):
                for n in range(1, 6):
                    e.do("obj-use", o=o, d=1, n=n)
            out.append(e)
        for how in ("construct", "assign"):
            e = Episode().doc(1, "<p id=1>t</p>").doc(2, "<div></div>").parse(1, "<p id:x/>")
            e.do("doc-move", d=2, **{"from": 1}, how=how).do("doc-look", d=2).extract(1, 2)
            e.doc(1, "<p id=2>").extract(1, 1).extract(1, 2)
            out.append(e)
    return out


NUMBERS = ["0", "1", "2147483647", "2147483648", "99999999999999999999", "00000000000000000001"]
TEMPLATES = {
    "C12": [""] + ["<a:%s/>" % (f % n) for n in NUMBERS for f in
                   ("child-count(%s)", "attribute-count(%s)", "nth-child(%s)", "nth-child(-%s)", "nth-child(%sn)", "nth-child(2n+%s)",
                    "nth-child(2n-%s)", "nth-child(-%sn)")],
    "C14": ["<a:child-count(99999999999)/>", "<a>\n<b>\n</a>", "<a", "<a>{}</a>", "{<a/>}", "<a/>}", "</b>", "<a>{<b/>", "\n\n <a x=y/>",
            "<a b=~/(/ />", "<a b=~/[/i />", "<é/>", "<a\t\0/>", "<a>", "<a\n/x>"],
}
TEMPLATES["C12"] += TEMPLATES["C14"]
