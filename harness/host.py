"""Executes the commands of scenarios through the Python binding."""
import json, sys
import hext

rules, docs = {}, {}


def text(v):
    return bytes(v).decode("utf-8")


def enc(v):
    return list(v.encode("utf-8"))


def maps(res):
    if type(res) is not list:
        raise AssertionError("not a list: %r" % type(res))
    out = []
    for m in res:
        if type(m) is not dict:
            raise AssertionError("not a dict: %r" % type(m))
        out.append([[enc(k), [enc(x) for x in v] if isinstance(v, list) else [enc(v)], isinstance(v, list)] for k, v in m.items()])
    return out


def misuse(kind, c):
    if kind == "rule-type":
        hext.Rule(None)
    elif kind == "rule-list":
        hext.Rule(["<a/>"])
    elif kind == "html-type":
        hext.Html(5)
    elif kind == "extract-type":
        hext.Rule("<a/>").extract("text")
    elif kind == "rule-missing":
        hext.Rule()
    elif kind == "rule-hollow":
        class Hollow(hext.Rule):
            def __init__(self):
                pass
        Hollow().extract(hext.Html("<a></a>"))
    elif kind == "html-hollow":
        hext.Rule("<a/>").extract(hext.Html.__new__(hext.Html))
    elif kind == "max-type":
        hext.Rule("<a/>").extract(hext.Html("<a></a>"), "x")


def run(c):
    op = c["op"]
    if op == "reset":
        rules.clear()
        docs.clear()
        return {}
    e = {"op": op, "lang": "python", "id": c["id"]}
    try:
        if op == "b-rule":
            again = bool(c.get("again")) and c["r"] in rules
            e.update(r=c["r"], src=c["src"], again=again)
            if again:
                rules[c["r"]].__init__(text(c["src"]))
            else:
                rules.pop(c["r"], None)
                rules[c["r"]] = hext.Rule(text(c["src"]))
        elif op == "b-html":
            e.update(d=c["d"])
            if c.get("drop"):
                docs.pop(c["d"], None)
            docs[c["d"]] = hext.Html(text(c["html"]))
        elif op == "b-extract":
            e.update(r=c["r"], d=c["d"], max=c["max"])
            a = (docs[c["d"]], c["max"] if c["max"] >= 0 else 2 ** 32 - c["max"]) if c["max"] or c.get("explicit") else (docs[c["d"]],)
            e["maps"] = maps(rules[c["r"]].extract(*a))
        elif op == "b-free":
            e.update(what=c["what"], slot=c["slot"])
            (rules if c["what"] == "rule" else docs).pop(c["slot"], None)
        elif op == "b-misuse":
            misuse(c["kind"], c)
        e["out"] = "ok"
    except AssertionError as x:
        e["out"], e["msg"] = "shape", str(x)
    except Exception as x:
        e["out"], e["msg"] = "error", str(x)[:300]
    return e


for line in sys.stdin:
    print(json.dumps(run(json.loads(line))), flush=True)
