"""Python side of C17: runs one case per line of standard input against the extension module."""
import json
import os
import sys

sys.path.insert(0, os.environ["VH_PYPATH"])
os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
print(json.dumps({"ready": True}), flush=True)
missing = None
try:
    import chanoma
    from chanoma import Chanoma, Correspondence, Item, Table
except BaseException as e:
    missing = {"error": type(e).__name__, "message": str(e)}


class Duck:
    """Anything with a list of items will do."""

    def __init__(self, items):
        self.items = items


def correspondence(a):
    k = a["kind"]
    if k == "set":
        return getattr(chanoma.characters_set, a["name"])()
    items = [Item(f, t) for f, t in a["items"]]
    return Duck(items) if k == "duck" else Correspondence(items)


def build_table(t):
    if t is None:
        return None
    if t["positional"]:
        table = Table(t["preset"], t["csv"], t["yaml"])
    else:
        kw = {}
        if t["preset"]:
            kw["preset"] = True
        for k in ("csv", "yaml"):
            if t[k] is not None:
                kw[k] = t[k]
        table = Table(**kw)
    for a in t["adds"]:
        table.add(correspondence(a))
    return table


def build(c, table):
    if c["positional"]:
        return Chanoma(table, c["neologdn"], c["preset"], c["rc"], c["configfile"])
    kw = {}
    if table is not None:
        kw["table"] = table
    for k in ("neologdn", "preset", "rc"):
        if c[k]:
            kw[k] = True
    if c["configfile"] is not None:
        kw["configfile"] = c["configfile"]
    return Chanoma(**kw)


def run(c):
    if missing:
        return missing
    os.environ["HOME"] = c["home"]
    if c["rcvar"] is None:
        os.environ.pop("CHANOMARC", None)
    else:
        os.environ["CHANOMARC"] = os.fsdecode(bytes(c["rcvar"]))
    os.environ.update(c["env"])
    os.chdir(c["cwd"])
    try:
        table = build_table(c["table"])
        one = build(c, table)
        texts = c["texts"]
        first = [one.normalize(t) for t in texts]
        if table is not None:
            for a in c["late"]:
                table.add(correspondence(a))
        after = [one.normalize(t) for t in texts]
        two = build(c, table)
        later = [two.normalize(t) for t in texts]
        del table
        last = [one.normalize(t) for t in texts]
        return {"out": [first, after, later, last]}
    except OSError as e:
        return {"error": "OSError", "message": str(e)}
    except BaseException as e:  # a panic arrives as a BaseException
        return {"error": type(e).__name__, "message": str(e)}
    finally:
        os.chdir("/")
        for k, _ in c["env"]:
            os.environ.pop(k, None)


for line in sys.stdin:
    sys.stdout.write(json.dumps(run(json.loads(line))) + "\n")
    sys.stdout.flush()
