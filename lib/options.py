"""Read what harness/option.cpp recorded as text (written files, printed values) independently of the library."""
import json, re


def canon(kind, v):
    if kind == "b":
        return {True: "true", False: "false"}.get(v, repr(v)) if isinstance(v, bool) else repr(v)
    if kind == "i":
        return str(v) if isinstance(v, int) and not isinstance(v, bool) else repr(v)
    if kind == "d":
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return repr(v)
        m, x = ("%.6e" % v).split("e")
        return f"{m}e{x}"
    return v if isinstance(v, str) else repr(v)


def from_file(e, v):
    try:
        o = json.loads(v["text"])
        out = []
        for n, k in zip(e["names"], e["kinds"]):
            s, key = n.split(".", 1)
            out.append(canon(k, o[s][key]) if s in o and key in o[s] else "<absent>")
        return out
    except ValueError:
        return ["<not valid JSON>"]


def from_print(e, v):
    got = {}
    for line in v["text"].split("\n"):
        m = re.search(r"-- ([a-z_0-9]+\.[a-z_0-9]+): (.*?)\s*$", line)
        if m:
            got[m[1]] = m[2]
    out = []
    for n, k in zip(e["names"], e["kinds"]):
        t = got.get(n, "<absent>")
        if k == "d" and t != "<absent>":
            t = canon("d", float(t))
        elif k == "b":
            t = {"1": "true", "0": "false"}.get(t, t.lower())
        out.append(t)
    return out


def post(trace):
    lines = []
    for x in open(trace):
        if not x.strip():
            continue
        e = json.loads(x)
        for v in e["ev"]:
            if v["op"] in ("save", "print"):
                v["f"] = (from_file if v["op"] == "save" else from_print)(e, v)
                del v["text"]
        lines.append(json.dumps(e))
    open(trace, "w").write("\n".join(lines) + "\n")
