"""Split the JSON texts recorded by harness/json.cpp into lexemes (RFC 8259), independently of the library."""
import json, re

LEX = re.compile(r'\s*(?:(?P<s>"(?:[^"\\]|\\.)*")|(?P<n>-?(?:0|[1-9]\d*)(?:\.\d+)?(?:[eE][-+]?\d+)?)|(?P<p>[{}\[\],:])|(?P<w>true|false|null))', re.S)


def lexemes(text):
    out, i = [], 0
    text = text.rstrip(" \t\r\n")
    while i < len(text):
        m = LEX.match(text, i)
        if not m:
            return out + [["bad", text[i:i + 20]]]
        i = m.end()
        if m["s"]:
            try:
                out.append(["string", json.loads(m["s"])])
            except ValueError:
                return out + [["bad", m["s"]]]
        elif m["n"]:
            n = m["n"]
            out.append(["int", str(int(n))] if re.fullmatch(r"-?\d+", n) else ["double", "%.6e" % float(n)])
        elif m["p"]:
            out.append([m["p"], ""])
        else:
            out.append(["null", ""] if m["w"] == "null" else ["bool", m["w"]])
    return out


def post(trace):
    lines = []
    for x in open(trace):
        if not x.strip():
            continue
        e = json.loads(x)
        for v in e["ev"]:
            if "text" in v:
                v["lex"] = lexemes(v.pop("text"))
        lines.append(json.dumps(e))
    open(trace, "w").write("\n".join(lines) + "\n")
