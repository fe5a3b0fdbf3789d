"""Turn the files recorded by harness/report.cpp into report records for ReportTrace.tla.
The files are parsed with Python's own JSON parser, independently of the library."""
import json, math

BAD = 2000000001


def num(v, den):
    if isinstance(v, bool) or not isinstance(v, (int, float)) or math.isnan(v) or abs(v) > 4e8:
        return BAD
    s = v * den
    r = math.floor(s + 0.5)
    return int(r) if abs(s - r) < 1e-5 else BAD


def integer(v):
    return v if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2000000000 else BAD


class Bad(Exception):
    pass


def parse(text, what):
    if text == "<missing>":
        raise Bad(what + " was not written")
    try:
        return json.loads(text)
    except ValueError:
        raise Bad(what + " is not valid JSON")


def get(o, k, what):
    if not isinstance(o, dict) or k not in o:
        raise Bad(f"{what} has no entry {k}")
    return o[k]


def flat(v):
    if isinstance(v, list):
        return [w for e in v for w in flat(e)]
    return [v]


def head(o, what, den):
    return {"feas": bool(get(o, "is_found_feasible_solution", what)), "nv": integer(get(o, "number_of_variables", what)), "nc": integer(get(o, "number_of_constraints", what))}


EMPTY = {"bad": "", "feas": False, "obj": 0, "viol": 0, "nv": -1, "nc": -1, "x": [], "cv": [], "vv": [], "ev": []}


def record(e):
    I, den, F = e["I"], e["I"]["den"], e["files"]
    out = []

    def add(src, fn):
        r = dict(EMPTY, src=src)
        try:
            r.update(fn())
        except Bad as b:
            r["bad"] = str(b)
        out.append(r)

    names, cnames = e.get("names", []), e.get("cnames", [])

    def byname(f):
        def g():
            o = parse(F[f], f)
            r = head(o, f, den)
            r["obj"], r["viol"] = num(get(o, "objective", f), den), num(get(o, "total_violation", f), den)
            v, c, w = get(o, "variables", f), get(o, "constraints", f), get(o, "violations", f)
            if sorted(v) != sorted(names):
                raise Bad(f + " does not list exactly the variables of the model")
            r["x"] = [integer(v[k]) for k in names]
            r["cv"] = [num(get(c, k, f), den) for k in cnames]
            r["vv"] = [num(get(w, k, f), den) for k in cnames]
            x = get(o, "expressions", f)
            r["ev"] = [num(get(x, f"g[{q}]" if len(e["E"]) > 1 else "g", f), den) for q in range(len(e["E"]))]
            return r
        return g

    def byarray(f):
        def g():
            o = parse(F[f], f)
            r = head(o, f, den)
            r["obj"], r["viol"] = num(get(o, "objective", f), den), num(get(o, "total_violation", f), den)
            v = {k: flat(w) for k, w in get(o, "variables", f).items()}
            want = {}
            for p, q in e["vp"]:
                want[p] = want.get(p, 0) + 1
            if {k: len(w) for k, w in v.items()} != want:
                raise Bad(f + " does not list exactly the variables of the model")
            r["x"] = [integer(v[p][q]) for p, q in e["vp"]]
            c = {k: flat(w) for k, w in get(o, "constraints", f).items()}
            w = {k: flat(z) for k, z in get(o, "violations", f).items()}
            for p, q in e["cp"]:
                if p not in c or p not in w or q >= len(c[p]) or q >= len(w[p]):
                    raise Bad(f + " misses a constraint")
            r["cv"] = [num(c[p][q], den) for p, q in e["cp"]]
            r["vv"] = [num(w[p][q], den) for p, q in e["cp"]]
            r["ev"] = [num(z, den) for z in flat(get(o, "expressions", f).get("g", []))][:len(e["E"])]
            return r
        return g

    def sol(f):
        def g():
            t = F[f]
            if t == "<missing>":
                raise Bad(f + " was not written")
            L = [z.rsplit(" ", 1) if not z.startswith("=") else z.split() for z in t.split("\n") if z.strip()]
            if not L:
                raise Bad(f + " is empty")
            r = {"x": []}
            if L[0] == ["=infeas="]:
                r["feas"] = False
            elif len(L[0]) == 2 and L[0][0] == "=obj=":
                r["feas"], r["obj"] = True, num(float(L[0][1]), den)
            else:
                raise Bad(f + " does not start with a verdict")
            d = {}
            for z in L[1:]:
                if len(z) != 2 or z[0] in d:
                    raise Bad(f + " has a malformed line")
                d[z[0]] = z[1]
            if sorted(d) != sorted(names):
                raise Bad(f + " does not list exactly the variables of the model")
            try:
                r["x"] = [int(d[k]) for k in names]
            except ValueError:
                raise Bad(f + " has a non-integral value")
            return r
        return g

    if e["out"] == "ok":
        if "api" in e:
            a = e["api"]
            add("api", lambda: {k: a[k] for k in ("feas", "obj", "viol", "nv", "nc", "x", "cv", "vv", "ev")})
        if "byname.json" in F:
            add("byname", byname("byname.json"))
            add("byarray", byarray("byarray.json"))
        if "incumbent.json" in F:
            add("byname", byname("incumbent.json"))
        for f in ("out.sol", "incumbent.sol"):
            if f in F:
                add("sol", sol(f))
        if "status.json" in F:
            add("status", lambda: head(parse(F["status.json"], "status.json"), "status.json", den))
        if "feasible.json" in F:
            try:
                o = parse(F["feasible.json"], "feasible.json")
                for s in get(o, "solutions", "feasible.json"):
                    def g():
                        v = get(s, "variables", "feasible.json")
                        if not set(v) <= set(names):
                            raise Bad("feasible.json names an unknown variable")
                        return {"feas": bool(get(s, "is_feasible", "feasible.json")), "obj": num(get(s, "objective", "feasible.json"), den),
                                "viol": num(get(s, "total_violation", "feasible.json"), den), "x": [integer(v.get(k, 0)) for k in names]}
                    add("arc", g)
            except Bad as b:
                add("arc", lambda: {"bad": str(b)})
    pts = 1
    for i in range(I["n"]):
        pts *= 1 if I["fix"][i] != -999999 else I["ub"][i] - I["lb"][i] + 1
    return {"k": e["k"], "kind": e["kind"], "out": e["out"], "what": e["what"], "I": I, "E": e["E"], "reps": out, "small": pts <= 4000,
            "added": bool(e["api"]["added"] if "api" in e else added(F, cnames))}


def added(F, cnames):
    try:
        return len(json.loads(F["incumbent.json"])["constraints"]) != len(cnames)
    except Exception:
        return True


def post(trace):
    L = [json.dumps(record(json.loads(x)), separators=(",", ":")) for x in open(trace, errors="replace").read().split("\n") if x]
    with open(trace, "w") as fh:
        fh.write("\n".join(L) + "\n")
