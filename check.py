#!/usr/bin/env python3
"""check.py <property>: decide one property (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import jsondoc, options, reports, vf

MPS = ("-D_PRINTEMPS_MPS_SOLVER",)


def c02(c):
    c.conform("presolve", [c.n(50000, 600000), c.seed], "PresolveTrace")


SEARCH_STEPS = lambda e: (2 if len(e["ev"]) and "fin" in e else 1) + len(e["ev"])


def search_stage(c, aspect, n, box=0, full=20, events=250):
    c.conform("search", [c.n(n, 12 * n), c.seed, events, full, box], "SearchTrace", cfg=f"SearchTrace_{aspect}.cfg", label=f"search/{aspect}", steps=SEARCH_STEPS)
    c.conform("search", [c.n(n // 4, 3 * n), c.seed + 1000, events, full, box], "SearchTrace", cfg=f"SearchTrace_{aspect}.cfg", flags=MPS, label=f"search-mps/{aspect}", steps=SEARCH_STEPS)


def search(aspect, box=0, full=20):
    def f(c):
        c.prebuild(("search",), ("search", MPS))
        search_stage(c, aspect, 4000, box, full)
    return f


def classify(c):
    c.conform("classify", [c.n(60000, 1500000), c.seed], "ClassTrace", steps=lambda e: len(e["c"]) + 1)


def containers(c):
    c.conform("containers", [c.n(60000, 1200000), c.seed], "ContainerTrace", steps=lambda e: 2 + len(e["ops"]) if e["kind"] in ("queue", "sets", "bimap", "learner") else 2)


def descent(c):
    """the local search phase"""
    c.prebuild(("search",), ("search", MPS))
    for aspect, n in (("descent", 6000), ("limits", 3000), ("state", 2000)):
        for flags, f in (((), 1), (MPS, 4)):
            c.conform("search", [c.n(n // f, 12 * n // f), c.seed + 50 * f, 250, 0, 0, 100], "SearchTrace", cfg=f"SearchTrace_{aspect}.cfg", flags=flags, label=f"local{'-mps' if flags else ''}/{aspect}", steps=SEARCH_STEPS)


def walk(aspect, with_search=None):
    def f(c):
        c.prebuild(("walk",), ("walk", MPS), *((("search",), ("search", MPS)) if with_search else ()))
        q = 4000 if aspect == "score" else 7000
        if with_search:
            q = 2 * q // 3
        c.conform("walk", [c.n(q, 15 * q), c.seed, c.n(6, 9)], "WalkTrace", cfg=f"WalkTrace_{aspect}.cfg", label=f"walk/{aspect}")
        c.conform("walk", [c.n(q // 3, 3 * q), c.seed + 1000, 6], "WalkTrace", cfg=f"WalkTrace_{aspect}.cfg", flags=MPS, label=f"walk-mps/{aspect}")
        if with_search:
            search_stage(c, with_search, 1600, 0, 60, 60)
    return f


def scratch(c):
    d = os.path.join(c.work, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


def report(api_pct):
    def f(c):
        c.prebuild(("report",), ("report", MPS))
        d = scratch(c)
        c.conform("report", [c.n(14000, 300000), c.seed, d, api_pct], "ReportTrace", post=reports.post, label="report", timeout=800)
        c.conform("report", [c.n(5000, 100000), c.seed + 1000, d, api_pct], "ReportTrace", post=reports.post, flags=MPS, label="report-mps")
    return f


MPS_STEPS = lambda e: len(e["lines"]) + 2


def mps(kind):
    def f(c):
        c.conform("mps", [c.n(14000, 200000), c.seed, scratch(c), kind], "MpsTrace", steps=MPS_STEPS, label="mps/" + kind)
    return f


def algebra(c):
    c.conform("algebra", [c.n(20000, 300000), c.seed, 25], "AlgebraTrace")


def documents(c):
    c.prebuild(("option",), ("json",))
    c.conform("json", [c.n(14000, 300000), c.seed, scratch(c)], "JsonTrace", post=jsondoc.post, label="json")
    c.conform("option", [c.n(2500, 40000), c.seed, scratch(c)], "OptionTrace", post=options.post, label="option")


OMP = ("-fopenmp",)
OMP_ENV = {"OMP_NUM_THREADS": "3", "GOMP_SPINCOUNT": "2000", "OMP_DYNAMIC": "false"}


def threads(c):
    c.prebuild(("walk", OMP), ("search", OMP))
    for aspect, q in (("score", 2500), ("legal", 1200)):
        c.conform("walk", [c.n(q, 20 * q), c.seed, 6], "WalkTrace", cfg=f"WalkTrace_{aspect}.cfg", flags=OMP, env=OMP_ENV, racy=True, label=f"walk-threads/{aspect}")
    for aspect, box in (("score", 0), ("dual", 300)):
        c.conform("search", [c.n(1000, 15000), c.seed, 250, 60, box], "SearchTrace", cfg=f"SearchTrace_{aspect}.cfg", flags=OMP, env=OMP_ENV, racy=True, label=f"search-threads/{aspect}", steps=SEARCH_STEPS)


TABLE = {
    "C14": classify,
    "C15": threads,
    "C12": documents,
    "C01": report(100),
    "C10": mps("read"),
    "C11": mps("write"),
    "C13": algebra,
    "C18": search("switch", full=20),
    "C20": search("penalty", full=0),
    "C21": report(0),
    "C02": c02,
    "C03": walk("score", "score"),
    "C04": walk("state", "state"),
    "C05": search("incumbent", full=0),
    "C06": search("archive", full=0),
    "C07": search("limits", full=0),
    "C08": walk("legal"),
    "C09": search("dual", box=300, full=0),
    "C16": containers,
    "C17": search("tabu", full=40),
    "C19": descent,
    "C22": walk("screen"),
}

if __name__ == "__main__":
    sys.exit(vf.main(TABLE))
