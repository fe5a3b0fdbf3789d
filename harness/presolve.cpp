// Records what preprocessing does to a model: the original instance, the options, and the
// model that the search would work on (bounds, fixed values, dependent variables, enabled
// constraints); for a part of the episodes additionally after a complete solve, so that
// bounds tightened during the search are included.
#include "reduced.h"
using namespace vf;

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]);
    int jobs = 8;
    auto fn = [&](int k) -> std::string {
        Rng r(S * 1000003 + k); GenOpt g; g.box_max = 400;
        Inst I = gen(r, g);
        Model M; auto B = build(M, I, r.p(40) ? 0 : k + 1);
        auto o = rand_option(r, r.next() % 100000);
        o.pdlp.is_enabled = false;
        if (r.p(60)) { o.preprocess.is_enabled_presolve = true; }
        bool after_solve = r.p(30);
        J j; j.kv("k", k);
        const int SC = I.den * I.den * I.den;
        std::string outcome = "ok", what; int inc_ok = 0; long inc = 0;
        try {
            if (after_solve) {
                o.preprocess.is_enabled_online_bounding = true;
                auto res = solver::solve(&M, o);
                inc_ok = res.solution.is_feasible() ? 1 : 0;
                inc = enc(res.solution.objective());
            } else M.setup(o, false);
        } catch (const std::exception &e) { outcome = "exc"; what = e.what(); }
        j.ks("kind", outcome == "exc" ? "exception" : after_solve ? "after_solve" : "setup").kr("I", I.json_fields()).ks("out", outcome).ks("what", what.substr(what.find("function") == std::string::npos ? 0 : what.find("function")));
        j.kb("pre", o.preprocess.is_enabled_presolve).kb("solve", after_solve).kv("incok", inc_ok).kv("inc", inc).kv("sc", SC).kv("scr", SC / I.den);
        bool bad = false;
        if (outcome == "ok") {
            Reduced R; R.capture(M, I, B, true); bad = R.bad;
            j.kr("v", R.vjson).kr("rc", R.cjson).kr("ro", R.ojson);
        }
        j.kb("skip", bad);
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
    run_forked(N, 10, fn, stdout, [&](int k, const std::string &w) {
        Rng r(S * 1000003 + k); GenOpt g; g.box_max = 400; Inst I = gen(r, g);
        J j; j.kv("k", k).ks("kind", "crash").kr("I", I.json_fields()).ks("out", "crash").ks("what", w).kb("skip", false);
        return j.str();
    }, jobs);
}
