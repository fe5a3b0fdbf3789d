// What the user is told after a solve.  kind "api": a model built through the library, its solution
// object and the files written from it.  kind "app": the standalone program run in a scratch
// directory on an MPS file with option, initial-solution, fixed- and mutable-variable files.
// File contents are recorded as text; lib/reports.py parses them (independently of the library).
#include "common.h"
#include <fstream>
#include <sys/stat.h>
#include <fcntl.h>
using namespace vf;

static std::string slurp(const std::string &f) { std::ifstream i(f); if (!i) return "<missing>"; std::stringstream s; s << i.rdbuf(); return s.str(); }

static std::string mps_text(const Inst &I, Rng &r) {
    std::ostringstream o; o.precision(17);
    o << "NAME gen\nROWS\n N obj\n";
    for (size_t k = 0; k < I.c.size(); k++) o << " " << (I.c[k].s < 0 ? "L" : I.c[k].s > 0 ? "G" : "E") << " c" << k << "\n";
    o << "COLUMNS\n MARK0 'MARKER' 'INTORG'\n";
    for (int i = 0; i < I.n; i++) {
        o << " x" << i << " obj " << (double)I.o[i] / I.den << "\n";
        for (size_t k = 0; k < I.c.size(); k++) if (I.c[k].a[i]) o << " x" << i << " c" << k << " " << (double)I.c[k].a[i] / I.den << "\n";
    }
    o << " MARK1 'MARKER' 'INTEND'\nRHS\n";
    if (I.oc) o << " rhs obj " << -(double)I.oc / I.den << "\n";
    for (size_t k = 0; k < I.c.size(); k++) if (I.c[k].b || r.p(50)) o << " rhs c" << k << " " << -(double)I.c[k].b / I.den << "\n";
    o << "BOUNDS\n";
    for (int i = 0; i < I.n; i++) {
        if (I.fix[i] != NONE) o << " FX bnd x" << i << " " << I.fix[i] << "\n";
        else if (I.lb[i] == 0 && I.ub[i] == 1 && r.p(50)) { if (r.p(50)) o << " BV bnd x" << i << "\n"; }
        else { o << " LO bnd x" << i << " " << I.lb[i] << "\n UP bnd x" << i << " " << I.ub[i] << "\n"; }
    }
    o << "ENDATA\n";
    return o.str();
}

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]); std::string dir = argv[3]; const int api_pct = argc > 4 ? atoi(argv[4]) : 50;
    auto make = [&](Rng &r) {
        GenOpt g; g.nmin = 1; g.nmax = r.p(50) ? 5 : 9; g.mmax = r.p(50) ? 3 : 6; g.box_max = 100000000; g.infinite = false; g.wide_max = 400;
        g.want_feasible = !r.p(25);
        Inst I = gen(r, g);
#ifdef _PRINTEMPS_MPS_SOLVER
        I.sense = 1;
#endif
        return I;
    };
    auto fn = [&](int k) -> std::string {
        Rng r(S * 5000011 + k);
        Inst I = make(r);
        auto o = rand_option(r, r.next() % 100000);
        o.general.iteration_max = r.in(1, 3);
        o.tabu_search.iteration_max = r.in(3, 40);
        J j; j.kv("k", k);
        std::string out = "ok", what; J files;
        const std::string d = dir + "/d" + std::to_string(k);
        mkdir(d.c_str(), 0700);
        if (chdir(d.c_str())) _exit(4);
        if (r.in(1, 100) <= api_pct) {
            Model M("m" + std::to_string(k)); auto B = build(M, I, r.p(40) ? 0 : k + 1, true);
            // further expressions of the user, which must follow the solution too
            std::vector<std::vector<int>> E; std::vector<int> Ec;
            const int ne = r.in(0, 4);
            for (int q = 0; q < ne; q++) { std::vector<int> a(I.n); for (auto &v : a) v = r.p(50) ? 0 : r.in(-8, 8); E.push_back(a); Ec.push_back(r.in(-8, 8)); }
            if (ne) { auto &P = M.create_expressions("g", ne); for (int q = 0; q < ne; q++) { auto e = Expr::create_instance(); for (int i = 0; i < I.n; i++) if (E[q][i]) e = e + ((double)E[q][i] / I.den) * (*B.v[i]); P(q) = e + (double)Ec[q] / I.den; } }
            try {
                auto res = solver::solve(&M, o);
                auto &s = res.solution;
                J a; a.kb("feas", s.is_feasible()).kv("obj", enc(s.objective())).kv("viol", enc(s.total_violation())).kv("nv", s.number_of_variables()).kv("nc", s.number_of_constraints());
                std::vector<int> x, cv, vv, ev;
                for (int i = 0; i < I.n; i++) x.push_back(s.variables(B.vproxy[i]).flat_indexed_values(B.vflat[i]));
                for (size_t q = 0; q < I.c.size(); q++) { cv.push_back(enc(s.constraints(B.cproxy[q]).flat_indexed_values(B.cflat[q]))); vv.push_back(enc(s.violations(B.cproxy[q]).flat_indexed_values(B.cflat[q]))); }
                for (int q = 0; q < ne; q++) ev.push_back(enc(s.expressions("g").flat_indexed_values(q)));
                a.ka("x", x).ka("cv", cv).ka("vv", vv).ka("ev", ev);
                a.kb("sfeas", res.status.is_found_feasible_solution).kb("added", s.constraints().size() != [&] { std::set<std::string> t(B.cproxy.begin(), B.cproxy.end()); return t.size(); }());
                j.kr("api", a.str());
                s.write_json_by_name("byname.json"); s.write_json_by_array("byarray.json"); s.write_solution("out.sol");
                res.feasible_solution_archive.write_solutions_json("feasible.json");
                res.status.write_json_by_name("status.json");
                for (auto *f : {"byname.json", "byarray.json", "out.sol", "feasible.json", "status.json"}) files.ks(f, slurp(f));
                J na('['); for (int i = 0; i < I.n; i++) na.raw(J::q(B.v[i]->name())); j.kr("names", na.str());
                J nc('['); for (size_t q = 0; q < I.c.size(); q++) nc.raw(J::q(B.c[q]->name())); j.kr("cnames", nc.str());
                J vp('['); for (int i = 0; i < I.n; i++) { J e('['); e.raw(J::q(B.vproxy[i])).num(B.vflat[i]); vp.raw(e.str()); } j.kr("vp", vp.str());
                J cp('['); for (size_t q = 0; q < I.c.size(); q++) { J e('['); e.raw(J::q(B.cproxy[q])).num(B.cflat[q]); cp.raw(e.str()); } j.kr("cp", cp.str());
            } catch (const std::exception &e) { out = "exc"; what = e.what(); }
            J ej('['); for (int q = 0; q < ne; q++) { J e; e.ka("a", E[q]).kv("b", Ec[q]); ej.raw(e.str()); }
            j.ks("kind", "api").kr("E", ej.str());
        } else {
            I.sense = 1;
            o.output.verbose = option::verbose::Off;
            for (int i = 0; i < I.n; i++) if (I.fix[i] != NONE) I.lb[i] = I.ub[i] = I.fix[i];
            { std::ofstream f("in.mps"); f << mps_text(I, r); }
            { std::ofstream f("opt.json"); f << o.to_json(); }
            std::vector<std::string> args = {"mps_solver", "-p", "opt.json"};
            std::vector<int> ini(I.n, 0); bool has_i = r.p(40);
            int fm = r.p(30) ? 1 : r.p(20) ? 2 : 0;
            if (fm == 1) {
                std::ofstream f("fix.txt");
                for (int i = 0; i < I.n; i++) if (r.p(35) && I.fix[i] == NONE) { I.fix[i] = r.in(I.lb[i], I.ub[i]); f << "x" << i << (r.p(50) ? " " : "   ") << I.fix[i] << (r.p(20) ? ".0" : "") << "\n"; }
                if (r.p(30)) f << "\n";
                if (r.p(30)) f << "not_a_variable 3\n";
                args.insert(args.end(), {"-f", "fix.txt"});
            }
            std::vector<bool> listed(I.n, true);
            if (fm == 2) {   // only the listed variables may change; the others stay at 0
                bool ok = true; std::vector<int> fx = I.fix;
                for (int i = 0; i < I.n; i++) if (I.fix[i] != NONE || r.p(40)) { listed[i] = false; fx[i] = 0; if (I.lb[i] > 0 || I.ub[i] < 0) ok = false; }
                if (ok) {
                    std::ofstream f("mut.txt");
                    for (int i = 0; i < I.n; i++) if (listed[i]) f << "x" << i << "\n";
                    I.fix = fx; args.insert(args.end(), {"-m", "mut.txt"});
                }
            }
            if (has_i) {
                std::ofstream f("init.txt");
                if (r.p(50)) f << "=obj= 12.5\n";
                for (int i = 0; i < I.n; i++) {
                    ini[i] = I.fix[i] != NONE ? I.fix[i] : r.in(I.lb[i], I.ub[i]);
                    if (ini[i] != 0 || r.p(50)) f << "x" << i << " " << ini[i] << (r.p(20) ? ".0000001" : "") << "\n";
                }
                args.insert(args.end(), {"-i", "init.txt"});
            }
            if (r.p(30)) args.push_back("--include-mps-loading-time");
            args.push_back("in.mps");
            std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr);
            int so = dup(1), dn = open("/dev/null", O_WRONLY); fflush(stdout); dup2(dn, 1); close(dn);
            try { standalone::MPSSolver s((int)args.size(), av.data()); s.run(); }
            catch (const std::exception &e) { out = "exc"; what = e.what(); }
            std::cout.flush(); fflush(stdout); dup2(so, 1); close(so);
            for (auto *f : {"incumbent.json", "incumbent.sol", "status.json"}) files.ks(f, slurp(f));
            if (o.output.is_enabled_store_feasible_solutions) files.ks("feasible.json", slurp("feasible.json"));
            J na('['); for (int i = 0; i < I.n; i++) na.raw(J::q("x" + std::to_string(i))); j.kr("names", na.str());
            J nc('['); for (size_t q = 0; q < I.c.size(); q++) nc.raw(J::q("c" + std::to_string(q))); j.kr("cnames", nc.str());
            j.ks("kind", "app").kr("E", "[]");
        }
        j.ks("out", out).ks("what", what.substr(what.find("function") == std::string::npos ? 0 : what.find("function"))).kr("I", I.json_fields()).kr("files", files.str());
        if (chdir("/")) _exit(4);
        std::string cmd = "rm -rf '" + d + "'"; if (system(cmd.c_str())) {}
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
    run_forked(N, 10, fn, stdout, [&](int k, const std::string &w) {
        Rng r(S * 5000011 + k); Inst I = make(r);
        J j; j.kv("k", k).ks("kind", "crash").ks("out", "crash").ks("what", w).kr("I", I.json_fields()).kr("files", "{}").kr("E", "[]"); return j.str();
    }, 8);
}
