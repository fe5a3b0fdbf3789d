// MPS files: (read) generated files, well-formed and malformed, are read by the real reader and
// imported into a model; (write) generated models are written by the real writer and read back.
// Every file is recorded as its lines of tokens, every model as bounds, half-spaces and objective.
#include "common.h"
#include <fstream>
#include <sys/stat.h>
using namespace vf;
constexpr int SC = 1000;

static int e3(double v) {
    if (std::isnan(v) || std::isinf(v) || std::fabs(v) > 2e6) return BAD;
    double s = v * SC, q = std::floor(s + 0.5);
    if (std::fabs(s - q) > 1e-6) return BAD;
    return (int)q;
}
static std::string nosp(const std::string &s) { std::string r; for (char c : s) if (c != ' ') r += c; return r; }

static std::string model_json(Model &M) {
    J j; J vs('['); std::map<const Variable *, std::string> nm;
    for (auto &p : M.variable_proxies()) for (auto &v : p.flat_indexed_variables()) {
        J e; e.ks("n", nosp(v.name()));
        nm[&v] = nosp(v.name());
        if (v.is_fixed()) e.kv("lb", v.value()).kv("ub", v.value()); else e.kv("lb", enc_ib(v.lower_bound())).kv("ub", enc_ib(v.upper_bound()));
        vs.raw(e.str());
    }
    auto lin = [&](const auto &sens, J &e) {
        std::map<std::string, double> m; for (auto &it : sens) m[nm.count(it.first) ? nm[it.first] : std::string("?unknown")] += it.second;
        J t('['); for (auto &it : m) if (it.second != 0) { J q; q.ks("n", it.first).kv("a", e3(it.second)); t.raw(q.str()); }
        e.kr("t", t.str());
    };
    J cs('[');
    for (auto &p : M.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) {
        J e; lin(c.expression().sensitivities(), e);
        e.kv("s", c.sense() == model_component::ConstraintSense::Less ? -1 : c.sense() == model_component::ConstraintSense::Equal ? 0 : 1).kv("r", e3(-c.expression().constant_value()));
        cs.raw(e.str());
    }
    J o; lin(M.objective().expression().sensitivities(), o);
    o.kv("c", e3(M.objective().expression().constant_value())).kb("min", M.is_minimization());
    j.kr("v", vs.str()).kr("c", cs.str()).kr("o", o.str());
    return j.str();
}

// a file as token lines: every token carries its text and its value in thousandths
static std::string lines_json(const std::string &file) {
    std::ifstream f(file); std::string s; J a('[');
    while (std::getline(f, s)) {
        std::istringstream is(s); std::string t; J toks('['), nums('[');
        bool star = !s.empty() && s[0] == '*';
        while (is >> t) {
            toks.raw(J::q(t));
            char *end; double v = strtod(t.c_str(), &end);
            nums.num(*end ? 0 : v >= 1e9 ? PINF : v <= -1e9 ? NINF : e3(v));
        }
        J e; e.kb("c", star).kr("t", toks.str()).kr("v", nums.str()); a.raw(e.str());
    }
    return a.str();
}

struct Out {  // free-form writer of MPS text
    Rng &r; std::string s; bool crlf;
    Out(Rng &r) : r(r), crlf(r.p(10)) {}
    std::string gap() { return r.p(15) ? std::string("\t") : std::string(r.in(1, 6), ' '); }
    void nl() { s += crlf ? "\r\n" : "\n"; if (r.p(3)) s += "\n"; if (r.p(4)) s += "* a comment 3 about nothing\n"; }
    void line(const std::vector<std::string> &t) { s += std::string(r.in(1, 4), ' '); for (size_t i = 0; i < t.size(); i++) s += (i ? gap() : std::string()) + t[i]; nl(); }
    void head(const std::string &t) { s += t; nl(); }
    std::string num(int v) {  // thousandths
        char b[64];
        switch (r.in(0, 4)) {
            case 0: snprintf(b, 64, "%.3f", v / 1000.0); break;
            case 1: snprintf(b, 64, "%.12e", v / 1000.0); break;
            case 2: snprintf(b, 64, "%.10g", v / 1000.0); break;
            case 3: snprintf(b, 64, "%+.4f", v / 1000.0); break;
            default: snprintf(b, 64, "%de-3", v);
        }
        return b;
    }
};

static int coef(Rng &r) {
    switch (r.in(0, 5)) { case 0: return 1000; case 1: return -1000; case 2: return 1000 * r.in(-9, 9); case 3: return r.in(-9999, 9999); case 4: return r.in(-999999999, 999999999); default: return 500 * r.in(-7, 7); }
}

static std::string gen_file(Rng &r) {
    Out o(r);
    int n = r.in(1, 6), m = r.in(0, 5);
    std::vector<std::string> rows, cols; std::string obj = r.pick(std::vector<std::string>{"obj", "COST", "OBJ_1", "N"});
    std::vector<std::string> types;
    for (int i = 0; i < m; i++) { rows.push_back(r.pick(std::vector<std::string>{"c", "R", "row_", "RHS", "L", "E."}) + std::to_string(i)); types.push_back(r.pick(std::vector<std::string>{"L", "E", "G"})); }
    for (int i = 0; i < n; i++) cols.push_back(r.pick(std::vector<std::string>{"x", "Y_", "v#", "UP", "BOUNDS"}) + std::to_string(i));
    if (r.p(20)) o.s += "* leading comment\n";
    o.head("NAME          " + std::string(r.p(50) ? "problem" : "p1"));
    o.head("ROWS");
    int opos = r.p(70) ? 0 : r.in(0, m); std::vector<std::string> freerows;
    for (int i = 0; i <= m; i++) {
        if (i == opos) o.line({"N", obj});
        if (i >= opos && r.p(5)) { freerows.push_back("free" + std::to_string(i)); o.line({"N", freerows.back()}); }
        if (i < m) o.line({types[i], rows[i]});
    }
    if (r.p(1)) o.line({"Q", "bad"});
    o.head("COLUMNS");
    bool integer = false; int mk = 0;
    auto marker = [&](bool on) { o.line({"MARK" + std::to_string(mk++), "'MARKER'", on ? "'INTORG'" : "'INTEND'"}); integer = on; };
    const bool cont = r.p(25);
    for (int j = 0; j < n; j++) {
        bool want = !(cont && r.p(40));
        if (want != integer) marker(want); else if (want && r.p(15)) { marker(false); marker(true); }
        std::vector<std::pair<std::string, int>> ent;
        if (r.p(70)) ent.push_back({obj, coef(r)});
        for (int i = 0; i < m; i++) if (r.p(60)) ent.push_back({rows[i], coef(r)});
        for (auto &f : freerows) if (r.p(60)) ent.push_back({f, coef(r)});
        if (r.p(1)) ent.push_back({"undefined_row", 1000});
        if (ent.empty()) ent.push_back({obj, 0});
        for (size_t q = ent.size(); q > 1; q--) std::swap(ent[q - 1], ent[r.in(0, (int)q - 1)]);
        for (size_t q = 0; q < ent.size();) {
            std::vector<std::string> t = {cols[j]}; int k = r.p(40) ? 2 : 1;
            while (k-- && q < ent.size()) { t.push_back(ent[q].first); t.push_back(o.num(ent[q].second)); q++; }
            o.line(t);
        }
    }
    if (integer) marker(false);
    if (r.p(95)) {
        o.head("RHS");
        std::vector<std::pair<std::string, int>> ent;
        for (int i = 0; i < m; i++) if (r.p(75)) ent.push_back({rows[i], coef(r)});
        if (r.p(20)) ent.push_back({obj, coef(r)});
        for (size_t q = 0; q < ent.size();) {
            std::vector<std::string> t = {"RHS"}; int k = r.p(40) ? 2 : 1;
            while (k-- && q < ent.size()) { t.push_back(ent[q].first); t.push_back(o.num(ent[q].second)); q++; }
            o.line(t);
        }
    }
    if (r.p(35)) {
        o.head("RANGES");
        for (int i = 0; i < m; i++) if (r.p(40)) { int v = coef(r); if (types[i] == "E" && v == 0) v = 1000; o.line({"RNG", rows[i], o.num(v)}); }
    }
    if (r.p(85)) {
        o.head("BOUNDS");
        for (int j = 0; j < n; j++) {
            auto &x = cols[j];
            auto val = [&](int v) { return r.p(50) ? std::to_string(v) : o.num(1000 * v); };
            auto frac = [&](int lo, int hi) { int v = r.in(lo, hi); if (v % 1000 == 0 && r.p(50)) return std::to_string(v / 1000); return o.num(v); };
            switch (r.in(0, 13)) {
                case 0: break;
                case 1: o.line({"FR", "bnd", x}); break;
                case 2: o.line({"BV", "bnd", x}); break;
                case 3: o.line({"MI", "bnd", x}); if (r.p(60)) o.line({"UP", "bnd", x, val(r.in(-9, 9))}); break;
                case 4: o.line({"PL", "bnd", x}); break;
                case 5: { int v = r.in(-9, 9); o.line({r.p(80) ? "LO" : "LI", "bnd", x, val(v)}); if (r.p(50)) o.line({"PL", "bnd", x}); break; }
                case 6: o.line({r.p(80) ? "UP" : "UI", "bnd", x, val(r.in(0, 100000))}); break;
                case 7: { int v = r.in(-100, 100); o.line({"LO", "bnd", x, val(v)}); o.line({"UP", "bnd", x, val(v + r.in(0, 50))}); break; }
                case 8: { int v = r.in(-100, 100); o.line({"UP", "bnd", x, val(v + r.in(0, 50))}); o.line({"LO", "bnd", x, val(v)}); break; }
                case 9: o.line({"FX", "bnd", x, val(r.in(-20, 20))}); break;
                case 10: { int v = r.in(-5000, 5000); o.line({"LO", "bnd", x, frac(v, v + 900)}); o.line({"UP", "bnd", x, frac(v + 2000, v + 9000)}); break; }
                case 11: o.line({"UP", "bnd", x, r.pick(std::vector<std::string>{"1e30", "1E+20", "1e10", "9999999999"})}); break;
                case 12: o.line({"LO", "bnd", x, r.pick(std::vector<std::string>{"-1e30", "-1E+20"})}); o.line({"UP", "bnd", x, val(r.in(-9, 9))}); break;
                default: { int v = r.in(-50, 0); o.line({"LO", "bnd", x, val(v)}); o.line({"LO", "bnd", x, val(v + 1)}); o.line({"UP", "bnd", x, val(v + 3)}); }
            }
        }
        if (r.p(2)) o.line({"UP", "bnd", "undefined_column", "3"});
    }
    if (!r.p(2)) o.head("ENDATA"); 
    return o.s;
}

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]); std::string dir = argv[3]; const std::string only = argc > 4 ? argv[4] : "";
    auto fn = [&](int k) -> std::string {
        Rng r(S * 3000017 + k);
        const std::string file = dir + "/f" + std::to_string(k) + ".mps";
        bool write_mode = r.p(40); if (!only.empty()) write_mode = only == "write";
        J j; j.kv("k", k); std::string out = "ok", what, want = "{}";
        if (write_mode) {
            Model M; int n = r.in(1, 6), m = r.in(0, 5);
            std::vector<Variable *> v;
            if (r.p(50)) { auto &p = M.create_variables("x", n); for (auto &x : p.flat_indexed_variables()) v.push_back(&x); }
            else if (r.p(30) && n % 2 == 0) { auto &p = M.create_variables("y", std::vector<int>{n / 2, 2}); for (auto &x : p.flat_indexed_variables()) v.push_back(&x); }
            else { std::vector<std::string> nms; for (int i = 0; i < n; i++) { M.create_variable("z" + std::to_string(i)); } for (auto &p : M.variable_proxies()) for (auto &x : p.flat_indexed_variables()) v.push_back(&x); }
            for (auto *x : v) {
                int lo = r.in(-20, 20), hi = lo + r.in(0, 40);
                if (r.p(25)) { lo = 0; hi = 1; } if (r.p(20)) lo = constant::INT_HALF_MIN; if (r.p(20)) hi = constant::INT_HALF_MAX; if (r.p(15)) lo = std::min(0, hi); if (r.p(10)) { lo = -1234567; hi = 1234567; }
                x->set_bound(lo, hi);
                if (r.p(10)) x->fix_by(r.in(-9, 9));
            }
            const bool mini = r.p(60);
            std::vector<std::map<int, int>> A(m); std::vector<int> b(m), s(m); std::map<int, int> o; int oc = r.p(50) ? coef(r) : 0;
            for (int i = 0; i < n; i++) if (r.p(60)) { o[i] = coef(r); }
            std::vector<model_component::Constraint<int, double> *> cs; bool arr = r.p(50);
            if (arr && m) M.create_constraints("c", m); else for (int q = 0; q < m; q++) M.create_constraint("k" + std::to_string(q));
            for (auto &p : M.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) cs.push_back(&c);
            auto lin = [&](const std::map<int, int> &a) { auto e = Expr::create_instance(); for (auto &it : a) e = e + (it.second / 1000.0) * (*v[it.first]); return e; };
            for (int q = 0; q < m; q++) {
                for (int i = 0; i < n; i++) if (r.p(55)) A[q][i] = coef(r);
                b[q] = r.p(80) ? coef(r) : 0; s[q] = r.in(-1, 1);
                auto e = lin(A[q]); double rhs = b[q] / 1000.0;
                if (s[q] < 0) *cs[q] = e <= rhs; else if (s[q] > 0) *cs[q] = e >= rhs; else *cs[q] = e == rhs;
            }
            auto f = lin(o) + oc / 1000.0;
            if (mini) M.minimize(f); else M.maximize(f);
            try { M.write_mps(file); } catch (const std::exception &e) { out = "exc"; what = e.what(); }
            // the model as generated (independent of the library's expressions)
            J w, vs('['), cj('[');
            std::vector<std::string> nm;
            for (auto *x : v) { nm.push_back(nosp(x->name())); J e; e.ks("n", nm.back()); if (x->is_fixed()) e.kv("lb", x->value()).kv("ub", x->value()); else e.kv("lb", enc_ib(x->lower_bound())).kv("ub", enc_ib(x->upper_bound())); vs.raw(e.str()); }
            auto tj = [&](const std::map<int, int> &a, int sg) { J t('['); for (auto &it : a) if (it.second) { J q; q.ks("n", nm[it.first]).kv("a", sg * it.second); t.raw(q.str()); } return t.str(); };
            for (int q = 0; q < m; q++) { J e; e.kr("t", tj(A[q], 1)).kv("s", s[q]).kv("r", b[q]); cj.raw(e.str()); }
            J oj; oj.kr("t", tj(o, mini ? 1 : -1)).kv("c", mini ? oc : -oc).kb("min", true);
            w.kr("v", vs.str()).kr("c", cj.str()).kr("o", oj.str()); want = w.str();
        } else { std::ofstream f(file, std::ios::binary); f << gen_file(r); }
        const bool accept = write_mode ? false : r.p(85);
        std::string got = "{}", phase = "read";
        if (out == "ok") {
            try { mps::MPS d(file); Model M2; auto *sv = std::cout.rdbuf(); static NullBuf nb; std::cout.rdbuf(&nb); try { M2.import_mps(d, accept); } catch (...) { std::cout.rdbuf(sv); throw; } std::cout.rdbuf(sv); got = model_json(M2); }
            catch (const std::exception &e) { out = "exc"; what = e.what(); }
        }
        j.ks("kind", write_mode ? "write" : "read").ks("out", out).ks("what", what.substr(what.find("function") == std::string::npos ? 0 : what.find("function"))).kb("accept", accept).kr("lines", lines_json(file)).kr("got", got).kr("want", want);
        unlink(file.c_str());
        return j.str();
    };
    if (getenv("ONE")) { puts(fn(atoi(getenv("ONE"))).c_str()); return 0; }
    run_forked(N, 10, fn, stdout, [&](int k, const std::string &w) {
        J j; j.kv("k", k).ks("kind", "crash").ks("out", "crash").ks("what", w).kr("lines", "[]").kr("got", "{}").kr("want", "{}").kb("accept", true); return j.str();
    }, 8);
}
