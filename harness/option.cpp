// Option handling: option files in every layout are read, values are assigned, written and
// printed; after every step the value of every option is recorded.
// args: N seed dir
#include "common.h"
#include <unistd.h>
using namespace vf;
using Opt = option::Option;

static std::string cb(bool b) { return b ? "true" : "false"; }
static std::string cd(double v) { char b[64]; snprintf(b, sizeof b, "%.6e", v); return b; }
struct Row { std::string section, key; char kind; std::vector<std::string> names; std::function<std::string(const Opt &)> get; std::function<void(Opt &, const std::string &)> set; };
static std::vector<Row> table() {
    std::vector<Row> T;
#define BOOL(s, k) T.push_back({#s, #k, 'b', {}, [](const Opt &o) { return cb(o.s.k); }, [](Opt &o, const std::string &v) { o.s.k = v == "true"; }});
#define INT(s, k) T.push_back({#s, #k, 'i', {}, [](const Opt &o) { return std::to_string(o.s.k); }, [](Opt &o, const std::string &v) { o.s.k = atoi(v.c_str()); }});
#define DBL(s, k) T.push_back({#s, #k, 'd', {}, [](const Opt &o) { return cd(o.s.k); }, [](Opt &o, const std::string &v) { o.s.k = atof(v.c_str()); }});
#define ENUM(s, k, t, ...) T.push_back({#s, #k, 'e', {__VA_ARGS__}, [](const Opt &o) { static const std::vector<std::string> n = {__VA_ARGS__}; int q = (int)o.s.k; return q < 0 || q >= (int)n.size() ? "?" + std::to_string(q) : n[q]; }, [](Opt &o, const std::string &v) { static const std::vector<std::string> n = {__VA_ARGS__}; for (size_t q = 0; q < n.size(); q++) if (n[q] == v) o.s.k = (option::t)q; }});
#include "option_table.inc"
    return T;
}

int main(int argc, char **argv) {
    int N = atoi(argv[1]); uint64_t S = atoll(argv[2]); std::string dir = argv[3];
    auto fn = [&](int k) -> std::string {
        Rng r(S * 7000003 + k);
        auto T = table(); const int n = T.size();
        std::vector<std::string> sections;
        for (auto &t : T) if (sections.empty() || sections.back() != t.section) sections.push_back(t.section);
        const std::string file = dir + "/o" + std::to_string(getpid()) + ".json";
        J j; j.kv("k", k);
        { J q('['); for (auto &t : T) q.raw(J::q(t.section + "." + t.key)); j.kr("names", q.str()); }
        { J q('['); for (auto &t : T) q.raw(J::q(std::string(1, t.kind))); j.kr("kinds", q.str()); }
        { J q('['); for (auto &t : T) { J a('['); for (auto &s : t.names) a.raw(J::q(s)); q.raw(a.str()); } j.kr("enums", q.str()); }
        auto obs = [&](const Opt &o) { J q('['); for (auto &t : T) q.raw(J::q(t.get(o))); return q.str(); };
        Opt o; j.kr("init", obs(o));
        auto decimal = [&] { static const double f[] = {1, 0.1, 0.01, 0.001, 1e3, 1e5}; double v = r.in(-999, 999) * f[r.in(0, 5)]; return r.p(10) ? 1e7 : r.p(10) ? -1e20 : v; };
        auto layout = [&](int q) -> std::string { static const char *ws[] = {"", " ", "\n", "\n    ", "\t", "\r\n", "  "}; return ws[q == 0 ? 1 : q == 1 ? 3 : q == 2 ? 5 : q == 3 ? 0 : r.in(0, 6)]; };
        // an option whose value in a file is known to be ignored gets episodes of its own
        const bool solo = k % 100 == 7;
        auto isolated = [&](int i) { return T[i].section + "." + T[i].key == "parallel.number_of_threads_move_update"; };
        J ev('[');
        int steps = r.in(2, 6);
        for (int st = 0; st < steps; st++) {
            J e; int what = r.in(0, 9);
            if (what < 4 || solo) {
                // an option file: some sections, some options, some order, some layout
                struct Ent { int i; std::string type, text, v; };
                std::map<std::string, std::vector<Ent>> doc; std::vector<Ent> all;
                int dens = r.in(0, 3) == 0 ? 100 : r.in(1, 60); bool bad = r.p(25); bool wrong = false;
                std::vector<std::string> order = sections; for (int q = order.size() - 1; q > 0; q--) std::swap(order[q], order[r.in(0, q)]);
                for (int i = 0; i < n; i++) {
                    if (solo ? !isolated(i) : (isolated(i) || !r.p(dens))) continue;
                    Ent x; x.i = i; char kd = T[i].kind;
                    if (bad && !wrong && r.p(10)) {
                        wrong = true;  // a value of the wrong type
                        if (kd == 'b') { x.type = "i"; x.text = r.p(50) ? "1" : "0"; }
                        else if (kd == 'i') { if (r.p(50)) { x.type = "d"; x.text = "2.5"; } else { x.type = "s"; x.text = "\"7\""; } }
                        else if (kd == 'd') { x.type = "s"; x.text = "\"0.5\""; }
                        else { x.type = "s"; x.text = "\"NoSuchMode\""; x.v = "NoSuchMode"; }
                    } else if (kd == 'b') { x.type = "b"; x.v = x.text = cb(r.p(50)); }
                    else if (kd == 'i') { x.type = "i"; x.v = x.text = std::to_string(r.p(80) ? r.in(0, 1000) : r.p(50) ? -r.in(1, 50) : 2147483647 - r.in(0, 5)); }
                    else if (kd == 'd') {
                        double v = decimal(); x.v = cd(v);
                        if (r.p(20)) { int q = r.in(-500, 5000); x.type = "i"; x.text = std::to_string(q); x.v = cd(q); }
                        else { char b[64]; int f = r.in(0, 3); snprintf(b, sizeof b, f == 0 ? "%.6e" : f == 1 ? "%.6E" : "%.7f", v); x.type = "d"; x.text = b; }
                    } else {
                        int q = r.in(0, (int)T[i].names.size() - 1); x.v = T[i].names[q];
                        if (r.p(70)) { x.type = "s"; x.text = "\"" + x.v + "\""; } else { x.type = "i"; x.text = x.v = std::to_string(q); }
                    }
                    doc[T[i].section].push_back(x);
                }
                int ly = r.in(0, 5); std::string t = "{" + layout(ly); bool firsts = true;
                for (auto &s : order) {
                    if (!doc.count(s) && r.p(70)) continue;
                    if (!firsts) t += layout(4) + "," + layout(ly);
                    firsts = false;
                    auto es = doc[s]; for (int q = (int)es.size() - 1; q > 0; q--) std::swap(es[q], es[r.in(0, q)]);
                    t += "\"" + s + "\"" + (ly == 3 ? "" : r.p(30) ? " " : "") + ":" + layout(ly == 1 ? 0 : ly) + "{" + layout(ly);
                    bool first = true;
                    if (r.p(10)) { t += "\"description\": \"a, b: {c} [d]\"" + std::string(es.empty() ? "" : ",") + layout(ly); }
                    for (auto &x : es) { if (!first) t += "," + layout(ly); first = false; t += "\"" + T[x.i].key + "\"" + layout(ly == 1 ? 0 : ly) + ":" + layout(ly == 1 ? 0 : ly) + x.text; }
                    t += layout(ly) + "}";
                }
                t += layout(ly) + "}" + (r.p(50) ? "\n" : "");
                { std::ofstream f(file, std::ios::binary); f << t; }
                std::string out = "ok"; bool fresh = r.p(40);
                try { if (fresh) { Opt q(file); o = q; } else o.setup(file); } catch (...) { out = "refused"; }
                e.ks("op", "load").ks("out", out);
                J a('['); for (auto &s : doc) for (auto &x : s.second) { J b; b.kv("i", x.i + 1).ks("t", x.type).ks("v", x.v); a.raw(b.str()); }
                e.kr("set", a.str()).kr("o", obs(o));
            } else if (what < 7) {
                int i = r.in(0, n - 1); std::string v;
                char kd = T[i].kind;
                v = kd == 'b' ? cb(r.p(50)) : kd == 'i' ? std::to_string(r.in(-9, 9999)) : kd == 'd' ? cd(decimal()) : T[i].names[r.in(0, (int)T[i].names.size() - 1)];
                T[i].set(o, v);
                e.ks("op", "assign").kv("i", i + 1).ks("v", v).kr("o", obs(o));
            } else if (what == 7) { o.initialize(); e.ks("op", "reset").kr("o", obs(o)); }
            else if (what == 8) {
                utility::json::write_json_object(o.to_json(), file);
                std::ifstream f(file); std::stringstream ss; ss << f.rdbuf();
                std::string out = "ok"; Opt q; bool skip = q.parallel.number_of_threads_move_update != o.parallel.number_of_threads_move_update;
                try { Opt p(file); if (skip) p.parallel.number_of_threads_move_update = o.parallel.number_of_threads_move_update; q = p; } catch (...) { out = "refused"; }
                e.ks("op", "save").ks("text", ss.str()).ks("out", out).kr("o", obs(q));
            } else {
                std::stringstream ss; auto *old = std::cout.rdbuf(ss.rdbuf()); o.print(); std::cout.rdbuf(old);
                e.ks("op", "print").ks("text", ss.str()).kr("o", obs(o));
            }
            ev.raw(e.str());
        }
        unlink(file.c_str());
        j.kr("ev", ev.str());
        return j.str();
    };
    run_forked(N, 20, fn, stdout, [&](int k, const std::string &why) { J j; j.kv("k", k).kr("names", "[]").kr("kinds", "[]").kr("enums", "[]").kr("init", "[]"); J e; e.ks("op", "crash").ks("why", why); J a('['); a.raw(e.str()); j.kr("ev", a.str()); return j.str(); });
}
