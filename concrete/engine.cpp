// Search for an input on which the real library and the reference model differ.
//   engine --script FILE            run one history; prints the mismatches
//   engine --search SEED SECS OUT   random histories; mismatching ones go to OUT/<n>.script
// The library is reached through its public API only.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <random>

#ifdef SINGLE
#include VERIF_SINGLE
#else
#include "blet/args.h"
#endif
#include "model.h"

using blet::Args;
namespace ba = blet::args;
using model::PArg;
using model::Strs;

static std::string enc(const std::string& s) {
    if (s.empty()) return "%_";
    std::string r;
    char b[4];
    for (unsigned char c : s)
        if (c > 32 && c < 127 && c != '%') r += char(c);
        else snprintf(b, 4, "%%%02x", c), r += b;
    return r;
}
static std::string dec(const std::string& s) {
    if (s == "%_") return "";
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%') r += char(strtol(s.substr(i + 1, 2).c_str(), 0, 16)), i += 2;
        else r += s[i];
    return r;
}
static std::string show(const Strs& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? ", \"" : "\"") + v[i] + "\"";
    return r + "]";
}

struct Op {
    std::string cmd;
    Strs a;
};
typedef std::vector<Op> Script;
static std::string text(const Script& s) {
    std::string r;
    for (auto& o : s) {
        r += o.cmd;
        for (auto& w : o.a) r += " " + enc(w);
        r += "\n";
    }
    return r;
}
static Script parseScript(std::istream& is) {
    Script s;
    std::string line, w;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        Op o;
        ls >> o.cmd;
        while (ls >> w) o.a.push_back(dec(w));
        s.push_back(o);
    }
    return s;
}

// ---- validators ---------------------------------------------------------
static std::vector<model::Call> g_calls;
static std::map<int, int> g_alive;  // live validators by id
struct TestValid : ba::IValid {
    model::Validator v;
    explicit TestValid(const model::Validator& v_) : v(v_) { ++g_alive[v.id]; }
    ~TestValid() { --g_alive[v.id]; }
    bool isValid(std::vector<std::string>& args) {
        g_calls.push_back(model::Call{v.id, args});
        if (v.kind == "throw") throw ba::ParseArgumentValidException("refused");
        if (v.kind == "std") throw std::runtime_error("other");
        return model::Registry::verdict(v, args);
    }
};

// ---- destinations -------------------------------------------------------
static std::vector<model::Delivery> g_custom;  // what the custom functions received
struct Dest {
    std::string kind;
    int id;
    int i = -77;
    double d = -77.5;
    bool b = false;
    char c = 'q';
    short sh = -77;
    unsigned u = 77;
    long l = -77;
    float f = -77;
    std::string s = "unset";
    const char* cs = "unset";
    char c1[1 + 4], c4[4 + 4], c5[5 + 4], c8[8 + 4];
    std::vector<int> vi;
    std::vector<std::string> vs;
    std::vector<double> vd;
    std::vector<std::vector<int>> vvi;
    std::vector<std::vector<std::string>> vvs;
};
// custom functions find their destination by its address
static std::map<const void*, int> g_destOf;
static void customS(std::string& d, bool ex, const std::string& a) {
    model::Delivery r;
    r.destId = g_destOf[&d];
    r.exist = ex;
    r.scalar = a;
    g_custom.push_back(r);
}
static void customV(std::vector<std::string>& d, bool ex, const std::vector<std::string>& a) {
    model::Delivery r;
    r.destId = g_destOf[&d];
    r.exist = ex;
    r.rows.push_back(a);
    g_custom.push_back(r);
}
static void customVV(std::vector<std::vector<std::string>>& d, bool ex, const std::vector<std::vector<std::string>>& a) {
    model::Delivery r;
    r.destId = g_destOf[&d];
    r.exist = ex;
    r.rows = a;
    g_custom.push_back(r);
}

static bool inRange(const std::string& s, double lo, double hi) {
    double v = strtod(s.c_str(), 0);
    return v >= lo && v <= hi;
}

struct Run {
    Args real;
    model::Registry m;
    std::vector<std::string> out;  // mismatches: "<what> <detail>"
    std::map<int, std::unique_ptr<Dest>> dests;
    std::set<int> dead;            // validators the caller owns
    std::vector<std::unique_ptr<TestValid>> owned;
    Strs pool;                     // every name mentioned
    int nextId = 1;
    bool stop = false;
    bool known = true;             // the last parse succeeded: the values are specified
    size_t line = 0;
    std::vector<std::vector<char>> argvStore;
    std::vector<char*> argvPtr;

    void bad(const std::string& what, const std::string& detail) {
        if (out.size() < 6) out.push_back(what + " line " + std::to_string(line + 1) + ": " + detail);
        stop = true;
    }
    void same(const std::string& what, const std::string& of, double got, double want) {
        if (!(got == want) && !(std::isnan(got) && std::isnan(want))) bad(what, of + ": got " + std::to_string(got) + ", expected " + std::to_string(want));
    }
    void same(const std::string& what, const std::string& of, float got, float want) { same(what, of, double(got), double(want)); }
    template<class A, class B>
    void same(const std::string& what, const std::string& of, const A& got, const B& want) {
        if (!(got == want)) {
            std::ostringstream o;
            o << of << ": got " << got << ", expected " << want;
            bad(what, o.str());
        }
    }
    void same(const std::string& what, const std::string& of, const Strs& got, const Strs& want) {
        if (got != want) bad(what, of + ": got " + show(got) + ", expected " + show(want));
    }
    void name(const std::string& n) {
        if (std::find(pool.begin(), pool.end(), n) == pool.end()) pool.push_back(n);
    }

    // run f on the library; "" or the type of the exception
    template<class F>
    std::string call(F f, std::string& arg, std::string& what) {
        arg = what = "";
        try {
            f();
            return "";
        } catch (const ba::HelpException& e) {
            what = e.what();
            return "Help";
        } catch (const ba::VersionException& e) {
            what = e.what();
            return "Version";
        } catch (const ba::AccessDeniedException& e) {
            arg = e.argument();
            return "AccessDenied";
        } catch (const ba::ParseArgumentRequiredException& e) {
            arg = e.argument();
            what = e.what();
            return "Required";
        } catch (const ba::ParseArgumentValidException& e) {
            arg = e.argument();
            return "Valid";
        } catch (const ba::ParseArgumentException& e) {
            arg = e.argument();
            return "Parse";
        } catch (const ba::ArgumentException& e) {
            arg = e.argument();
            return "Argument";
        } catch (const ba::Exception& e) {
            return "Exception";
        } catch (const std::exception& e) {
            return "Std";
        }
    }
    template<class FR, class FM>
    bool both(const std::string& what, FR fr, FM fm) {
        model::Throw t;
        bool thrown = false;
        try {
            fm();
        } catch (const model::Throw& x) {
            t = x;
            thrown = true;
        }
        std::string arg, msg;
        std::string got = call(fr, arg, msg);
        std::string want = thrown ? t.type : "";
        if (got != want) {
            bad(what, "outcome: got " + (got.empty() ? std::string("success") : got + "Exception(" + arg + ")") + ", expected " +
                          (want.empty() ? "success" : want + "Exception(" + t.arg + ")"));
        } else if (thrown) {
            if (t.type != "Help" && t.type != "Version" && t.type != "Std") same(what, "name in the exception", arg, t.arg);
            if (t.type == "Help" || t.type == "Version") same(t.type == "Help" ? "usage" : "parse.version", "text of the exception", msg, t.what);
            if (t.type == "Required") same("parse.required", "message", msg, t.what);
            if (t.what == "defaults") stop = true;  // the configuration stays inconsistent
        }
        return !thrown && !stop;
    }

    void observe(const std::string& after, bool parsed) {
        const std::string reg = after + ".registry", val = after + ".value";
        std::map<const ba::Argument*, PArg> seen;
        for (auto& n : pool) {
            PArg a = m.find(n);
            same(reg, "argumentExists(" + n + ")", real.argumentExists(n), bool(a));
            std::string arg, msg;
            const ba::Argument* r = 0;
            std::string e = call([&] { r = &real.getArgument(n); }, arg, msg);
            same(reg, "getArgument(" + n + ")", e, std::string(a ? "" : "AccessDenied"));
            const ba::Argument *r2 = 0, *r3 = 0;
            std::string arg2, e2 = call([&] { r2 = &real[n]; }, arg2, msg);
            std::string arg3, e3 = call([&] { r3 = &real.updateArgument(n); }, arg3, msg);
            same(reg, "operator[](" + n + ")", e2, e);
            same(reg, "updateArgument(" + n + ")", e3, e);
            if (stop) return;
            if (!a) {
                same(reg, "name in the exception", arg, n);
                same(reg, "name in the exception", arg2, n);
                same(reg, "name in the exception", arg3, n);
                continue;
            }
            if (r2 != r || r3 != r) bad(reg, "lookups of " + n + " disagree");
            auto it = seen.find(r);
            if (it != seen.end()) {
                if (it->second != a) bad(reg, n + " finds the argument of another name");
                continue;
            }
            for (auto& p : seen)
                if (p.second == a) bad(reg, n + " does not find the argument of its other names");
            if (stop) return;
            seen[r] = a;
            const ba::Argument& c = *r;
            same(reg, "names of " + n, c.getNameOrFlags(), a->names);
            same(after + ".kind", "nargs of " + n, c.getNargs(), a->nargs);
            same(after + ".kind", "action of " + n, int(c.getAction()), int(a->action));
            same(reg, "required of " + n, c.isRequired(), a->required);
            same(reg, "help of " + n, c.getHelp(), a->help);
            same(reg, "metavar of " + n, c.getMetavar(), a->metavar);
            same(after + ".defaults", "defaults of " + n, c.getDefaults(), a->defaults);
            same(after + ".defaults", "default string of " + n, c.getDefault(), a->model::Elem::def);
            if (stop) return;
            if (!known) continue;
            same(val, "isExists of " + n, c.isExists(), a->exist);
            same(val, "count of " + n, c.count(), a->count);
            if (stop) return;
            tree(val, n, c, *a, parsed && !a->boolean());
            conversions(n, c, a, parsed);
            if (stop) return;
        }
        if (known) same(after + ".additional", "additional arguments", Strs(real.getAdditionalArguments()), m.additional);
        same(reg, "binary name", real.getBinaryName(), m.binary);
        same(reg, "version", real.getVersion(), m.version);
        same(reg, "description", real.getDescription(), m.description);
        same(reg, "epilog", real.getEpilog(), m.epilog);
        same(reg, "isStrict", real.isStrict(), m.strict);
        same(reg, "isAlternative", real.isAlternative(), m.alternative);
        same(reg, "isHelpException", real.isHelpException(), m.helpExc);
        same(reg, "isVersionException", real.isVersionException(), m.versionExc);
    }
    void leaf(const std::string& what, const std::string& of, const ba::ArgumentElement& r, const model::Elem& e, bool numbers) {
        same(what, of, r.getString(), e.arg);
        if (!numbers || stop) return;
        same("conv.number", "isNumber of " + of, r.isNumber(), e.isnum);
        std::string arg, msg;
        double d = 0;
        std::string t = call([&] { d = r.getNumber(); }, arg, msg);
        same("conv.number", "getNumber of " + of, t, std::string(e.isnum ? "" : "Exception"));
        if (e.isnum && t.empty()) same("conv.number", "number of " + of, d, e.num);
    }
    void tree(const std::string& what, const std::string& n, const ba::Argument& c, const model::Arg& a, bool numbers) {
        same(what, "number of values of " + n, c.size(), a.kids.size());
        if (stop) return;
        if (a.kids.empty() && (a.kind == model::K_SIMPLE || a.kind == model::K_POS))
            leaf(what, n, static_cast<const ba::ArgumentElement&>(c), a, numbers);
        for (size_t i = 0; i < a.kids.size() && !stop; ++i) {
            std::string of = n + "[" + std::to_string(i) + "]";
            same(what, "number of values of " + of, c[i].size(), a.kids[i].kids.size());
            if (stop) return;
            same("values.default", "default of " + of, c[i].getDefault(), a.kids[i].def);
            if (a.kids[i].kids.empty()) leaf(what, of, c[i], a.kids[i], numbers);
            for (size_t j = 0; j < a.kids[i].kids.size() && !stop; ++j) {
                leaf(what, of + "[" + std::to_string(j) + "]", c[i][j], a.kids[i].kids[j], numbers);
                same("values.default", "default of " + of, c[i][j].getDefault(), a.kids[i].kids[j].def);
            }
            // conversion of one value to a vector of strings
            Strs v, w;
            std::string arg, msg, e = call([&] { v = c[i].operator std::vector<std::string>(); }, arg, msg);
            for (auto& k : a.kids[i].kids) w.push_back(k.arg);
            same("conv.element", "vector of " + of, e, std::string(w.empty() ? "Exception" : ""));
            same("conv.element", "vector of " + of, v, w);
        }
    }
    void conversions(const std::string& n, const ba::Argument& c, const PArg& a, bool parsed) {
        if (stop) return;
        same("conv.string", "getString of " + n, c.getString(), a->str());
        std::string s = c;
        same("conv.string", "string of " + n, s, a->str());
        std::ostringstream os;
        os << c;
        same("conv.string", "output of " + n, os.str(), a->str());
        same("conv.bool", "bool of " + n, bool(c), a->kind == model::K_NOBOOL ? !a->exist : a->exist);
        Strs v, w;
        std::string arg, msg, e = call([&] { v = c.operator std::vector<std::string>(); }, arg, msg);
        bool ok = a->toStrs(w);
        same("conv.vector", "vector of " + n, e, std::string(ok ? "" : "Exception"));
        if (ok) same("conv.vector", "vector of " + n, v, w);
        std::vector<Strs> vv, ww;
        e = call([&] { vv = c.operator std::vector<std::vector<std::string>>(); }, arg, msg);
        ok = a->toGroups(ww);
        same("conv.vector", "vector of vectors of " + n, e, std::string(ok ? "" : "Exception"));
        if (ok) {
            same("conv.vector", "number of groups of " + n, vv.size(), ww.size());
            for (size_t i = 0; i < vv.size() && !stop; ++i) same("conv.vector", "group of " + n, vv[i], ww[i]);
        }
        if (!parsed || a->boolean()) return;
        if (a->kids.empty() && a->isnum) {
            double d = c;
            same("conv.number", "double of " + n, d, a->num);
            if (std::fabs(a->num) < 1e9) {
                int i = c;
                same("conv.number", "int of " + n, i, int(a->num));
            }
        }
    }

    // ---- destinations --------------------------------------------------
    void bind(const std::string& n, const std::string& kind, int id) {
        std::unique_ptr<Dest> d(new Dest);
        d->kind = kind;
        d->id = id;
        memset(d->c1, '#', sizeof(d->c1));
        memset(d->c4, '#', sizeof(d->c4));
        memset(d->c5, '#', sizeof(d->c5));
        memset(d->c8, '#', sizeof(d->c8));
        ba::Argument& a = real.updateArgument(n);
        ba::Argument* r = 0;
        if (kind == "int") r = &a.dest(d->i);
        else if (kind == "double") r = &a.dest(d->d);
        else if (kind == "bool") r = &a.dest(d->b);
        else if (kind == "char") r = &a.dest(d->c);
        else if (kind == "short") r = &a.dest(d->sh);
        else if (kind == "unsigned") r = &a.dest(d->u);
        else if (kind == "long") r = &a.dest(d->l);
        else if (kind == "float") r = &a.dest(d->f);
        else if (kind == "string") r = &a.dest(d->s);
        else if (kind == "cstr") r = &a.dest(d->cs);
        else if (kind == "char1") r = &a.dest(reinterpret_cast<char(&)[1]>(d->c1));
        else if (kind == "char4") r = &a.dest(reinterpret_cast<char(&)[4]>(d->c4));
        else if (kind == "char5") r = &a.dest(reinterpret_cast<char(&)[5]>(d->c5));
        else if (kind == "char8") r = &a.dest(reinterpret_cast<char(&)[8]>(d->c8));
        else if (kind == "vint") r = &a.dest(d->vi);
        else if (kind == "vstring") r = &a.dest(d->vs);
        else if (kind == "vdouble") r = &a.dest(d->vd);
        else if (kind == "vvint") r = &a.dest(d->vvi);
        else if (kind == "vvstring") r = &a.dest(d->vvs);
        else if (kind == "fstring") r = &a.dest(d->s, customS);
        else if (kind == "fvector") r = &a.dest(d->vs, customV);
        else r = &a.dest(d->vvs, customVV);
        g_destOf[&d->s] = id;
        g_destOf[&d->vs] = id;
        g_destOf[&d->vvs] = id;
        if (r != &real.getArgument(n)) bad("dest", "dest() does not return the argument");
        dests[id] = std::move(d);
    }
    static std::string flat(const model::Delivery& d) {
        return d.boolean ? (d.boolValue ? "true" : "false") : d.scalar;
    }
    // what the destinations must hold, from the deliveries of the model
    void checkDests() {
        std::vector<std::string> got, want;
        std::map<int, std::string> scalar;
        std::map<int, std::vector<Strs>> rows;
        std::vector<model::Delivery> customs;
        for (auto& d : m.deliveries) {
            if (!dests.count(d.destId)) continue;
            const std::string& k = d.kind;
            if (k[0] == 'f' && k != "float") {
                model::Delivery c = d;
                Strs all;
                for (auto& r : d.rows)
                    for (auto& s : r) all.push_back(s);
                if (k == "fvector") c.rows = {d.empty ? Strs(1, d.scalar) : all};
                if (k == "fvv") c.rows = d.empty ? std::vector<Strs>(1, Strs(1, d.scalar)) : d.rows;
                if (k == "fstring") c.rows.clear();
                customs.push_back(c);
            } else if (k[0] == 'v') {
                std::vector<Strs> r = d.rows;
                const bool text = k == "vstring" || k == "vvstring";
                if (d.empty) r.assign(1, Strs(1, d.boolean && !text ? (d.boolValue ? "1" : "0") : flat(d)));
                rows[d.destId].insert(rows[d.destId].end(), r.begin(), r.end());
            } else {
                scalar[d.destId] = flat(d);
            }
        }
        same("dest", "number of calls of conversion functions", g_custom.size(), customs.size());
        for (size_t i = 0; i < customs.size() && !stop; ++i) {
            same("dest", "order of delivery", g_custom[i].destId, customs[i].destId);
            same("dest", "exists flag", g_custom[i].exist, customs[i].exist);
            if (customs[i].kind == "fstring") {
                same("dest", "value given to the conversion function", g_custom[i].scalar, customs[i].scalar);
            } else {
                same("dest", "values given to the conversion function", g_custom[i].rows.size(), customs[i].rows.size());
                for (size_t j = 0; j < customs[i].rows.size() && !stop; ++j)
                    same("dest", "values given to the conversion function", g_custom[i].rows[j], customs[i].rows[j]);
            }
        }
        for (auto& p : dests) {
            Dest& d = *p.second;
            const std::string& k = d.kind;
            std::string of = k + " destination";
            bool isBool = scalar.count(p.first) && (scalar[p.first] == "true" || scalar[p.first] == "false");
            if (k[0] == 'v') {
                const std::vector<Strs>& r = rows[p.first];
                Strs all;
                for (auto& x : r)
                    for (auto& s : x) all.push_back(s);
                auto num = [](const std::string& s) { return strtod(s.c_str(), 0); };
                if (k == "vstring") same("dest", of, d.vs, all);
                if (k == "vint") {
                    same("dest", of + " size", d.vi.size(), all.size());
                    for (size_t i = 0; i < all.size() && !stop; ++i)
                        if (std::fabs(num(all[i])) < 1e9) same("dest", of, d.vi[i], int(num(all[i])));
                }
                if (k == "vdouble") {
                    same("dest", of + " size", d.vd.size(), all.size());
                    for (size_t i = 0; i < all.size() && !stop; ++i) same("dest", of, d.vd[i], num(all[i]));
                }
                if (k == "vvstring") {
                    same("dest", of + " size", d.vvs.size(), r.size());
                    for (size_t i = 0; i < r.size() && !stop; ++i) same("dest", of, d.vvs[i], r[i]);
                }
                if (k == "vvint") {
                    same("dest", of + " size", d.vvi.size(), r.size());
                    for (size_t i = 0; i < r.size() && !stop; ++i) {
                        same("dest", of + " size", d.vvi[i].size(), r[i].size());
                        for (size_t j = 0; j < r[i].size() && !stop; ++j)
                            if (std::fabs(num(r[i][j])) < 1e9) same("dest", of, d.vvi[i][j], int(num(r[i][j])));
                    }
                }
                continue;
            }
            if (!scalar.count(p.first)) {
                // nothing delivered: untouched
                same("dest", of + " untouched", d.i == -77 && d.d == -77.5 && !d.b && d.c == 'q' && d.sh == -77 && d.u == 77 && d.l == -77 &&
                     d.f == -77 && d.s == "unset" && !strcmp(d.cs, "unset"), true);
                continue;
            }
            const std::string& v = scalar[p.first];
            // a boolean option delivers its truth value, every other one its string
            bool deliveredBool = false;
            for (auto& x : m.deliveries)
                if (x.destId == p.first) deliveredBool = x.boolean;
            double num = deliveredBool && isBool ? (v == "true") : strtod(v.c_str(), 0);
            if (k == "int" && std::fabs(num) < 1e9) same("dest", of, d.i, int(num));
            if (k == "double") same("dest", of, d.d, num);
            if (k == "bool") same("dest", of, d.b, num != 0);
            if (k == "char" && num >= -128 && num <= 127) same("dest", of, int(d.c), int(num));
            if (k == "short" && num >= -32768 && num <= 32767) same("dest", of, int(d.sh), int(num));
            if (k == "unsigned" && num > -1 && num < 4e9) same("dest", of, d.u, unsigned(num));
            if (k == "long" && std::fabs(num) < 9e18) same("dest", of, d.l, long(num));
            if (k == "float" && std::fabs(num) < 1e30) same("dest", of, d.f, float(num));
            if (k == "string") same("dest", of, d.s, v);
            if (k == "cstr") same("dest", of, std::string(d.cs), v);
            auto arr = [&](const char* b, size_t n) {
                std::string w = v.substr(0, n - 1);
                if (memchr(b, 0, n) == 0) bad("dest.array", of + " not terminated");
                else same("dest.array", of, std::string(b), w);
                for (size_t i = n; i < n + 4; ++i)
                    if (b[i] != '#') bad("dest.array", of + " written out of bounds");
            };
            if (k == "char1") arr(d.c1, 1);
            if (k == "char4") arr(d.c4, 4);
            if (k == "char5") arr(d.c5, 5);
            if (k == "char8") arr(d.c8, 8);
        }
    }
    void checkValidators() {
        std::map<int, int> want;
        for (auto& a : m.args)
            if (a->valid && !model::Registry::builtin(a->valid->kind)) want[a->valid->id] = 1;
        for (auto& v : owned) want[v->v.id] = 1;
        for (auto& p : g_alive) same("valid.owner", "validator " + std::to_string(p.first) + " alive", p.second, want.count(p.first) ? 1 : 0);
    }

    // every way to build a list of strings keeps its elements in order
    template<size_t N, size_t... I>
    void builders(const Strs& w, std::index_sequence<I...>) {
        const char* a1[N] = {w[I].c_str()...};
        const char* const a2[N] = {w[I].c_str()...};
        const std::string a3[N] = {w[I]...};
        same("vector", "array of const char*", Strs(ba::Vector(a1)), w);
        same("vector", "array of const char* const", Strs(ba::Vector(a2)), w);
        same("vector", "array of strings", Strs(ba::Vector(a3)), w);
        same("vector", "initializer list", Strs(ba::Vector({std::string(w[I])...})), w);
        same("vector", "Args::vector", Strs(Args::vector(w[I].c_str()...)), w);
    }
    template<size_t N>
    void buildersOf(const Strs& w) {
        if (w.size() == N) builders<N>(w, std::make_index_sequence<N>());
        else if constexpr (N < 20) buildersOf<N + 1>(w);
    }
    void vectors(const Strs& w) {
        same("vector", "empty", Strs(ba::Vector()), Strs());
        same("vector", "size", Strs(ba::Vector(int(w.size()))), Strs(w.size()));
        same("vector", "Args::vector", Strs(Args::vector()), Strs());
        if (w.empty()) return;
        buildersOf<1>(w);
        const char* c = w[0].c_str();
        same("vector", "const char*", Strs(ba::Vector(c)), Strs(1, w[0]));
        same("vector", "string", Strs(ba::Vector(w[0])), Strs(1, w[0]));
        char lit[4] = "lit";
        const char(&l)[4] = lit;
        same("vector", "literal", Strs(ba::Vector(l)), Strs(1, "lit"));
        ba::Vector v(w[0]), x(w[0]);
        Strs want(1, w[0]);
        for (size_t i = 1; i < w.size(); ++i) {
            const char* p = w[i].c_str();
            if (i % 3 == 0) v + p, want.push_back(w[i]);
            else if (i % 3 == 1) v + w[i], want.push_back(w[i]);
            else v + "lit", want.push_back("lit");
        }
        same("vector", "operator+", Strs(v), want);
        if (&(x + w[0]) != &x) bad("vector", "operator+ does not return its vector");
    }
    void checkBuiltin(const std::string& kind, const Strs& params, const Strs& args) {
        std::unique_ptr<ba::IValid> p;
        if (kind == "number") p.reset(new ba::ValidNumber());
        else if (kind == "minmax") p.reset(new ba::ValidMinMax(atof(params[0].c_str()), atof(params[1].c_str())));
        else if (kind == "choice") p.reset(new ba::ValidChoise(params));
        else p.reset(new ba::ValidPath(kind == "path" ? ba::ValidPath::ALL : kind == "file" ? ba::ValidPath::IS_FILE : ba::ValidPath::IS_DIR));
        model::Validator v;
        v.kind = kind;
        v.params = params;
        Strs a = args, b = args;
        bool want = model::Registry::verdict(v, b);
        std::string arg, msg, e;
        bool r = false;
        e = call([&] { r = p->isValid(a); }, arg, msg);
        same("builtin", "verdict of " + kind + " on " + show(args), e, std::string(want ? "" : "Valid"));
        if (want) same("builtin", "result", r, true);
        same("builtin", "values", a, args);
    }
    void setValid(const std::string& n, const std::string& kind, const Strs& params, bool deletable) {
        model::Validator v;
        v.kind = kind;
        v.params = params;
        v.deletable = deletable;
        v.id = nextId++;
        m.find(n)->valid.reset(new model::Validator(v));
        ba::Argument& a = real.updateArgument(n);
        ba::IValid* p;
        if (kind == "number") p = new ba::ValidNumber();
        else if (kind == "minmax") p = new ba::ValidMinMax(atof(params[0].c_str()), atof(params[1].c_str()));
        else if (kind == "choice") p = new ba::ValidChoise(params);
        else if (kind == "path") p = new ba::ValidPath();
        else if (kind == "file") p = new ba::ValidPath(ba::ValidPath::IS_FILE);
        else if (kind == "dir") p = new ba::ValidPath(ba::ValidPath::IS_DIR);
        else {
            TestValid* t = new TestValid(v);
            if (!deletable) owned.push_back(std::unique_ptr<TestValid>(t));
            a.valid(t, deletable);
            return;
        }
        a.valid(p);
    }

    void doParse(const Strs& words) {
        argvStore.clear();
        argvPtr.clear();
        for (auto& w : words) argvStore.push_back(std::vector<char>(w.c_str(), w.c_str() + w.size() + 1));
        for (auto& b : argvStore) argvPtr.push_back(b.data());
        // an array of its own size: reading past argc is seen
        std::unique_ptr<char*[]> argv(new char*[argvPtr.size()]);
        for (size_t i = 0; i < argvPtr.size(); ++i) argv[i] = argvPtr[i];
        g_calls.clear();
        g_custom.clear();
        m.calls.clear();
        m.deliveries.clear();
        for (auto& d : dests) {
            Dest& x = *d.second;
            x.vi.clear();
            x.vs.clear();
            x.vd.clear();
            x.vvi.clear();
            x.vvs.clear();
            x.i = -77; x.d = -77.5; x.b = false; x.c = 'q'; x.sh = -77; x.u = 77; x.l = -77; x.f = -77; x.s = "unset"; x.cs = "unset";
        }
        bool ok = false;
        known = true;
        int n = int(words.size());
        try {
            ok = both("parse", [&] { real.parseArguments(n, argv.get()); }, [&] { m.parse(words); });
        } catch (const model::Exit& x) {
            // the process prints and exits: run the library in a child
            std::string got;
            int st = child([&] { real.parseArguments(n, argv.get()); }, got);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad("parse.exit", "exit status " + std::to_string(st) + ", expected 0");
            else same("parse.exit", "output", got, x.out);
            stop = true;
            return;
        } catch (const model::Unspecified&) {
            // no help option, "-h" and "--help" taken: the words must be parsed all the same
            std::string arg, msg;
            std::string e = call([&] { real.parseArguments(n, argv.get()); }, arg, msg);
            bool touched = !e.empty() || !real.getAdditionalArguments().empty();
            for (auto& x : pool)
                if (real.argumentExists(x)) touched = touched || real[x].isExists();
            if (!touched && n > 1) std::cerr << "KNOWN nohelper\n";
            stop = true;
            return;
        }
        for (size_t i = 0; i < words.size(); ++i)
            if (words[i] != argvPtr[i]) bad("parse.safety", "argv was written");
        if (stop) return;
        same("parse.valid", "number of validator calls", g_calls.size(), m.calls.size());
        for (size_t i = 0; i < m.calls.size() && !stop; ++i) {
            same("parse.valid", "validator called", g_calls[i].id, m.calls[i].id);
            same("parse.valid", "values given to the validator", g_calls[i].args, m.calls[i].args);
        }
        if (stop) return;
        checkDests();
        known = ok;
        if (!stop) observe("parse", true);
    }
    template<class F>
    int child(F f, std::string& out) {
        int fd[2];
        if (pipe(fd)) return -1;
        fflush(stdout);
        std::cout.flush();
        pid_t p = fork();
        if (p == 0) {
            dup2(fd[1], 1);
            close(fd[0]);
            close(fd[1]);
            try {
                f();
            } catch (...) {
                _exit(99);
            }
            _exit(98);
        }
        close(fd[1]);
        char b[4096];
        ssize_t k;
        while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, size_t(k));
        close(fd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        return st;
    }

    void step(const Op& o) {
        const std::string& c = o.cmd;
        for (auto& w : o.a)
            if (c == "add" || c == "remove" || c == "flag") name(w);
        auto vec = [](const Strs& s) {
            ba::Vector v;
            for (auto& x : s) v.push_back(x);
            return v;
        };
        if (c == "add") {
            both("add", [&] {
                ba::Argument& a = real.addArgument(vec(o.a));
                if (&a != &real.getArgument(o.a[0])) bad("add", "addArgument does not return the argument");
            }, [&] { m.add(o.a); });
            observe("add", false);
        } else if (c == "remove") {
            both("remove", [&] { real.removeArguments(vec(o.a)); }, [&] { m.remove(o.a); });
            observe("remove", false);
            checkValidators();
        } else if (c == "clear") {
            real.clear();
            m.clear();
            dests.clear();
            known = true;
            observe("clear", false);
            same("clear.usage", "usage", real.getUsage(), m.getUsage());
            checkValidators();
        } else if (c == "strict") {
            real.setStrict(o.a[0] == "1");
            m.strict = o.a[0] == "1";
        } else if (c == "alt") {
            real.setAlternative(o.a[0] == "1");
            m.alternative = o.a[0] == "1";
        } else if (c == "helpexc") {
            real.setHelpException(o.a[0] == "1");
            m.helpExc = o.a[0] == "1";
        } else if (c == "verexc") {
            real.setVersionException(o.a[0] == "1");
            m.versionExc = o.a[0] == "1";
        } else if (c == "version") {
            real.setVersion(o.a[0]);
            m.version = o.a[0];
        } else if (c == "binary") {
            real.setBinaryName(o.a[0].c_str());
            m.binary = o.a[0];
        } else if (c == "description") {
            real.setDescription(o.a[0].c_str());
            m.description = o.a[0];
        } else if (c == "epilog") {
            real.setEpilog(o.a[0].c_str());
            m.epilog = o.a[0];
        } else if (c == "setusage") {
            real.setUsage(o.a[0].c_str());
            m.usage = o.a[0];
        } else if (c == "width") {
            size_t w[4];
            for (int i = 0; i < 4; ++i) w[i] = strtoul(o.a[size_t(i)].c_str(), 0, 10);
            real.setUsageWidth(w[0], w[1], w[2], w[3]);
            m.pad = w[0]; m.argsW = w[1]; m.sep = w[2]; m.helpW = w[3];
        } else if (c == "vector") {
            vectors(o.a);
        } else if (c == "check") {
            size_t k = strtoul(o.a[1].c_str(), 0, 10);
            checkBuiltin(o.a[0], Strs(o.a.begin() + 2, o.a.begin() + 2 + long(k)), Strs(o.a.begin() + 2 + long(k), o.a.end()));
        } else if (c == "usage") {
            same("usage", "getUsage", real.getUsage(), m.getUsage());
        } else if (c == "parse") {
            doParse(o.a);
        } else {
            // the other commands concern one argument
            PArg a = m.find(o.a[0]);
            if (!a) return;
            ba::Argument& r = real.updateArgument(o.a[0]);
            if (c == "flag") {
                both("flag", [&] { r.flag(o.a[1].c_str()); }, [&] { m.flag(a, o.a[1]); });
                observe("flag", false);
            } else if (c == "action") {
                int k = atoi(o.a[1].c_str());
                both("config", [&] { r.action(ba::Action::eAction(k)); }, [&] { m.configure(a, a->nargs, model::Action(k)); });
                if (!stop) observe("config", false);
            } else if (c == "nargs") {
                size_t k = strtoull(o.a[1].c_str(), 0, 10);
                both("config", [&] { r.nargs(k); }, [&] { m.configure(a, k, a->action); });
                if (!stop) observe("config", false);
            } else if (c == "defaults") {
                Strs d(o.a.begin() + 1, o.a.end());
                both("defaults", [&] { r.defaults(vec(d)); }, [&] { m.setDefaults(a, d); });
                if (!stop) observe("defaults", false);
            } else if (c == "required") {
                r.required(o.a[1] == "1");
                a->required = o.a[1] == "1";
                m.sort();
            } else if (c == "help") {
                r.help(o.a[1].c_str());
                a->help = o.a[1];
            } else if (c == "metavar") {
                r.metavar(o.a[1].c_str());
                a->metavar = o.a[1];
            } else if (c == "valid" || c == "validkeep") {
                setValid(o.a[0], o.a[1], Strs(o.a.begin() + 2, o.a.end()), c == "valid");
                checkValidators();
            } else if (c == "dest") {
                a->dest = o.a[1];
                a->destId = nextId++;
                bind(o.a[0], o.a[1], a->destId);
                observe("dest", false);
                checkValidators();
            }
        }
    }
};

static std::vector<std::string> runScript(const Script& s) {
    g_calls.clear();
    g_custom.clear();
    g_alive.clear();
    g_destOf.clear();
    std::vector<std::string> out;
    {
        Run r;
        for (r.line = 0; r.line < s.size() && !r.stop; ++r.line) r.step(s[r.line]);
        out = r.out;
    }
    for (auto& p : g_alive)
        if (p.second != 0 && out.empty()) out.push_back("valid.owner end: validator " + std::to_string(p.first) + " not deleted");
    return out;
}

// ---- random histories -----------------------------------------------------
struct Gen {
    std::mt19937_64 g;
    explicit Gen(uint64_t s) : g(s) {}
    size_t n(size_t k) { return size_t(g() % k); }
    bool p(int percent) { return int(g() % 100) < percent; }
    const std::string& pick(const Strs& v) { return v[n(v.size())]; }
    Script s;
    Strs names;       // names in use
    Strs kindsOf;
    void op(const std::string& c, Strs a = Strs()) { s.push_back(Op{c, a}); }

    std::string freshFlag() {
        static const Strs f = {"-a", "-b", "-c", "-d", "-e", "--aa", "--bb", "--cc", "--dd", "--ab", "--ba", "--abc", "-h", "--help", "-v", "--version", "-=", "--a", "--b", "--foo-bar", "-1", "--zz", "-x", "--x"};
        return pick(f);
    }
    std::string oddFlag() {
        static const Strs f = {"-", "--", "", "-ab", "a", "ab", "-a", "--aa", "---", "----", "---x", "- ", "--=", "-ab=", "--a=b", "=", "\xc3\xa9", "-\xc3", "p", "a b", "-a ", "-x=", "-x-", "-ax", "--x-", "-a-"};
        return pick(f);
    }
    std::string posName() {
        static const Strs f = {"p", "q", "r", "pos", "file", "x y", "p=1"};
        return pick(f);
    }
    std::string value() {
        static const Strs f = {"x", "y", "1", "2", "3.5", "-", "", "foo", "a=b", "=", "12abc", "1e3", " 4", "true", "long value with blanks", "7", "abcdefgh", "0x10", "nan", "inf", "\xc3\xa9", "v"};
        return pick(f);
    }
    std::string validKind() {
        static const Strs f = {"accept", "reject", "throw", "upper", "shrink", "half", "grow", "std", "number", "minmax", "choice"};
        return pick(f);
    }
    void addArg() {
        Strs fl;
        if (p(35)) fl.push_back(posName());
        else {
            fl.push_back(freshFlag());
            while (p(40)) fl.push_back(freshFlag());
        }
        if (p(4)) fl.push_back(oddFlag());
        if (p(3)) fl = {oddFlag()};
        op("add", fl);
        for (auto& f : fl) names.push_back(f);
        size_t k = n(5);
        std::string ref = fl[0];
        auto act = [&] {
            if (p(70)) op("action", {ref, std::to_string(n(8))});
        };
        auto nar = [&] {
            if (p(60)) {
                bool huge = ref[0] == '-' && p(3);
                // the default name of the values would be as long as their number
                if (huge) op("metavar", {ref, "N"});
                op("nargs", {ref, p(8) ? "43" : huge ? (p(50) ? "18446744073709551615" : "4294967296") : std::to_string(n(4))});
            }
        };
        if (k < 2) act(), nar();
        else if (k < 4) nar(), act();
        if (p(30)) {
            Strs d = {ref};
            size_t c = p(70) ? 1 : 1 + n(6);
            // a count which often fits
            for (size_t i = 0; i < c; ++i) d.push_back(value());
            op("defaults", d);
        }
        if (p(15)) op("required", {ref, "1"});
        if (p(6)) op("help", {ref, text(n(120))});
        if (p(4)) op("metavar", {ref, value()});
        if (p(4)) op("flag", {ref, p(80) ? freshFlag() : oddFlag()});
        if (p(14)) valid(ref);
        if (p(14)) dest(ref);
        if (p(4)) valid(ref);
        if (p(3)) dest(ref);
        if (p(2)) op("action", {ref, std::to_string(n(8))});
        if (p(2)) op("nargs", {ref, std::to_string(n(4))});
    }
    std::string text(size_t len) {
        std::string r;
        while (r.size() < len) {
            r += std::string(1 + n(p(10) ? 40 : 8), char('a' + n(26)));
            r += p(6) ? "\n" : p(10) ? "  " : " ";
        }
        return r;
    }
    void valid(const std::string& ref) {
        std::string k = validKind();
        Strs a = {ref, k};
        if (k == "minmax") a.push_back(p(50) ? "1" : "10"), a.push_back(p(50) ? "3" : "2.5");
        if (k == "choice") {
            size_t c = n(4);
            for (size_t i = 0; i < c; ++i) a.push_back(value());
        }
        if (p(2)) {
            static const Strs f = {"path", "file", "dir"};
            a = {ref, pick(f)};
        }
        op(p(85) ? "valid" : "validkeep", a);
    }
    void dest(const std::string& ref) {
        static const Strs f = {"int", "double", "bool", "char", "short", "unsigned", "long", "float", "string", "cstr", "char1", "char4", "char5", "char8",
                               "vint", "vstring", "vdouble", "vvint", "vvstring", "fstring", "fvector", "fvv", "string", "vstring", "fvector", "fvv"};
        op("dest", {ref, pick(f)});
    }
    std::string letters() {
        static const std::string l = "aaabbbccddeehv1z=";
        return std::string(1, l[n(l.size())]);
    }
    std::string word() {
        size_t k = n(100);
        if (k < 34) return value();
        if (k < 58) {
            if (!names.empty() && p(85)) {
                std::string w = pick(names);
                if (p(22)) w += "=" + value();
                return w;
            }
            return freshFlag();
        }
        if (k < 80) {
            std::string w = "-";
            size_t c = 1 + n(4);
            for (size_t i = 0; i < c; ++i) w += letters();
            if (p(25)) w += "=" + value();
            return w;
        }
        if (k < 84) return "--";
        if (k < 86) return oddFlag();
        if (k < 88) return freshFlag() + "=" + value();
        if (k < 90) return "/";
        return value();
    }
    void parse() {
        Strs w = {p(90) ? "prog" : p(50) ? "/a/b/prog" : p(50) ? "--" : ""};
        size_t c = n(8);
        for (size_t i = 0; i < c; ++i) w.push_back(word());
        if (w[0].empty() && p(95)) w[0] = "prog";
        op("parse", w);
    }
    std::string known() { return names.empty() ? freshFlag() : pick(names); }
    // one argument of a chosen kind
    void simpleArg(const Strs& fl, int action, int nargs) {
        op("add", fl);
        for (auto& f : fl) names.push_back(f);
        if (action >= 0) op("action", {fl[0], std::to_string(action)});
        if (nargs >= 0) op("nargs", {fl[0], std::to_string(nargs)});
    }
    void bigArg(const Strs& fl) {
        // many values, also in groups
        size_t k = 5 + n(9);
        simpleArg(fl, fl[0][0] == '-' && p(70) ? (p(60) ? 5 : 6) : -1, int(k));
        if (p(40)) {
            Strs d = {fl[0]};
            size_t c = k * (1 + n(2)) + (p(10) ? 1 : 0);
            while (c--) d.push_back(plain());
            op("defaults", d);
        }
        if (p(50)) dest(fl[0]);
        Strs w = {"prog"};
        size_t g = 1 + n(3);
        while (g--) {
            if (fl[0][0] == '-') w.push_back(fl[0]);
            for (size_t i = 0; i < k; ++i) w.push_back(plain());
        }
        if (p(10)) w.pop_back();
        op("parse", w);
    }
    void kindArg(const Strs& fl) {
        static const int act[] = {-1, -1, 5, 5, 6, 6, 7, 3, 4, -1, 7};
        static const int nar[] = {-1, 2, -1, 2, -1, 2, -1, -1, -1, 3, 2};
        size_t k = n(11);
        simpleArg(fl, act[k], nar[k] > 0 && p(20) ? 3 : nar[k]);
    }
    void posArg(const std::string& nm) {
        static const int act[] = {-1, -1, -1, 7, 7, -1};
        static const int nar[] = {-1, -1, 2, -1, 2, 3};
        size_t k = n(6);
        simpleArg({nm}, act[k], nar[k]);
    }
    std::string plain() {
        static const Strs f = {"x", "y", "z", "1", "-", "a=b", ""};
        return pick(f);
    }
    // a word mostly known to the configuration
    std::string focused(int opt) {
        if (p(opt)) {
            std::string w;
            if (p(45)) {
                w = "-";
                size_t c = 1 + n(3);
                for (size_t i = 0; i < c; ++i) w += "aabcd"[n(5)];
            } else {
                w = known();
            }
            if (p(15)) w += "=" + plain();
            return w;
        }
        return p(6) ? "--" : plain();
    }
    void focusedParse(size_t len, int opt) {
        Strs w = {"prog"};
        size_t c = n(len + 1);
        for (size_t i = 0; i < c; ++i) w.push_back(focused(opt));
        op("parse", w);
    }
    void options() {
        if (p(25)) op("alt", {"1"});
        static const Strs sh = {"-a", "-b", "-c", "-d"}, lo = {"--aa", "--ab", "--ba", "--bb"};
        size_t c = 1 + n(3);
        for (size_t i = 0; i < c; ++i) kindArg(p(25) ? Strs{sh[i], lo[i]} : p(75) ? Strs{sh[i]} : Strs{lo[i]});
        if (p(30)) posArg("p");
        if (p(10)) op("defaults", {known(), plain()});
        do focusedParse(6, 45);
        while (p(25));
    }
    void positionals() {
        if (p(25)) op("strict", {"1"});
        static const Strs ps = {"p", "q", "r"};
        size_t c = 1 + n(3);
        for (size_t i = 0; i < c; ++i) {
            posArg(ps[i]);
            if (p(25)) op("required", {ps[i], "1"});
        }
        if (p(50)) kindArg({"-a"});
        if (p(20)) kindArg({"-b", "--bb"});
        if (p(15)) op("defaults", {ps[0], plain(), plain()});
        do focusedParse(9, 20);
        while (p(30));
    }
    void histories() {
        size_t c = 3 + n(8);
        for (size_t i = 0; i < c; ++i) {
            switch (n(9)) {
                case 0: case 1: case 2: {
                    Strs f;
                    if (p(30)) f.push_back(posName());
                    else do f.push_back(p(5) ? oddFlag() : freshFlag());
                    while (p(50));
                    op("add", f);
                    for (auto& x : f) names.push_back(x);
                    break;
                }
                case 3: {
                    std::string f = p(10) ? oddFlag() : freshFlag();
                    op("flag", {known(), f});
                    names.push_back(f);
                    break;
                }
                case 4: {
                    Strs r;
                    do r.push_back(known());
                    while (p(50));
                    op("remove", r);
                    break;
                }
                case 5: op("action", {known(), std::to_string(p(60) ? 1 + n(2) : n(8))}); break;
                case 6: dest(known()); break;
                case 7: op("required", {known(), p(60) ? "1" : "0"}); break;
                default: if (p(25)) op("clear"), op("helpexc", {"1"}), op("verexc", {"1"});
                    else if (p(50)) op("nargs", {known(), std::to_string(n(4))});
                    else if (p(50)) valid(known());
                    else focusedParse(4, 50);
            }
        }
        op("usage");
        if (p(50)) focusedParse(4, 50);
    }
    void configs() {
        if (p(12)) {
            bigArg(p(25) ? Strs{"p"} : Strs{"-a"});
            return;
        }
        bool ps = p(35);
        Strs fl = ps ? Strs{"p"} : Strs{"-a"};
        op("add", fl);
        names.push_back(fl[0]);
        if (p(30)) kindArg({"-b"});
        size_t c = 1 + n(4);
        for (size_t i = 0; i < c; ++i) {
            size_t many = p(6) ? 5 + n(9) : 0;
            if (p(45)) op("action", {fl[0], std::to_string(n(8))});
            else if (p(70)) op("nargs", {fl[0], p(8) ? "43" : std::to_string(many ? many : n(4))});
            else {
                Strs d = {fl[0]};
                size_t k = many ? many * (1 + n(3)) : 1 + n(6);
                while (k--) d.push_back(plain());
                op("defaults", d);
            }
        }
        if (p(40)) op("usage");
        do focusedParse(5, 40);
        while (p(30));
    }
    void usages() {
        size_t c = 1 + n(6);
        for (size_t i = 0; i < c; ++i) {
            Strs f;
            if (p(30)) f = {posName() + std::string(n(3) == 0 ? n(70) : 0, 'n')};
            else {
                do f.push_back(p(20) ? "--" + std::string(1 + n(25), char('a' + n(26))) : freshFlag());
                while (p(30));
            }
            op("add", f);
            for (auto& x : f) names.push_back(x);
            if (p(30)) op("action", {f[0], std::to_string(n(8))});
            if (p(30)) op("nargs", {f[0], std::to_string(n(4))});
            if (p(20)) op("defaults", {f[0], value()});
            if (p(30)) op("required", {f[0], "1"});
            if (p(60)) op("help", {f[0], text(n(150))});
            if (p(15)) op("metavar", {f[0], value()});
        }
        if (p(40)) op("description", {text(n(250))});
        if (p(30)) op("epilog", {text(n(250))});
        if (p(30)) op("width", {std::to_string(n(5)), std::to_string(n(30)), std::to_string(n(4)), std::to_string(n(60))});
        if (p(50)) op("binary", {p(50) ? "prog" : p(50) ? "/usr/bin/prog" : p(50) ? "dir/" : text(n(60))});
        op("usage");
    }
    void delivery() {
        static const Strs nm = {"-a", "--bb", "p", "q"};
        size_t c = 1 + n(3);
        for (size_t i = 0; i < c; ++i) {
            if (nm[i][0] == '-') kindArg({nm[i]});
            else posArg(nm[i]);
            if (p(15)) op("defaults", {nm[i], value()});
            if (p(10)) op("required", {nm[i], "1"});
            if (p(50)) valid(nm[i]);
            if (p(70)) dest(nm[i]);
            if (p(10)) valid(nm[i]);
        }
        do {
            Strs w = {"prog"};
            for (size_t i = 0; i < c; ++i) {
                if (p(20)) continue;
                size_t k = p(60) ? 1 : n(5);
                if (nm[i][0] == '-') {
                    w.push_back(nm[i]);
                    if (p(15)) w.back() += "=" + value();
                }
                while (k--) w.push_back(value());
            }
            op("parse", w);
        } while (p(30));
    }
    // help and version given to, taken from and moved between a few options
    void roles() {
        static const Strs fl = {"-a", "-b", "--cc", "-h", "--help", "p"};
        size_t c = 2 + n(3), f = n(3);
        for (size_t i = 0; i < c; ++i) {
            std::string x = p(15) ? fl[3 + n(3)] : fl[(f + i) % 3];
            op("add", {x});
            names.push_back(x);
            if (p(50)) op("action", {x, std::to_string(1 + n(2))});
        }
        c = 1 + n(5);
        for (size_t i = 0; i < c; ++i) {
            switch (n(6)) {
                case 0: case 1: op("action", {known(), std::to_string(p(80) ? 1 + n(2) : n(8))}); break;
                case 2: case 3: op("remove", {known()}); break;
                case 4: {
                    std::string x = p(30) ? fl[3 + n(2)] : fl[n(3)];
                    op("add", {x});
                    names.push_back(x);
                    if (p(60)) op("action", {x, std::to_string(1 + n(2))});
                    break;
                }
                default: if (p(30)) op("clear"), op("helpexc", {"1"}), op("verexc", {"1"}); else op("dest", {known(), "string"});
            }
            if (p(35)) rolesParse();
        }
        if (p(40)) op("usage");
        rolesParse();
    }
    void rolesParse() {
        Strs w = {"prog"};
        size_t c = n(4);
        static const Strs fl = {"-a", "-b", "--cc", "-h", "--help"};
        for (size_t i = 0; i < c; ++i) w.push_back(p(80) ? fl[n(5)] : p(50) ? known() : "x");
        op("parse", w);
    }
    void direct() {
        Strs w;
        size_t k = n(21);
        while (k--) w.push_back(value());
        op("vector", w);
        for (int i = 0; i < 3; ++i) {
            static const Strs ks = {"number", "minmax", "choice", "path", "file", "dir"};
            static const Strs ps = {"/", ".", "/proc/self/cmdline", "", "/nonexistent/x", "x"};
            static const Strs nums = {"1", "2", "2.5", "3", "10", "-1", "1e1", "9.99", "11", "0", "5", "+4"};
            std::string kd = pick(ks);
            Strs a = {kd, "0"};
            size_t np = kd == "minmax" ? 2 : kd == "choice" ? n(4) : 0;
            a[1] = std::to_string(np);
            Strs pr;
            for (size_t j = 0; j < np; ++j) pr.push_back(kd == "minmax" ? pick(nums) : value());
            a.insert(a.end(), pr.begin(), pr.end());
            size_t na = n(4);
            for (size_t j = 0; j < na; ++j)
                a.push_back(kd == "minmax" || kd == "number" ? (p(85) ? pick(nums) : value()) : kd == "choice" ? (p(80) && np ? pick(pr) : value()) : pick(ps));
            op("check", a);
        }
    }
    Script script() {
        s.clear();
        names.clear();
        size_t mode = n(11);
        if (mode == 9 && p(80)) {
            direct();
            return s;
        }
        if (p(98)) op("helpexc", {"1"});
        if (p(98)) op("verexc", {"1"});
        switch (mode) {
            case 0: case 1: options(); return s;
            case 2: positionals(); return s;
            case 3: histories(); return s;
            case 4: configs(); return s;
            case 5: usages(); return s;
            case 6: delivery(); return s;
            case 10: roles(); return s;
            default: break;
        }
        if (p(30)) op("alt", {"1"});
        if (p(15)) op("strict", {"1"});
        if (p(5)) op("version", {value()});
        if (p(5)) op("binary", {value()});
        if (p(4)) op("description", {text(n(200))});
        if (p(4)) op("epilog", {text(n(200))});
        if (p(4)) op("width", {std::to_string(n(5)), std::to_string(n(30)), std::to_string(n(4)), std::to_string(n(60))});
        if (p(1)) op("setusage", {value()});
        size_t a = 1 + n(4);
        for (size_t i = 0; i < a; ++i) addArg();
        if (p(8)) op("usage");
        parse();
        while (p(35)) {
            switch (n(9)) {
                case 0: addArg(); break;
                case 1: {
                    Strs r;
                    do r.push_back(known());
                    while (p(50));
                    op("remove", r);
                    break;
                }
                case 2: if (p(30)) op("clear"), op("helpexc", {"1"}), op("verexc", {"1"}); break;
                case 3: if (!names.empty()) op("flag", {pick(names), freshFlag()}); break;
                case 4: if (!names.empty()) op("required", {pick(names), p(50) ? "1" : "0"}); break;
                case 5: op("usage"); break;
                case 6: if (!names.empty()) dest(pick(names)); break;
                case 7: if (!names.empty()) valid(pick(names)); break;
                default: break;
            }
            if (p(80)) parse();
        }
        return s;
    }
};

static std::string signature(const std::string& mismatch) {
    // what and the kind of observation, without names and values
    std::string r;
    size_t c = mismatch.find(" line ");
    r = mismatch.substr(0, c);
    size_t d = mismatch.find(": ", c == std::string::npos ? 0 : c);
    std::string x = d == std::string::npos ? "" : mismatch.substr(d + 2);
    size_t e = x.find_first_of(":(0123456789");
    x = x.substr(0, e);
    size_t f = x.find(" of ");
    if (f != std::string::npos) x = x.substr(0, f);
    return r + "|" + x;
}

struct Shared {
    volatile uint64_t index;
    volatile uint64_t done;
};

int main(int argc, char** argv) {
    if (argc >= 3 && !strcmp(argv[1], "--script")) {
        std::ifstream f(argv[2]);
        Script s = parseScript(f);
        rlimit lim = {20, 20};
        setrlimit(RLIMIT_CPU, &lim);
        std::vector<std::string> r = runScript(s);
        for (auto& x : r) {
            // one line per mismatch
            std::string y, z = signature(x);
            for (char c : x) y += c == '\n' ? std::string("\\n") : c == '\r' ? std::string("\\r") : std::string(1, c);
            for (char& c : z) c = c == '\n' || c == '\r' ? ' ' : c;
            std::cout << "MISMATCH " << y << " @@ " << z << "\n";
        }
        std::cout << "END\n";
        return r.empty() ? 0 : 1;
    }
    if (argc >= 6 && !strcmp(argv[1], "--search")) {
        // seed, seconds, out directory, worker number
        uint64_t seed = strtoull(argv[2], 0, 10);
        double secs = atof(argv[3]);
        std::string dir = argv[4], wk = argv[5];
        Shared* sh = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        sh->index = 0;
        sh->done = 0;
        auto t0 = std::chrono::steady_clock::now();
        auto left = [&] { return secs - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        std::map<std::string, int> sigs;
        size_t crashes = 0, saved = 0;
        uint64_t next = 0;
        auto save = [&](uint64_t i) {
            Gen g(seed * 1000003 + i);
            std::ofstream f(dir + "/" + wk + "_" + std::to_string(saved++) + ".script");
            f << text(g.script());
        };
        (void)save;
        while (left() > 0 && crashes < 12 && saved < 60) {
            int fd[2];
            if (pipe(fd)) return 2;
            pid_t p = fork();
            if (p == 0) {
                close(fd[0]);
                std::map<std::string, int> seen;
                size_t rep = 0;
                for (uint64_t i = next;; ++i) {
                    if ((i & 15) == 0 && left() <= 0) break;
                    sh->index = i;
                    itimerval tv = {{0, 0}, {8, 0}};
                    setitimer(ITIMER_PROF, &tv, 0);
                    Gen g(seed * 1000003 + i);
                    std::vector<std::string> r = runScript(g.script());
                    if (!r.empty() && ++seen[signature(r[0])] <= 6) {
                        dprintf(fd[1], "%llu\n", (unsigned long long)i);
                        if (++rep >= 60) break;
                    }
                    sh->done = sh->done + 1;
                }
                dprintf(fd[1], "end\n");
                _exit(0);
            }
            close(fd[1]);
            FILE* f = fdopen(fd[0], "r");
            char b[64];
            bool end = false;
            while (fgets(b, sizeof b, f)) {
                if (!strncmp(b, "end", 3)) end = true;
                else save(strtoull(b, 0, 10));
            }
            fclose(f);
            int st;
            waitpid(p, &st, 0);
            if (end) break;
            ++crashes;
            save(sh->index);
            next = sh->index + 1;
        }
        std::cout << "DONE " << sh->done << " crashes " << crashes << " saved " << saved << "\n";
        return 0;
    }
    return 2;
}
