// Reference model of the argument registry and of the parser, written from the
// properties (properties.jsonl), not from the code. It is the oracle of the
// search for a failing input: it decides nothing when the proofs go through.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include <algorithm>
#include <cstdlib>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace model {

typedef std::vector<std::string> Strs;

enum Action { NONE, HELP, VERSION, STORE_TRUE, STORE_FALSE, APPEND, EXTEND, INFINITE };
enum Kind { K_HELP, K_VERSION, K_BOOL, K_NOBOOL, K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_MULTI_INF, K_MULTI_NUMBER,
            K_MULTI_NUMBER_INF, K_POS, K_POS_NUMBER, K_POS_INF, K_POS_NUMBER_INF };

// an exception the library must throw
struct Throw {
    std::string type;  // Argument, AccessDenied, Parse, Required, Valid, Help, Version, Std
    std::string arg;
    std::string what;  // compared for Help and Version only
};
struct Unspecified {};  // the properties say nothing: stop comparing
struct Exit {
    std::string out;
};

struct Elem {
    std::string arg, def;
    std::vector<Elem> kids;
    bool isnum = false;
    double num = 0.0;
};

inline bool isShort(const std::string& w) { return w.size() >= 2 && w[0] == '-' && w[1] != '-'; }
inline bool isLong(const std::string& w) { return w.size() >= 3 && w[0] == '-' && w[1] == '-'; }
inline bool flagLess(const std::string& a, const std::string& b) {
    bool sa = isShort(a), sb = isShort(b);
    return sa != sb ? sa : a < b;
}

struct Validator {
    std::string kind;  // accept reject throw upper shrink grow std number minmax choice path file dir
    Strs params;
    bool deletable = true;
    int id = 0;
};

struct Arg : Elem {
    Strs names;
    bool positional = false;
    Kind kind = K_SIMPLE;
    size_t nargs = 1;
    Action action = NONE;
    bool required = false, exist = false;
    size_t count = 0;
    std::string help, metavar;
    Strs defaults;
    std::shared_ptr<Validator> valid;
    std::string dest;  // kind of destination, "" if none
    int destId = -1;

    bool list() const {
        return kind == K_NUMBER || kind == K_INF || kind == K_MULTI || kind == K_MULTI_INF || kind == K_POS_NUMBER || kind == K_POS_INF;
    }
    bool grouped() const { return kind == K_MULTI_NUMBER || kind == K_MULTI_NUMBER_INF || kind == K_POS_NUMBER_INF; }
    bool scalar() const { return kind == K_SIMPLE || kind == K_POS; }
    bool boolean() const { return kind == K_BOOL || kind == K_NOBOOL; }

    std::string str() const {
        if (kind == K_BOOL) return exist ? "true" : "false";
        if (kind == K_NOBOOL) return exist ? "false" : "true";
        if (kids.empty()) return arg;
        std::string r;
        for (size_t i = 0; i < kids.size(); ++i) {
            if (i) r += ", ";
            if (kids[i].kids.empty()) {
                r += kids[i].arg;
            } else {
                r += "(";
                for (size_t j = 0; j < kids[i].kids.size(); ++j) r += (j ? ", " : "") + kids[i].kids[j].arg;
                r += ")";
            }
        }
        return r;
    }
    bool toStrs(Strs& r) const {
        r.clear();
        if (scalar()) {
            r.push_back(arg);
        } else if (list()) {
            for (auto& k : kids) r.push_back(k.arg);
        } else if (grouped()) {
            for (auto& g : kids)
                for (auto& k : g.kids) r.push_back(k.arg);
        } else {
            return false;
        }
        return true;
    }
    bool toGroups(std::vector<Strs>& r) const {
        r.clear();
        if (!grouped()) return false;
        for (auto& g : kids) {
            r.push_back(Strs());
            for (auto& k : g.kids) r.back().push_back(k.arg);
        }
        return true;
    }
};
typedef std::shared_ptr<Arg> PArg;

// what a destination received
struct Delivery {
    int destId = -1;
    std::string kind;
    bool exist = false;
    bool boolean = false, boolValue = false;
    std::string scalar;           // value as a string
    std::vector<Strs> rows;       // one row per value; a group is one row
    std::vector<bool> isGroup;
    bool empty = true;            // no list of values
};
struct Call {
    int id;
    Strs args;
};

struct Registry {
    std::list<PArg> args;
    std::string binary, version, description, epilog, usage;
    bool strict = false, alternative = false, helpExc = false, versionExc = false;
    size_t pad = 2, argsW = 20, sep = 2, helpW = 56;
    PArg help, vers;
    Strs additional;
    std::vector<Delivery> deliveries;
    std::vector<Call> calls;

    PArg find(const std::string& name) const {
        for (auto& a : args)
            if (std::find(a->names.begin(), a->names.end(), name) != a->names.end()) return a;
        return PArg();
    }
    static bool before(const PArg& a, const PArg& b) {
        if (a->positional != b->positional) return b->positional;
        if (a->positional) return a->required && !b->required;
        bool sa = isShort(a->names[0]), sb = isShort(b->names[0]);
        if (a->required != b->required) return a->required;
        if (sa != sb) return sa;
        return a->names[0] < b->names[0];
    }
    void sort() { args.sort(before); }

    static void checkFlag(const std::string& f) {
        bool ok = f.size() >= 2 && f[0] == '-';
        if (ok) ok = f[1] == '-' ? f.size() > 2 : f.size() == 2;
        if (!ok) throw Throw{"Argument", f, ""};
    }
    PArg add(const Strs& names) {
        if (names.empty()) throw Throw{"Argument", "", ""};
        PArg a(new Arg);
        if (names.size() == 1 && (names[0].empty() || names[0][0] != '-')) {
            if (names[0].empty()) throw Throw{"Argument", "", ""};
            if (find(names[0])) throw Throw{"Argument", names[0], ""};
            a->positional = true;
            a->kind = K_POS;
            a->names = names;
        } else {
            for (auto& f : names) {
                checkFlag(f);
                if (find(f)) throw Throw{"Argument", f, ""};
                if (std::find(a->names.begin(), a->names.end(), f) == a->names.end()) a->names.push_back(f);
            }
            std::sort(a->names.begin(), a->names.end(), flagLess);
        }
        args.push_back(a);
        sort();
        return a;
    }
    void flag(PArg a, const std::string& f) {
        if (a->positional) throw Throw{"Argument", f, ""};
        checkFlag(f);
        if (find(f)) throw Throw{"Argument", f, ""};
        a->names.push_back(f);
        std::sort(a->names.begin(), a->names.end(), flagLess);
        sort();
    }
    void remove(const Strs& names) {
        if (names.empty()) throw Throw{"Argument", "", ""};
        for (auto& n : names)
            if (!find(n)) throw Throw{"Argument", n, ""};
        for (auto& n : names) {
            PArg a = find(n);
            if (!a) continue;  // listed twice
            a->names.erase(std::find(a->names.begin(), a->names.end(), n));
            if (a->names.empty()) {
                args.remove(a);
                if (a == help) help.reset();
                if (a == vers) vers.reset();
            }
        }
        sort();
    }
    void clear() {
        *this = Registry(deliveries, calls);
    }
    Registry() {}
    Registry(const std::vector<Delivery>& d, const std::vector<Call>& c) : deliveries(d), calls(c) {}

    // kind of argument; false: refused
    static bool kindOf(bool positional, size_t& n, Action& act, Kind& k) {
        if (positional) {
            if (act == NONE && n == 1) k = K_POS;
            else if ((act == NONE && n == '+') || (act == INFINITE && n == 1)) k = K_POS_INF, n = 1, act = INFINITE;
            else if (act == NONE && n > 1) k = K_POS_NUMBER;
            else if (act == INFINITE && n > 1) k = K_POS_NUMBER_INF;
            else return false;
            return true;
        }
        switch (act) {
            case STORE_TRUE: n = 0; k = K_BOOL; return true;
            case STORE_FALSE: n = 0; k = K_NOBOOL; return true;
            case HELP: n = 0; k = K_HELP; return true;
            case VERSION: n = 0; k = K_VERSION; return true;
            default: break;
        }
        if (n == 0) k = K_BOOL;
        else if (act == INFINITE || (act == NONE && n == '+')) k = K_INF, n = 1, act = INFINITE;
        else if (act == NONE) k = n == 1 ? K_SIMPLE : K_NUMBER;
        else if (act == APPEND) k = n == 1 ? K_MULTI : K_MULTI_NUMBER;
        else k = n == 1 ? K_MULTI_INF : K_MULTI_NUMBER_INF;
        return true;
    }
    void configure(PArg a, size_t n, Action act) {
        if (act == HELP && help && help != a) throw Throw{"Argument", a->names[0], ""};
        if (act == VERSION && vers && vers != a) throw Throw{"Argument", a->names[0], ""};
        Kind k = a->kind;
        if (!kindOf(a->positional, n, act, k)) throw Throw{"Argument", a->names[0], ""};
        if (help == a && act != HELP) help.reset();
        if (vers == a && act != VERSION) vers.reset();
        if (act == HELP) help = a;
        if (act == VERSION) vers = a;
        a->nargs = n;
        a->action = act;
        a->kind = k;
        applyDefaults(a);
    }
    static Elem def(const std::string& d) {
        Elem e;
        e.arg = e.def = d;
        return e;
    }
    static std::string join(const Strs& v, size_t a, size_t b) {
        std::string r;
        for (size_t i = a; i < b; ++i) r += (i > a ? ", " : "") + v[i];
        return r;
    }
    void applyDefaults(PArg a) {
        const Strs& d = a->defaults;
        if (a->nargs == 0 || d.empty()) return;
        bool bad = (a->grouped() ? d.size() % a->nargs != 0
                    : a->scalar() || a->kind == K_NUMBER || a->kind == K_POS_NUMBER ? d.size() != a->nargs : false);
        if (bad) throw Throw{"Argument", a->names[0], "defaults"};
        a->kids.clear();
        if (a->scalar()) {
            a->arg = a->Elem::def = d[0];
        } else if (a->list()) {
            a->Elem::def = join(d, 0, d.size());
            for (auto& x : d) a->kids.push_back(def(x));
        } else if (a->grouped()) {
            a->Elem::def = "";
            for (size_t i = 0; i < d.size(); i += a->nargs) {
                Elem g;
                g.def = join(d, i, i + a->nargs);
                for (size_t j = 0; j < a->nargs; ++j) g.kids.push_back(def(d[i + j]));
                a->Elem::def += (i ? ", (" : "(") + g.def + ")";
                a->kids.push_back(g);
            }
        }
    }
    void setDefaults(PArg a, const Strs& d) {
        a->defaults = d;
        applyDefaults(a);
    }
    static void reset(Elem& e) {
        e.arg = e.def;
        e.isnum = false;
        e.num = 0.0;
    }
    void resetArg(PArg a) {
        a->kids.clear();
        applyDefaults(a);
        reset(*a);
        a->count = 0;
        a->exist = false;
        for (auto& g : a->kids) {
            reset(g);
            for (auto& k : g.kids) reset(k);
        }
    }

    // ---- parsing -------------------------------------------------------
    static bool split(const std::string& w, std::string& name, std::string& value) {
        size_t p = w.find('=');
        name = w.substr(0, p);
        if (p == std::string::npos) return false;
        value = w.substr(p + 1);
        return true;
    }
    static bool takesValue(Kind k) {
        return k == K_SIMPLE || k == K_NUMBER || k == K_INF || k == K_MULTI || k == K_MULTI_INF || k == K_MULTI_NUMBER;
    }
    // does the word start an option
    bool stops(const std::string& w) const {
        std::string name, value;
        if (isLong(w)) {
            split(w, name, value);
            return bool(find(name));
        }
        if (!isShort(w)) return false;
        bool has = split(w, name, value);
        if (alternative && find("-" + name)) return true;
        for (size_t i = 1; i + 1 < name.size(); ++i) {
            PArg a = find(std::string("-") + name[i]);
            if (!a) return false;
            if ((!has && takesValue(a->kind)) || a->boolean()) return true;
        }
        return bool(find(std::string("-") + name[name.size() - 1]));
    }
    static Elem val(const std::string& v) {
        Elem e;
        e.arg = v;
        return e;
    }
    static Throw bad(const std::string& n) { return Throw{"Parse", n, ""}; }
    // occurrence of option a at word i; returns the last word used
    size_t option(PArg a, bool has, const std::string& joined, const std::string& shown, const Strs& w, size_t i, size_t end) {
        bool multi = a->kind == K_MULTI || a->kind == K_MULTI_INF || a->kind == K_MULTI_NUMBER || a->kind == K_MULTI_NUMBER_INF;
        bool fresh = !multi || !a->exist;
        std::vector<Elem> kids = fresh ? std::vector<Elem>() : a->kids;
        if (has) {
            if (a->kind == K_SIMPLE) a->arg = joined;
            else if (a->kind == K_INF || a->kind == K_MULTI || a->kind == K_MULTI_INF) {
                kids.push_back(val(joined));
                a->kids = kids;
            } else throw bad(shown);
        } else {
            switch (a->kind) {
                case K_SIMPLE:
                    if (i + 1 >= end) throw bad(shown);
                    a->arg = w[++i];
                    break;
                case K_MULTI:
                    if (i + 1 >= end) throw bad(shown);
                    kids.push_back(val(w[++i]));
                    a->kids = kids;
                    break;
                case K_NUMBER:
                case K_MULTI_NUMBER: {
                    if (a->nargs >= end - i) throw bad(shown);
                    Elem g;
                    for (size_t j = 0; j < a->nargs; ++j) g.kids.push_back(val(w[++i]));
                    if (a->kind == K_NUMBER) kids = g.kids;
                    else kids.push_back(g);
                    a->kids = kids;
                    break;
                }
                case K_INF:
                case K_MULTI_INF:
                    while (i + 1 < end && !stops(w[i + 1])) kids.push_back(val(w[++i]));
                    a->kids = kids;
                    break;
                case K_MULTI_NUMBER_INF:
                    while (i + 1 < end && !stops(w[i + 1])) {
                        if (a->nargs >= end - i) throw bad(shown);
                        Elem g;
                        for (size_t j = 0; j < a->nargs; ++j) g.kids.push_back(val(w[++i]));
                        kids.push_back(g);
                    }
                    a->kids = kids;
                    break;
                default: break;
            }
        }
        if (a->list() || a->grouped()) a->arg.clear();
        a->exist = true;
        ++a->count;
        return i;
    }
    size_t shortOption(const Strs& w, size_t i, size_t end) {
        std::string name, value;
        bool has = split(w[i], name, value);
        if (alternative) {
            PArg a = find("-" + name);
            if (a) return option(a, has, value, name.substr(1), w, i, end);
        }
        if (name.size() == 1) throw bad("-");  // "-=value" names no option
        for (size_t p = 1;; ++p) {
            std::string c(1, name[p]);
            PArg a = find("-" + c);
            if (!a) throw bad(c);
            if (p + 1 == name.size()) return option(a, has, value, c, w, i, end);
            if (a->boolean()) {
                a->exist = true;
                ++a->count;
            } else if (!has && takesValue(a->kind)) {
                return option(a, true, name.substr(p + 1), c, w, i, end);
            } else throw bad(c);
        }
    }
    size_t longOption(const Strs& w, size_t i, size_t end) {
        std::string name, value;
        bool has = split(w[i], name, value);
        PArg a = find(name);
        if (!a) throw bad(name.substr(2));
        return option(a, has, value, name.substr(2), w, i, end);
    }
    size_t positional(const Strs& w, size_t i, size_t end, bool behindEnd) {
        PArg a;
        for (auto& x : args)
            if (x->positional && !x->exist) {
                a = x;
                break;
            }
        if (!a) {
            if (strict) throw bad(w[i]);
            additional.push_back(w[i]);
            return i;
        }
        auto stop = [&](size_t k) { return !behindEnd && stops(w[k]); };
        std::vector<Elem> kids;
        if (a->kind == K_POS) {
            a->arg = w[i];
            ++i;
        } else if (a->kind == K_POS_NUMBER) {
            if (end - i < a->nargs) throw bad(a->names[0]);
            for (size_t j = 0; j < a->nargs; ++j) kids.push_back(val(w[i++]));
            a->kids = kids;
        } else if (a->kind == K_POS_INF) {
            while (i < end && !stop(i)) kids.push_back(val(w[i++]));
            a->kids = kids;
        } else {
            while (i < end && !stop(i)) {
                if (end - i < a->nargs) throw bad(a->names[0]);
                Elem g;
                for (size_t j = 0; j < a->nargs; ++j) g.kids.push_back(val(w[i++]));
                kids.push_back(g);
            }
            a->kids = kids;
        }
        a->exist = true;
        return i - 1;
    }
    static void number(Elem& e) {
        std::stringstream ss(e.arg);
        e.isnum = bool(ss >> e.num);
    }
    static void number(PArg a) {
        if (a->boolean()) return;
        if (a->kids.empty()) number(static_cast<Elem&>(*a));
        for (auto& g : a->kids) {
            if (g.kids.empty()) number(g);
            for (auto& k : g.kids) number(k);
        }
    }
    void deliver(PArg a) {
        if (a->dest.empty()) return;
        Delivery d;
        d.destId = a->destId;
        d.kind = a->dest;
        d.exist = a->exist;
        d.boolean = a->boolean();
        d.boolValue = a->kind == K_NOBOOL ? !a->exist : a->exist;
        d.scalar = a->arg;
        d.empty = a->kids.empty() && !a->list() && !a->grouped();
        for (auto& g : a->kids) {
            Strs r;
            if (g.kids.empty()) r.push_back(g.arg);
            for (auto& k : g.kids) r.push_back(k.arg);
            d.rows.push_back(r);
            d.isGroup.push_back(!g.kids.empty());
        }
        deliveries.push_back(d);
    }
    // verdict of a validator: true accepted; false refused (ParseArgumentValidException)
    static bool verdict(const Validator& v, Strs& a) {
        if (v.kind == "reject") return false;
        if (v.kind == "throw") return false;
        if (v.kind == "std") throw Throw{"Std", "", ""};
        if (v.kind == "upper") {
            for (auto& s : a) s = "<" + s + ">";
        } else if (v.kind == "shrink") {
            if (!a.empty()) a.pop_back();
            for (auto& s : a) s = "<" + s + ">";
            Strs(a).swap(a);  // nothing reserved behind the end
        } else if (v.kind == "half") {
            a.resize(a.size() / 2);
            for (auto& s : a) s = "<" + s + ">";
            Strs(a).swap(a);
        } else if (v.kind == "grow") {
            for (auto& s : a) s = "<" + s + ">";
            a.push_back("more");
        } else if (v.kind == "number") {
            for (auto& s : a) {
                char* e;
                strtod(s.c_str(), &e);
                if (e == s.c_str() || *e) return false;
            }
        } else if (v.kind == "minmax") {
            double lo = atof(v.params[0].c_str()), hi = atof(v.params[1].c_str());
            if (lo > hi) std::swap(lo, hi);
            for (auto& s : a) {
                std::stringstream ss(s);
                double d;
                if (!(ss >> d) || d < lo || d > hi) return false;
            }
        } else if (v.kind == "choice") {
            for (auto& s : a)
                if (std::find(v.params.begin(), v.params.end(), s) == v.params.end()) return false;
        } else if (v.kind == "path" || v.kind == "file" || v.kind == "dir") {
            // only "/" and "/etc/passwd"-like words given by the generator
            for (auto& s : a) {
                bool dir = s == "/" || s == ".", file = s == "/proc/self/cmdline";
                if (!dir && !file) return false;
                if (v.kind == "file" && !file) return false;
                if (v.kind == "dir" && !dir) return false;
            }
        }
        return true;
    }
    static bool builtin(const std::string& k) {
        return k == "number" || k == "minmax" || k == "choice" || k == "path" || k == "file" || k == "dir";
    }
    void parse(const Strs& w) {
        for (auto& a : args) resetArg(a);
        additional.clear();
        if (!help) {
            Strs f;
            if (!find("-h")) f.push_back("-h");
            if (!find("--help")) f.push_back("--help");
            if (f.empty()) throw Unspecified();
            PArg a = add(f);
            configure(a, 0, HELP);
            a->help = "show this help message and exit";
        }
        if (binary.empty()) binary = w[0];
        size_t end = 1;
        while (end < w.size() && w[end] != "--") ++end;
        for (size_t i = 1; i < end; ++i) {
            if (isShort(w[i])) i = shortOption(w, i, end);
            else if (isLong(w[i])) i = longOption(w, i, end);
            else i = positional(w, i, end, false);
        }
        for (size_t i = end + 1; i < w.size(); ++i) i = positional(w, i, w.size(), true);
        if (help && help->exist) {
            if (helpExc) throw Throw{"Help", "", getUsage()};
            throw Exit{getUsage() + "\n"};
        }
        if (vers && vers->exist) {
            if (versionExc) throw Throw{"Version", "", version};
            throw Exit{version + "\n"};
        }
        for (auto& a : args)
            if (a->required && !a->exist) throw Throw{"Required", a->names[0], a->positional ? "argument is required" : "option is required"};
        for (auto& a : args) {
            if (a->exist && a->valid) {
                Strs v;
                a->toStrs(v);
                if (!builtin(a->valid->kind)) calls.push_back(Call{a->valid->id, v});
                if (!verdict(*a->valid, v)) throw Throw{"Valid", a->names[0], ""};
                if (a->scalar()) {
                    if (!v.empty()) a->arg = v[0];
                } else if (a->list()) {
                    for (size_t i = 0; i < v.size() && i < a->kids.size(); ++i) a->kids[i].arg = v[i];
                } else if (a->grouped()) {
                    size_t i = 0;
                    for (auto& g : a->kids)
                        for (auto& k : g.kids)
                            if (i < v.size()) k.arg = v[i++];
                } else {
                    throw Throw{"Valid", a->names[0], ""};
                }
            }
            number(a);
            deliver(a);
        }
    }

    // ---- usage ---------------------------------------------------------
    static Strs wrap(const std::string& text, size_t width) {
        Strs r;
        std::istringstream is(text);
        std::string line;
        while (std::getline(is, line)) {
            for (;;) {
                size_t sp = std::string::npos;
                if (line.size() >= width)
                    for (size_t i = 0; i < line.size() && i <= width; ++i)
                        if (line[i] == ' ') sp = i;
                if (sp == std::string::npos && line.size() >= width)  // a longer word: the line goes on behind it
                    sp = line.find(' ');
                if (sp == std::string::npos) break;
                r.push_back(line.substr(0, sp));
                size_t nx = line.find_first_not_of(' ', sp);
                line = nx == std::string::npos ? "" : line.substr(nx);
            }
            r.push_back(line);
        }
        return r;
    }
    static std::string defaultMetavar(const PArg& a) {
        std::string f;
        for (auto& n : a->names)
            if (isLong(n)) {
                f = n.substr(2);
                break;
            }
        if (f.empty()) f = a->names[0].substr(1);
        for (auto& c : f)
            if (c >= 'a' && c <= 'z') c = char(c - 'a' + 'A');
        if (a->action == INFINITE || a->nargs == '+') return f + "...";
        std::string r = f;
        for (size_t i = 1; i < a->nargs; ++i) r += " " + f;
        return r;
    }
    static std::string valueName(const PArg& a) {
        if (a->boolean() || a->kind == K_HELP || a->kind == K_VERSION) return "";
        return " " + (a->metavar.empty() ? defaultMetavar(a) : a->metavar);
    }
    static std::string repeat(const std::string& s, size_t n) {
        std::string r;
        for (size_t i = 0; i < n; ++i) r += (i ? " " : "") + s;
        return r;
    }
    std::string getUsage() const {
        if (!usage.empty()) return usage;
        size_t p = binary.rfind('/');
        std::string out = "usage: " + (p == std::string::npos ? binary : binary.substr(p + 1));
        const size_t margin = out.size(), width = pad + argsW + sep + helpW;
        size_t col = margin;
        bool multi = false, opts = false, poss = false;
        auto put = [&](const std::string& item) {
            if (col + item.size() >= width) {
                multi = true;
                out += "\n" + std::string(margin + 1, ' ') + item;
                col = margin + item.size() + 1;
            } else {
                out += " " + item;
                col += item.size() + 1;
            }
        };
        auto bracket = [](const PArg& a, const std::string& s) { return a->required ? s : "[" + s + "]"; };
        for (auto& a : args) {
            if (a->positional) {
                poss = true;
                continue;
            }
            opts = true;
            put(bracket(a, a->names[0] + valueName(a)));
        }
        if (opts && poss) {
            if (multi || col + 3 >= width) {
                out += "\n" + std::string(margin + 1, ' ') + "--\n" + std::string(margin, ' ');
                col = margin;
            } else {
                out += " --";
                col += 3;
            }
        }
        for (auto& a : args) {
            if (!a->positional) continue;
            const std::string& n = a->names[0];
            std::string s = a->kind == K_POS ? n : a->kind == K_POS_NUMBER ? repeat(n, a->nargs)
                : a->kind == K_POS_INF ? n + " {" + n + "}..." : "{" + repeat(n, a->nargs) + "}...";
            put(bracket(a, s));
        }
        auto block = [&](const std::string& text) {
            if (text.empty()) return;
            out += "\n";
            for (auto& l : wrap(text, width)) out += "\n" + l;
        };
        block(description);
        auto section = [&](bool pos) {
            out += pos ? "\n\npositional arguments:\n" : "\n\noptional arguments:\n";
            bool first = true;
            for (auto& a : args) {
                if (a->positional != pos) continue;
                if (!first) out += "\n";
                first = false;
                std::string s = pos ? a->names[0] : join(a->names, 0, a->names.size()) + valueName(a);
                out += std::string(pad, ' ') + s;
                if (s.size() <= argsW) out += std::string(argsW + sep - s.size(), ' ');
                else out += "\n" + std::string(pad + argsW + sep, ' ');
                std::string h = a->help;
                if (a->required) h += " (required)";
                else if (!a->Elem::def.empty()) h += " (default: " + a->Elem::def + ")";
                bool f = true;
                for (auto& l : wrap(h, helpW)) {
                    if (!f) out += "\n" + std::string(pad + argsW + sep, ' ');
                    f = false;
                    out += l;
                }
            }
        };
        if (poss) section(true);
        if (opts) section(false);
        block(epilog);
        return out;
    }
};

}  // namespace model
#endif
