// Model of the docopt library for the symbolic builds (the native builds link
// the real one): commands, positional arguments, --long[=value], -s options and
// their defaults, read from the usage text.
#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace docopt {
enum class Kind { Empty, Bool, Long, String, StringList };
struct value {
    Kind k; bool b; std::string s;
    value() : k(Kind::Empty), b(false) {}
    value(std::string v) : k(Kind::String), b(false), s(v) {}
    explicit value(bool v) : k(Kind::Bool), b(v) {}
    explicit operator bool() const { return k != Kind::Empty; }
    Kind kind() const { return k; }
    bool isBool() const { return k == Kind::Bool; }
    bool isString() const { return k == Kind::String; }
    bool isLong() const { return false; }
    bool asBool() const { if (k != Kind::Bool) throw std::runtime_error("Illegal cast to bool"); return b; }
    long asLong() const { if (k != Kind::String) throw std::runtime_error("Illegal cast to long"); std::size_t p; long r = std::stol(s, &p); if (p != s.size()) throw std::runtime_error("not a number"); return r; }
    const std::string &asString() const { if (k != Kind::String) throw std::runtime_error("Illegal cast to string"); return s; }
};
typedef std::map<std::string, value> Options;
namespace vp_ {
inline bool sp(char c) { return c == ' ' || c == '\n' || c == '\t'; }
struct Opt { std::string s, l; bool arg; };
}
inline Options docopt(const std::string &doc, const std::vector<std::string> &argv, bool = true, const std::string & = std::string(), bool = false) {
    using namespace vp_;
    Options r;
    std::vector<Opt> opts;
    // lines
    std::vector<std::string> ln;
    { std::string t; for (char c : doc) if (c == '\n') { ln.push_back(t); t.clear(); } else t.push_back(c); ln.push_back(t); }
    auto trim = [](const std::string &x) { std::size_t i = 0, j = x.size(); while (i < j && sp(x[i])) i++; while (j > i && sp(x[j - 1])) j--; return x.substr(i, j - i); };
    const std::string cmd = argv.empty() ? std::string() : argv[0];
    std::vector<std::string> pos; bool usage = false, mine = false, seen = false;
    for (std::size_t i = 0; i < ln.size(); i++) {
        std::string t = trim(ln[i]);
        if (t == "Usage:") { usage = true; continue; }
        if (usage && t.empty()) { usage = false; continue; }
        if (usage) {
            std::vector<std::string> w; std::string u;
            for (char c : t) if (sp(c)) { if (!u.empty()) w.push_back(u); u.clear(); } else u.push_back(c);
            if (!u.empty()) w.push_back(u);
            std::size_t j = 0;
            if (w.size() > 1 && w[0][0] >= 'a' && w[0][0] <= 'z') {      // a new pattern: program command ...
                j = 2; mine = w[1] == cmd;
                if (w[1][0] >= 'a' && w[1][0] <= 'z') r[w[1]] = value(w[1] == cmd);
                if (mine) seen = true;
            }
            for (; j < w.size(); j++) if (w[j][0] >= 'A' && w[j][0] <= 'Z') { r[w[j]]; if (mine) pos.push_back(w[j]); }
            continue;
        }
        if (t.empty() || t[0] != '-') continue;
        Opt o; o.arg = false;
        std::size_t e = t.find("  ");
        std::string head = e == std::string::npos ? t : t.substr(0, e), rest = t;
        for (std::size_t j = i + 1; j < ln.size(); j++) { std::string n = trim(ln[j]); if (n.empty() || n[0] == '-' || n[n.size() - 1] == ':') break; rest += " " + n; }
        std::string u;
        auto take = [&](const std::string &x) {
            std::size_t q = x.find('=');
            if (x.size() > 2 && x[0] == '-' && x[1] == '-') { o.l = x.substr(0, q); if (q != std::string::npos) o.arg = true; }
            else if (x.size() == 2 && x[0] == '-') o.s = x;
        };
        for (char c : head) if (sp(c) || c == ',') { if (!u.empty()) take(u); u.clear(); } else u.push_back(c);
        if (!u.empty()) take(u);
        const std::string key = o.l.empty() ? o.s : o.l;
        std::size_t q = rest.find("[default: ");
        if (!o.arg) r[key] = value(false);
        else if (q == std::string::npos) r[key];
        else r[key] = value(rest.substr(q + 10, rest.find(']', q) - q - 10));
        opts.push_back(o);
    }
    if (!seen) throw std::runtime_error("usage");
    std::size_t np = 0;
    for (std::size_t i = 1; i < argv.size(); i++) {
        const std::string &x = argv[i];
        if (x.size() > 1 && x[0] == '-') {
            std::size_t q = x.find('=');
            const std::string name = x.substr(0, q);
            const Opt *o = 0;
            for (const Opt &p : opts) if (p.l == name || p.s == name) o = &p;
            if (!o) throw std::runtime_error("unknown option");
            const std::string key = o->l.empty() ? o->s : o->l;
            if (!o->arg) r[key] = value(true);
            else if (q != std::string::npos) r[key] = value(x.substr(q + 1));
            else r[key] = value(std::string(argv[++i]));
        } else {
            if (np >= pos.size()) throw std::runtime_error("too many arguments");
            r[pos[np++]] = value(std::string(x));
        }
    }
    if (np != pos.size()) throw std::runtime_error("missing arguments");
    return r;
}
}
