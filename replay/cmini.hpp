// A small interpreter of the C subset the library generates (typed: int / long double).  Independent of the library.
#pragma once
#include <cctype>
#include <cmath>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace cm {
struct Err : std::runtime_error { using std::runtime_error::runtime_error; };
struct Unstable : std::runtime_error { using std::runtime_error::runtime_error; };
struct Val { bool d = false; long double f = 0; long long i = 0; bool u = false;
    long double num() const { return d ? f : (long double) i; }
    static Val D(long double x) { Val v; v.d = true; v.f = x; return v; }
    static Val In(long long x, bool u = false) { Val v; v.i = x; v.u = u; return v; } };
struct Tok { char k; std::string s; };   // k: d double, i int, n name, s string, o operator
inline std::vector<Tok> lex(const std::string& t) {
    std::vector<Tok> r;
    size_t p = 0;
    while (p < t.size()) {
        char c = t[p];
        if (isspace((unsigned char) c)) { p++; continue; }
        if (c == '/' && p + 1 < t.size() && t[p + 1] == '/') { while (p < t.size() && t[p] != '\n') p++; continue; }
        if (c == '/' && p + 1 < t.size() && t[p + 1] == '*') { p = t.find("*/", p + 2); if (p == std::string::npos) throw Err("comment"); p += 2; continue; }
        if (c == '#') { while (p < t.size() && t[p] != '\n') p++; continue; }
        if (isdigit((unsigned char) c) || (c == '.' && p + 1 < t.size() && isdigit((unsigned char) t[p + 1]))) {
            size_t b = p; bool d = false;
            while (p < t.size() && isdigit((unsigned char) t[p])) p++;
            if (p < t.size() && t[p] == '.') { d = true; p++; while (p < t.size() && isdigit((unsigned char) t[p])) p++; }
            if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { d = true; p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (p >= t.size() || !isdigit((unsigned char) t[p])) throw Err("malformed number"); while (p < t.size() && isdigit((unsigned char) t[p])) p++; }
            std::string s = t.substr(b, p - b);
            if (!d) while (p < t.size() && (t[p] == 'u' || t[p] == 'l' || t[p] == 'U' || t[p] == 'L')) p++;
            if (p < t.size() && (isalnum((unsigned char) t[p]) || t[p] == '_' || t[p] == '.')) throw Err("malformed number " + t.substr(b, p - b + 1));
            if (!d && s.size() > 1 && s[0] == '0') throw Err("octal constant " + s);
            r.push_back({d ? 'd' : 'i', s});
            continue;
        }
        if (isalpha((unsigned char) c) || c == '_') { size_t b = p; while (p < t.size() && (isalnum((unsigned char) t[p]) || t[p] == '_')) p++; r.push_back({'n', t.substr(b, p - b)}); continue; }
        if (c == '"') {
            std::string s; p++;
            for (;;) {
                if (p >= t.size() || t[p] == '\n') throw Err("unterminated string");
                if (t[p] == '"') { p++; break; }
                if (t[p] == '\\') { p++; if (p >= t.size()) throw Err("string"); char e = t[p++]; if (e == 'n') s += '\n'; else if (e == 't') s += '\t'; else if (e == '"' || e == '\\') s += e; else throw Err(std::string("unknown escape \\") + e); continue; }
                s += t[p++];
            }
            r.push_back({'s', s});
            continue;
        }
        static const char* ops[] = {"++", "--", "->", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%="};
        bool ok = false;
        for (auto o : ops) if (t.compare(p, 2, o) == 0) { r.push_back({'o', o}); p += 2; ok = true; break; }
        if (ok) continue;
        if (!strchr("+-*/%<>=!?:;,(){}[]&.", c)) throw Err(std::string("character ") + c);
        r.push_back({'o', std::string(1, c)});
        p++;
    }
    return r;
}
struct Env {
    std::map<std::string, std::map<long long, Val>> arr;     // arrays of doubles / integers; scalars at index 0
    std::map<std::string, bool> isint;
    std::map<std::string, std::vector<long long>> tables;    // static tables
    std::string printed;
    long steps = 0;
    bool ext = false;                                        // reading an unset element is an error
};
class Run {
    std::vector<Tok> t; Env& e; size_t p = 0; bool live = true;
    bool is(const char* s) const { return p < t.size() && (t[p].k == 'o' || t[p].k == 'n') && t[p].s == s; }
    bool eat(const char* s) { if (is(s)) { p++; return true; } return false; }
    void want(const char* s) { if (!eat(s)) throw Err(std::string("expected ") + s + " found " + (p < t.size() ? t[p].s : "end")); }
    static void near(long double a, long double b) { long double d = fabsl(a - b); if (d != 0 && d < 1e-12L * (1 + fabsl(a) + fabsl(b))) throw Unstable("comparison"); }
    static Val cmp(const std::string& o, Val a, Val b) {
        bool r;
        if (a.d || b.d) { long double x = a.num(), y = b.num(); near(x, y); r = o == "<" ? x < y : o == ">" ? x > y : o == "<=" ? x <= y : o == ">=" ? x >= y : o == "==" ? x == y : x != y; }
        else if (a.u || b.u) { unsigned long long x = a.i, y = b.i; r = o == "<" ? x < y : o == ">" ? x > y : o == "<=" ? x <= y : o == ">=" ? x >= y : o == "==" ? x == y : x != y; }
        else { long long x = a.i, y = b.i; r = o == "<" ? x < y : o == ">" ? x > y : o == "<=" ? x <= y : o == ">=" ? x >= y : o == "==" ? x == y : x != y; }
        return Val::In(r);
    }
    Val arith(const std::string& o, Val a, Val b) {
        if (a.d || b.d) {
            long double x = a.num(), y = b.num();
            if (o == "%") throw Err("% of a floating-point value");
            return Val::D(o == "+" ? x + y : o == "-" ? x - y : o == "*" ? x * y : x / y);
        }
        bool u = a.u || b.u;
        if (o == "+") return Val::In(a.i + b.i, u);
        if (o == "-") return Val::In(a.i - b.i, u);
        if (o == "*") return Val::In(a.i * b.i, u);
        if (!live) return Val::In(0, u);
        if (b.i == 0) throw Err("integer division by zero");
        if (u) return Val::In(o == "/" ? (unsigned long long) a.i / (unsigned long long) b.i : (unsigned long long) a.i % (unsigned long long) b.i, true);
        return Val::In(o == "/" ? a.i / b.i : a.i % b.i);
    }
public:
    Run(const std::string& text, Env& env) : t(lex(text)), e(env) {}
    Val expr() {
        Val c = bin(0);
        if (eat("?")) {
            bool l = live; bool v = c.num() != 0;
            live = l && v; Val a = expr();
            want(":");
            live = l && !v; Val b = expr();
            live = l;
            Val r = v ? a : b;
            if (a.d || b.d) return Val::D(r.num());
            return r;
        }
        return c;
    }
    Val bin(int lv) {
        static const std::vector<std::vector<std::string>> B = {{"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"+", "-"}, {"*", "/", "%"}};
        if (lv == 6) return un();
        Val a = bin(lv + 1);
        for (;;) {
            bool f = false;
            for (auto& o : B[lv]) if (p < t.size() && t[p].k == 'o' && t[p].s == o) {
                p++; f = true;
                if (lv < 2) { bool l = live; bool x = a.num() != 0; live = l && (lv == 0 ? !x : x); Val b = bin(lv + 1); live = l; a = Val::In(lv == 0 ? (x || b.num() != 0) : (x && b.num() != 0)); }
                else { Val b = bin(lv + 1); a = lv < 4 ? (live ? cmp(o, a, b) : Val::In(0)) : arith(o, a, b); }
                break;
            }
            if (!f) return a;
        }
    }
    Val un() {
        if (eat("-")) { Val a = un(); if (a.d) a.f = -a.f; else a.i = -a.i; return a; }
        if (eat("+")) return un();
        if (eat("!")) return Val::In(un().num() == 0);
        return prim();
    }
    Val prim() {
        if (p >= t.size()) throw Err("end of text");
        Tok k = t[p];
        if (k.k == 'd') { p++; return Val::D(std::strtold(k.s.c_str(), nullptr)); }
        if (k.k == 'i') { p++; return Val::In(std::stoll(k.s)); }
        if (eat("(")) { Val v = expr(); want(")"); return v; }
        if (k.k != 'n') throw Err("unexpected " + k.s);
        p++;
        if (eat("(")) {
            std::vector<Val> a;
            if (!eat(")")) { do a.push_back(expr()); while (eat(",")); want(")"); }
            return call(k.s, a);
        }
        return load(k.s);
    }
    Val load(const std::string& n) {
        auto tb = e.tables.find(n);
        if (tb != e.tables.end()) {
            want("["); Val i = expr(); want("]");
            if (i.d) throw Err("index of " + n + " is not an integer");
            if (!live) return Val::In(0);
            if (i.i < 0 || (size_t) i.i >= tb->second.size()) throw Err("index out of bounds of " + n);
            return Val::In(tb->second[i.i], true);
        }
        long long i = 0;
        if (eat("[")) { Val x = expr(); want("]"); if (x.d) throw Err("index of " + n + " is not an integer"); i = x.i; }
        bool in = e.isint.count(n);
        if (!live) return in ? Val::In(0, true) : Val::D(0);
        auto it = e.arr.find(n);
        if (it == e.arr.end()) throw Err("unknown name " + n);
        auto jt = it->second.find(i);
        if (jt == it->second.end()) throw Err("read of " + n + "[" + std::to_string(i) + "] which was never written");
        return jt->second;
    }
    Val call(const std::string& f, std::vector<Val>& a) {
        static const std::map<std::string, long double (*)(long double)> F = {{"fabs", fabsl}, {"acos", acosl}, {"asin", asinl}, {"atan", atanl}, {"cosh", coshl}, {"cos", cosl}, {"exp", expl}, {"log", logl}, {"sinh", sinhl}, {"sin", sinl}, {"sqrt", sqrtl}, {"tanh", tanhl}, {"tan", tanl}, {"erf", erfl}, {"erfc", erfcl}, {"asinh", asinhl}, {"acosh", acoshl}, {"atanh", atanhl}, {"expm1", expm1l}, {"log1p", log1pl}};
        if (f == "pow") { if (a.size() != 2) throw Err("pow: number of arguments"); return Val::D(powl(a[0].num(), a[1].num())); }
        auto it = F.find(f);
        if (it == F.end()) throw Err("unknown function " + f);
        if (a.size() != 1) throw Err(f + ": number of arguments");
        return Val::D(it->second(a[0].num()));
    }
    void skip() {   // one statement or block, unexecuted
        bool l = live; live = false; stmt(); live = l;
    }
    void block() { want("{"); while (!eat("}")) { if (p >= t.size()) throw Err("missing }"); stmt(); } }
    void body() { if (is("{")) block(); else stmt(); }
    void stmt() {
        if (++e.steps > 2000000) throw Err("does not terminate");
        if (eat(";")) return;
        if (is("{")) return block();
        if (eat("if")) {
            want("("); bool l = live; Val c = expr(); want(")");
            bool v = live && c.num() != 0;
            live = l && v; body(); live = l;
            if (eat("else")) { live = l && !v; body(); live = l; }
            return;
        }
        if (eat("for")) {
            want("("); asg(); want(";");
            size_t pc = p; bool l = live; Val c = expr(); want(";");
            size_t pi = p; live = false; asg(); want(")"); live = l;
            size_t pb = p; size_t end;
            live = false; body(); live = l; end = p;
            while (live && c.num() != 0) {
                if (++e.steps > 2000000) throw Err("does not terminate");
                p = pb; body(); p = pi; asg(); p = pc; c = expr();
            }
            p = end;
            return;
        }
        if (is("static") || is("unsigned") || is("double") || is("float") || is("const") || is("int") || is("long")) return decl();
        asg(); want(";");
    }
    void decl() {
        bool fp = false;
        while (is("static") || is("unsigned") || is("double") || is("float") || is("const") || is("int") || is("long")) { if (is("double") || is("float")) fp = true; p++; }
        do {
            bool ptr = eat("*");
            std::string n = name(); long long sz = -1; bool ar = false;
            if (eat("[")) { ar = true; if (!is("]")) sz = expr().i; want("]"); }
            if (!fp) e.isint[n] = true;
            if (eat("=")) {
                if (eat("{")) {
                    std::vector<long long> v;
                    if (!eat("}")) { do { Val x = expr(); v.push_back(x.i); } while (eat(",")); want("}"); }
                    if (sz >= 0 && (long long) v.size() > sz) throw Err("too many values of " + n);
                    e.tables[n] = v;
                } else if (ptr) { while (!is(";") && !is(",")) p++; }
                else { Val x = expr(); if (live) e.arr[n][0] = fp ? Val::D(x.num()) : Val::In(x.i, true); }
            }
            (void) ar;
        } while (eat(","));
        want(";");
    }
    std::string name() { if (p >= t.size() || t[p].k != 'n') throw Err("name expected"); return t[p++].s; }
    void asg() {
        if (is(";") || is(")")) return;
        std::string n = name();
        if (n == "fprintf") {
            want("("); want("stderr"); want(",");
            if (t[p].k != 's') throw Err("format");
            std::string f = t[p++].s;
            std::vector<Val> a;
            while (eat(",")) a.push_back(expr());
            want(")");
            if (live) print(f, a);
            return;
        }
        long long i = 0;
        if (eat("[")) { Val x = expr(); want("]"); if (x.d) throw Err("index of " + n + " is not an integer"); i = x.i; }
        if (e.tables.count(n)) throw Err("assignment to a table");
        bool in = e.isint.count(n);
        if (is("++") || is("--")) { bool up = is("++"); p++; if (live) { if (!e.arr[n].count(i)) throw Err("increment of unset " + n); Val& v = e.arr[n][i]; if (v.d) v.f += up ? 1 : -1; else v.i += up ? 1 : -1; } return; }
        std::string o = p < t.size() ? t[p].s : "";
        if (o != "=" && o != "+=" && o != "-=" && o != "*=" && o != "/=") throw Err("no assignment: " + n + " " + o);
        p++;
        Val v = expr();
        if (!live) return;
        if (o != "=") {
            if (!e.arr.count(n) || !e.arr[n].count(i)) throw Err("update of unset " + n);
            v = arith(o.substr(0, 1), e.arr[n][i], v);
        }
        e.arr[n][i] = in ? Val::In(v.d ? (long long) v.f : v.i, true) : Val::D(v.num());
    }
    void print(const std::string& f, const std::vector<Val>& a) {
        size_t k = 0;
        for (size_t i = 0; i < f.size(); i++) {
            if (f[i] != '%') { e.printed += f[i]; continue; }
            if (i + 1 < f.size() && f[i + 1] == '%') { e.printed += '%'; i++; continue; }
            size_t j = i + 1;
            while (j < f.size() && !isalpha((unsigned char) f[j])) j++;
            if (j >= f.size()) throw Err("format specification");
            if (k >= a.size()) throw Err("more format specifications than values");
            if (strchr("feEgG", f[j])) { if (!a[k].d) throw Err("format specification of a floating-point value for an integer"); } else throw Err("format specification " + f.substr(i, j - i + 1));
            e.printed += "<" + std::to_string((double) a[k].num()) + ">";
            k++; i = j;
        }
        if (k != a.size()) throw Err("values without format specification");
    }
    void all() { while (p < t.size()) stmt(); }
    Val whole() { Val v = expr(); if (p != t.size()) throw Err("text after the expression: " + t[p].s); return v; }
};
}
