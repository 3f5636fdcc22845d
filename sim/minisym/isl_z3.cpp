// Integer sets for the code under test: affine sets and maps with parameters and existential variables, decided by Z3.
// Follows the integer set library: text with a product of two variables cannot be read.
#include "isl/miniisl.h"

#include <z3++.h>
#include <algorithm>
#include <cctype>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace {
struct Lin { // sum of variables and a constant
    std::map<std::string, int64_t> c;
    int64_t k = 0;
    bool constant() const { return c.empty(); }
    Lin& add(const Lin& o, int64_t f = 1) {
        for (auto& [n, v] : o.c)
            if ((c[n] += f * v) == 0) c.erase(n);
        k += f * o.k;
        return *this;
    }
};
struct F;
using P = std::shared_ptr<F>;
struct F {
    enum K { AND, OR, LE, EQ, NE, EX } k; // LE, EQ, NE: lin against 0
    std::vector<P> s;
    Lin l;
    std::vector<std::string> v;
};
P conj(std::vector<P> s) { return std::make_shared<F>(F{F::AND, std::move(s), {}, {}}); }
P cmp(F::K k, const Lin& l) { return std::make_shared<F>(F{k, {}, l, {}}); }
P exists(std::vector<std::string> v, P f) { return v.empty() ? f : std::make_shared<F>(F{F::EX, {f}, {}, std::move(v)}); }
int fresh = 0;
std::string fresh_name() { return "e." + std::to_string(fresh++); }

P rename(const P& f, const std::map<std::string, std::string>& m) { // bound variables have names of their own
    auto r = std::make_shared<F>(*f);
    r->s.clear();
    for (auto& x : f->s) r->s.push_back(rename(x, m));
    Lin l;
    l.k = f->l.k;
    for (auto& [n, v] : f->l.c) {
        auto it = m.find(n);
        auto& t = l.c[it == m.end() ? n : it->second];
        if ((t += v) == 0) l.c.erase(it == m.end() ? n : it->second);
    }
    r->l = l;
    return r;
}

struct Bad {};
struct Parser {
    const char* p;
    std::map<std::string, std::string> scope;
    std::vector<P> side; // definitions of auxiliary variables
    std::vector<std::string> aux;
    void ws() {
        while (isspace((unsigned char) *p)) p++;
    }
    bool eat(const char* t) {
        ws();
        size_t n = strlen(t);
        if (strncmp(p, t, n)) return false;
        if (isalpha((unsigned char) t[0]) && (isalnum((unsigned char) p[n]) || p[n] == '_')) return false;
        p += n;
        return true;
    }
    void need(const char* t) {
        if (!eat(t)) throw Bad();
    }
    std::string name() {
        ws();
        const char* b = p;
        if (!isalpha((unsigned char) *p) && *p != '_') throw Bad();
        while (isalnum((unsigned char) *p) || *p == '_') p++;
        return std::string(b, p);
    }
    Lin var(const std::string& n) {
        Lin l;
        l.c[n] = 1;
        return l;
    }
    Lin helper() {
        std::string n = fresh_name();
        aux.push_back(n);
        return var(n);
    }
    Lin factor() {
        ws();
        if (eat("-")) {
            Lin r;
            return r.add(factor(), -1);
        }
        if (eat("(")) {
            Lin r = sum();
            need(")");
            return r;
        }
        if (isdigit((unsigned char) *p)) {
            Lin r;
            char* e;
            r.k = strtoll(p, &e, 10);
            p = e;
            ws();
            if (*p == '.' || *p == '/') throw Bad();
            if (isalpha((unsigned char) *p) && strncmp(p, "and", 3) && strncmp(p, "or", 2)) throw Bad();
            return r;
        }
        std::string n = name();
        if (eat("(")) {
            if (n == "floord") {
                Lin a = sum();
                need(",");
                Lin b = sum();
                need(")");
                if (!b.constant() || b.k <= 0) throw Bad();
                Lin q = helper(), lo, hi; // b*q <= a <= b*q + b-1
                lo.add(q, b.k).add(a, -1);
                hi.add(a).add(q, -b.k).k -= b.k - 1;
                side.push_back(cmp(F::LE, lo));
                side.push_back(cmp(F::LE, hi));
                return q;
            }
            if (n == "max" || n == "min") {
                std::vector<Lin> a = {sum()};
                while (eat(",")) a.push_back(sum());
                need(")");
                Lin m = helper();
                auto any = std::make_shared<F>(F{F::OR, {}, {}, {}});
                for (auto& x : a) {
                    Lin d, e;
                    d.add(x, n == "max" ? 1 : -1).add(m, n == "max" ? -1 : 1);
                    e.add(x).add(m, -1);
                    side.push_back(cmp(F::LE, d));
                    any->s.push_back(cmp(F::EQ, e));
                }
                side.push_back(any);
                return m;
            }
            throw Bad();
        }
        auto it = scope.find(n);
        if (it == scope.end()) throw Bad();
        return var(it->second);
    }
    Lin product() {
        Lin r = factor();
        for (;;) {
            ws();
            if (*p == '*' && p[1] == '*') throw Bad();
            if (!eat("*")) return r;
            Lin o = factor();
            if (!r.constant() && !o.constant()) throw Bad();
            if (r.constant()) std::swap(r, o);
            int64_t f = o.k;
            Lin n;
            n.add(r, f);
            r = n;
        }
    }
    Lin sum() {
        Lin r = product();
        for (;;) {
            ws();
            if (*p == '-' && p[1] == '>') return r;
            if (eat("+")) r.add(product());
            else if (eat("-")) r.add(product(), -1);
            else return r;
        }
    }
    P formula() {
        std::vector<P> all;
        do {
            if (eat("exists")) {
                std::vector<std::string> v;
                auto keep = scope;
                do {
                    std::string n = name();
                    scope[n] = fresh_name();
                    v.push_back(scope[n]);
                } while (eat(","));
                need(":");
                P f = formula();
                scope = keep;
                all.push_back(exists(v, f));
                continue;
            }
            Lin l = sum();
            bool one = false;
            for (;;) {
                ws();
                std::string op;
                for (auto* o : {"<=", ">=", "!=", "==", "<", ">", "="})
                    if (eat(o)) {
                        op = o;
                        break;
                    }
                if (op.empty()) break;
                one = true;
                Lin r = sum(), d;
                if (op == "<=" || op == "<") d.add(l).add(r, -1).k += op == "<";
                else if (op == ">=" || op == ">") d.add(r).add(l, -1).k += op == ">";
                else d.add(l).add(r, -1);
                all.push_back(cmp(op == "!=" ? F::NE : op == "=" || op == "==" ? F::EQ : F::LE, d));
                l = r;
            }
            if (!one) throw Bad();
        } while (eat("and"));
        return conj(all);
    }
};
} // namespace

struct isl_map {
    std::vector<std::string> params;
    int nin = 0, nout = 0;
    P f; // over p.NAME, i.K, o.K
};
struct isl_set {
    int n = 0;
    P f;
};

namespace {
z3::expr lin(z3::context& c, const Lin& l) {
    z3::expr r = c.int_val((int64_t) l.k);
    for (auto& [n, v] : l.c) r = r + c.int_val((int64_t) v) * c.int_const(n.c_str());
    return r;
}
z3::expr trans(z3::context& c, const P& f) {
    switch (f->k) {
        case F::AND: {
            z3::expr_vector v(c);
            for (auto& x : f->s) v.push_back(trans(c, x));
            return z3::mk_and(v);
        }
        case F::OR: {
            z3::expr_vector v(c);
            for (auto& x : f->s) v.push_back(trans(c, x));
            return z3::mk_or(v);
        }
        case F::LE: return lin(c, f->l) <= 0;
        case F::EQ: return lin(c, f->l) == 0;
        case F::NE: return lin(c, f->l) != 0;
        default: {
            z3::expr_vector v(c);
            for (auto& n : f->v) v.push_back(c.int_const(n.c_str()));
            return z3::exists(v, trans(c, f->s[0]));
        }
    }
}
z3::check_result solve(const std::function<z3::expr(z3::context&)>& f) {
    z3::context c;
    z3::solver s(c);
    z3::params p(c);
    p.set("rlimit", 3000000u); // effort, not time: the same answer every time
    s.set(p);
    s.add(f(c));
    return s.check();
}
} // namespace

isl_map* isl_map_read_from_str(isl_ctx*, const char* text) {
    try {
        Parser r{text};
        auto m = std::make_unique<isl_map>();
        if (r.eat("[")) {
            if (!r.eat("]")) {
                do {
                    std::string n = r.name();
                    m->params.push_back(n);
                    r.scope[n] = "p." + n;
                } while (r.eat(","));
                r.need("]");
            }
            r.need("->");
        }
        r.need("{");
        r.need("[");
        std::vector<P> all;
        if (!r.eat("]")) {
            do {
                std::string n = r.name(), v = "i." + std::to_string(m->nin++);
                if (r.scope.count(n)) { // the same name again: equal
                    Lin d;
                    d.c[v] = 1;
                    d.c[r.scope[n]] -= 1;
                    all.push_back(cmp(F::EQ, d));
                } else r.scope[n] = v;
            } while (r.eat(","));
            r.need("]");
        }
        r.need("->");
        r.need("[");
        if (!r.eat("]")) {
            do {
                // a name not seen before is a dimension of its own
                r.ws();
                const char* b = r.p;
                std::string v = "o." + std::to_string(m->nout++);
                if (isalpha((unsigned char) *b) || *b == '_') {
                    std::string n = r.name();
                    r.ws();
                    if (!r.scope.count(n) && (*r.p == ',' || *r.p == ']')) {
                        r.scope[n] = v;
                        continue;
                    }
                    r.p = b;
                }
                Lin d = r.sum();
                d.c[v] -= 1;
                all.push_back(cmp(F::EQ, d));
            } while (r.eat(","));
            r.need("]");
        }
        if (r.eat(":")) all.push_back(r.formula());
        r.need("}");
        for (auto& s : r.side) all.push_back(s);
        m->f = exists(r.aux, conj(all));
        return m.release();
    } catch (Bad&) {
        return nullptr;
    }
}
isl_map* isl_map_free(isl_map* m) {
    delete m;
    return nullptr;
}
isl_set* isl_set_free(isl_set* s) {
    delete s;
    return nullptr;
}
isl_map* isl_map_copy(isl_map* m) { return new isl_map(*m); }
isl_space* isl_map_get_space(isl_map*) { return nullptr; }
isl_space* isl_space_free(isl_space*) { return nullptr; }
isl_space* isl_space_params(isl_space*) { return nullptr; }
isl_space* isl_space_copy(isl_space*) { return nullptr; }
isl_space* isl_space_align_params(isl_space*, isl_space*) { return nullptr; }
isl_map* isl_map_align_params(isl_map* m, isl_space*) { return m; }
isl_map* isl_map_set_dim_name(isl_map* m, isl_dim_type, unsigned, const char*) { return m; }
int isl_map_dim(isl_map* m, isl_dim_type t) { return t == isl_dim_param ? (int) m->params.size() : t == isl_dim_in ? m->nin : m->nout; }
isl_map* isl_map_project_out(isl_map* m, isl_dim_type t, unsigned first, unsigned n) {
    if (t != isl_dim_param || first != 0 || n != m->params.size()) throw std::runtime_error("isl_map_project_out: not available");
    std::map<std::string, std::string> ren;
    std::vector<std::string> v;
    for (auto& x : m->params) v.push_back(ren["p." + x] = fresh_name());
    m->f = exists(v, rename(m->f, ren));
    m->params.clear();
    return m;
}
isl_map* isl_map_apply_domain(isl_map* a, isl_map* b) { // a: A -> B, b: A -> C; C -> B
    std::unique_ptr<isl_map> x(a), y(b);
    if (x->nin != y->nin) return nullptr;
    auto m = std::make_unique<isl_map>();
    m->params = x->params;
    for (auto& p : y->params)
        if (std::find(m->params.begin(), m->params.end(), p) == m->params.end()) m->params.push_back(p);
    m->nin = y->nout;
    m->nout = x->nout;
    std::map<std::string, std::string> ra, rb;
    std::vector<std::string> v;
    for (int i = 0; i < x->nin; i++) {
        std::string n = fresh_name();
        v.push_back(n);
        ra["i." + std::to_string(i)] = n;
        rb["i." + std::to_string(i)] = n;
    }
    for (int i = 0; i < y->nout; i++) rb["o." + std::to_string(i)] = "i." + std::to_string(i);
    m->f = exists(v, conj({rename(x->f, ra), rename(y->f, rb)}));
    return m.release();
}
isl_map* isl_map_intersect(isl_map* a, isl_map* b) {
    std::unique_ptr<isl_map> x(a), y(b);
    if (x->nin != y->nin || x->nout != y->nout) return nullptr;
    for (auto& p : y->params)
        if (std::find(x->params.begin(), x->params.end(), p) == x->params.end()) x->params.push_back(p);
    x->f = conj({x->f, y->f});
    return x.release();
}
isl_set* isl_map_range(isl_map* m) { // takes the map
    auto s = new isl_set;
    std::map<std::string, std::string> ren;
    std::vector<std::string> v;
    for (int i = 0; i < m->nin; i++) v.push_back(ren["i." + std::to_string(i)] = fresh_name());
    s->n = m->nout;
    s->f = exists(v, rename(m->f, ren));
    return s;
}
isl_bool isl_map_is_empty(isl_map* m) {
    if (!m) return isl_bool_error;
    auto r = solve([&](z3::context& c) { return trans(c, m->f); });
    return r == z3::unsat ? isl_bool_true : r == z3::sat ? isl_bool_false : isl_bool_error;
}
isl_bool isl_set_is_disjoint(isl_set* a, isl_set* b) {
    if (!a || !b) return isl_bool_error;
    if (a->n != b->n) return isl_bool_true; // other spaces
    auto r = solve([&](z3::context& c) { return trans(c, a->f) && trans(c, b->f); });
    return r == z3::unsat ? isl_bool_true : r == z3::sat ? isl_bool_false : isl_bool_error;
}
isl_bool isl_set_is_subset(isl_set* a, isl_set* b) {
    if (!a || !b) return isl_bool_error;
    if (a->n != b->n) return solve([&](z3::context& c) { return trans(c, a->f); }) == z3::unsat ? isl_bool_true : isl_bool_false;
    auto r = solve([&](z3::context& c) { return trans(c, a->f) && !trans(c, b->f); });
    return r == z3::unsat ? isl_bool_true : r == z3::sat ? isl_bool_false : isl_bool_error;
}
