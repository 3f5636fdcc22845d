#include "symengine/minisym.h"

#include <cctype>
#include <cstring>

namespace SymEngine {

#define X(T) void T::accept(Visitor& v) const { v.visit(*this); }
MINISYM_TYPES(X)
#undef X

typedef RCP<const Basic> B;
typedef RCP<const Number> N;

const RCP<const Integer> zero = make_rcp<const Integer>((wide) 0), one = make_rcp<const Integer>((wide) 1),
                         minus_one = make_rcp<const Integer>((wide) -1);
const RCP<const Infty> Inf = make_rcp<const Infty>(1), NegInf = make_rcp<const Infty>(-1),
                       ComplexInf = make_rcp<const Infty>(0);
const RCP<const NaN> Nan = make_rcp<const NaN>();
const RCP<const Constant> E = make_rcp<const Constant>("E"), pi = make_rcp<const Constant>("pi");
const RCP<const BooleanAtom> boolTrue = make_rcp<const BooleanAtom>(true), boolFalse = make_rcp<const BooleanAtom>(false);

namespace {
hash_t mix(hash_t a, hash_t b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4);
    return a * 0xff51afd7ed558ccdull;
}
hash_t hstr(const std::string& s) {
    hash_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
int sgn(int x) { return x < 0 ? -1 : x > 0; }
template<class T>
int cmp3(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }
int cmpvec(const vec_basic& a, const vec_basic& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    for (size_t i = 0; i < a.size(); i++)
        if (int c = a[i]->__cmp__(*b[i])) return c;
    return 0;
}
// numbers beyond 127 bits saturate (SymEngine has arbitrary precision)
const wide HUGE_INT = ~((wide) 1 << 127);
wide wadd(wide a, wide b) {
    wide r;
    if (__builtin_add_overflow(a, b, &r)) return a < 0 ? -HUGE_INT : HUGE_INT;
    return r;
}
wide wmul(wide a, wide b) {
    wide r;
    if (__builtin_mul_overflow(a, b, &r)) return (a < 0) != (b < 0) ? -HUGE_INT : HUGE_INT;
    return r;
}
wide wgcd(wide a, wide b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        wide t = a % b;
        a = b;
        b = t;
    }
    return a;
}
bool is_exact(const Number& n) { return n.get_type_code() <= RATIONAL; }
wide numer(const Number& n) { return is_a<Integer>(n) ? static_cast<const Integer&>(n).value() : static_cast<const Rational&>(n).num(); }
wide denom(const Number& n) { return is_a<Integer>(n) ? 1 : static_cast<const Rational&>(n).den(); }
double dbl(const Number& n) {
    if (is_a<RealDouble>(n)) return static_cast<const RealDouble&>(n).i;
    if (is_a<Infty>(n)) return static_cast<const Infty&>(n).dir() * INFINITY;
    if (is_a<NaN>(n)) return NAN;
    return (double) numer(n) / (double) denom(n);
}
N addnum(const N& a, const N& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a) || is_a<Infty>(*b)) {
        if (is_a<Infty>(*a) && is_a<Infty>(*b)) {
            if (!a->__eq__(*b)) return Nan;
            return a;
        }
        return is_a<Infty>(*a) ? a : b;
    }
    if (is_exact(*a) && is_exact(*b))
        return number_of(wadd(wmul(numer(*a), denom(*b)), wmul(numer(*b), denom(*a))), wmul(denom(*a), denom(*b)));
    return real_double(dbl(*a) + dbl(*b));
}
N mulnum(const N& a, const N& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a) || is_a<Infty>(*b)) {
        if (a->is_zero() || b->is_zero()) return Nan;
        int s = (a->is_negative() ? -1 : 1) * (b->is_negative() ? -1 : 1);
        return s > 0 ? Inf : NegInf;
    }
    if (is_exact(*a) && is_exact(*b)) return number_of(wmul(numer(*a), numer(*b)), wmul(denom(*a), denom(*b)));
    return real_double(dbl(*a) * dbl(*b));
}
bool pownum(const N& a, wide e, N* r) { // integer exponent
    if (is_a<NaN>(*a)) return *r = Nan, true;
    if (is_a<Infty>(*a)) {
        if (e == 0) *r = one;
        else if (e < 0) *r = zero;
        else *r = (a->is_negative() && (e & 1)) ? NegInf : Inf;
        return true;
    }
    if (!is_exact(*a)) return *r = real_double(std::pow(dbl(*a), (double) e)), true;
    if (e < 0) {
        if (a->is_zero()) return *r = ComplexInf, true;
        return pownum(number_of(denom(*a), numer(*a)), -e, r);
    }
    if (e > 4096 && !a->is_one() && !a->is_zero() && !a->is_minus_one()) return false;
    if (a->is_minus_one()) return *r = (e & 1) ? minus_one : one, true;
    N x = one, b = a;
    while (e) {
        if (e & 1) x = mulnum(x, b);
        e >>= 1;
        if (e) b = mulnum(b, b);
    }
    return *r = x, true;
}
int cmpnum(const Number& a, const Number& b) { // -2: unordered
    if (is_a<NaN>(a) || is_a<NaN>(b)) return -2;
    if (is_exact(a) && is_exact(b)) return cmp3(wmul(numer(a), denom(b)), wmul(numer(b), denom(a)));
    return cmp3(dbl(a), dbl(b));
}
const Number& num(const Basic& b) { return static_cast<const Number&>(b); }
N rnum(const B& b) { return rcp_static_cast<const Number>(b); }
} // namespace

// ---- Basic --------------------------------------------------------------------------------------------------
bool Basic::__eq__(const Basic& o) const {
    if (this == &o) return true;
    if (type_code_ != o.type_code_ || hash() != o.hash()) return false;
    return compare(o) == 0;
}
int Basic::__cmp__(const Basic& o) const {
    if (type_code_ != o.type_code_) return type_code_ < o.type_code_ ? -1 : 1;
    return sgn(compare(o));
}
std::string Basic::__str__() const {
    StrPrinter p;
    return p.apply(*this);
}
hash_t Integer::__hash__() const { return mix(11, (hash_t) i_); }
int Integer::compare(const Basic& o) const { return cmp3(i_, static_cast<const Integer&>(o).i_); }
hash_t Rational::__hash__() const { return mix(mix(12, (hash_t) n_), (hash_t) d_); }
int Rational::compare(const Basic& o) const { return cmpnum(*this, static_cast<const Number&>(o)); }
hash_t RealDouble::__hash__() const {
    hash_t x;
    memcpy(&x, &i, sizeof x);
    return mix(13, x);
}
int RealDouble::compare(const Basic& o) const { return cmp3(i, static_cast<const RealDouble&>(o).i); }
hash_t Infty::__hash__() const { return mix(14, (hash_t) dir_); }
int Infty::compare(const Basic& o) const { return cmp3(dir_, static_cast<const Infty&>(o).dir_); }
hash_t Symbol::__hash__() const { return mix(15, hstr(name_)); }
int Symbol::compare(const Basic& o) const { return sgn(name_.compare(static_cast<const Symbol&>(o).name_)); }
hash_t Constant::__hash__() const { return mix(16, hstr(name_)); }
int Constant::compare(const Basic& o) const { return sgn(name_.compare(static_cast<const Constant&>(o).name_)); }
hash_t Add::__hash__() const {
    hash_t h = mix(17, coef_->hash());
    for (auto& [k, v] : dict_) h = mix(mix(h, k->hash()), v->hash());
    return h;
}
template<class D>
static int cmpdict(const D& a, const D& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) {
        if (int c = i->first->__cmp__(*j->first)) return c;
        if (int c = i->second->__cmp__(*j->second)) return c;
    }
    return 0;
}
int Add::compare(const Basic& o) const {
    auto& x = static_cast<const Add&>(o);
    if (int c = cmpdict(dict_, x.dict_)) return c;
    return coef_->__cmp__(*x.coef_);
}
vec_basic Add::get_args() const {
    vec_basic v;
    if (!coef_->is_zero()) v.push_back(coef_);
    for (auto& [k, c] : dict_) v.push_back(mul(c, k));
    return v;
}
hash_t Mul::__hash__() const {
    hash_t h = mix(18, coef_->hash());
    for (auto& [k, v] : dict_) h = mix(mix(h, k->hash()), v->hash());
    return h;
}
int Mul::compare(const Basic& o) const {
    auto& x = static_cast<const Mul&>(o);
    if (int c = cmpdict(dict_, x.dict_)) return c;
    return coef_->__cmp__(*x.coef_);
}
vec_basic Mul::get_args() const {
    vec_basic v;
    if (!coef_->is_one()) v.push_back(coef_);
    for (auto& [k, e] : dict_) v.push_back(eq(*e, *one) ? k : B(make_rcp<const Pow>(k, e)));
    return v;
}
hash_t Pow::__hash__() const { return mix(mix(19, base_->hash()), exp_->hash()); }
int Pow::compare(const Basic& o) const {
    auto& x = static_cast<const Pow&>(o);
    if (int c = base_->__cmp__(*x.base_)) return c;
    return exp_->__cmp__(*x.exp_);
}
hash_t MultiArgFunction::__hash__() const {
    hash_t h = mix(20, type_code_);
    for (auto& a : arg_) h = mix(h, a->hash());
    return h;
}
int MultiArgFunction::compare(const Basic& o) const { return cmpvec(arg_, static_cast<const MultiArgFunction&>(o).arg_); }
hash_t FunctionSymbol::__hash__() const { return mix(MultiArgFunction::__hash__(), hstr(name_)); }
int FunctionSymbol::compare(const Basic& o) const {
    if (int c = name_.compare(static_cast<const FunctionSymbol&>(o).name_)) return sgn(c);
    return MultiArgFunction::compare(o);
}
B Ceiling::create(const vec_basic& x) const { return ceiling(x[0]); }
B Floor::create(const vec_basic& x) const { return floor(x[0]); }
B Abs::create(const vec_basic& x) const { return abs(x[0]); }
B Max::create(const vec_basic& x) const { return max(x); }
B Min::create(const vec_basic& x) const { return min(x); }
int BooleanAtom::compare(const Basic& o) const { return cmp3((int) b_, (int) static_cast<const BooleanAtom&>(o).b_); }
RCP<const Boolean> BooleanAtom::logical_not() const { return boolean(!b_); }
hash_t Not::__hash__() const { return mix(21, arg_->hash()); }
int Not::compare(const Basic& o) const { return arg_->__cmp__(*static_cast<const Not&>(o).arg_); }
hash_t BoolSet::__hash__() const {
    hash_t h = mix(22, type_code_);
    for (auto& a : c_) h = mix(h, a->hash());
    return h;
}
int BoolSet::compare(const Basic& o) const { return cmpvec(get_args(), o.get_args()); }
RCP<const Boolean> And::logical_not() const {
    set_boolean s;
    for (auto& a : get_container()) s.insert(SymEngine::logical_not(a));
    return logical_or(s);
}
RCP<const Boolean> Or::logical_not() const {
    set_boolean s;
    for (auto& a : get_container()) s.insert(SymEngine::logical_not(a));
    return logical_and(s);
}
hash_t Relational::__hash__() const { return mix(mix(mix(23, type_code_), a_->hash()), b_->hash()); }
int Relational::compare(const Basic& o) const { return cmpvec(get_args(), o.get_args()); }
RCP<const Boolean> Equality::logical_not() const { return Ne(get_arg1(), get_arg2()); }
RCP<const Boolean> Unequality::logical_not() const { return Eq(get_arg1(), get_arg2()); }
RCP<const Boolean> LessThan::logical_not() const { return Lt(get_arg2(), get_arg1()); }
RCP<const Boolean> StrictLessThan::logical_not() const { return Le(get_arg2(), get_arg1()); }

// ---- construction -------------------------------------------------------------------------------------------
RCP<const Integer> integer(long i) { return make_rcp<const Integer>((wide) i); }
N number_of(wide n, wide d) {
    if (d == 0) return ComplexInf;
    if (d < 0) n = -n, d = -d;
    wide g = wgcd(n, d);
    if (g > 1) n /= g, d /= g;
    if (d == 1) return make_rcp<const Integer>(n);
    return make_rcp<const Rational>(n, d);
}
N rational(long n, long d) { return number_of(n, d); }
RCP<const RealDouble> real_double(double x) { return make_rcp<const RealDouble>(x); }
RCP<const Infty> infty(int dir) { return dir > 0 ? Inf : dir < 0 ? NegInf : ComplexInf; }
RCP<const Symbol> symbol(const std::string& n) { return make_rcp<const Symbol>(n); }
B function_symbol(std::string n, const vec_basic& a) { return make_rcp<const FunctionSymbol>(n, a); }
B function_symbol(std::string n, const B& a) { return make_rcp<const FunctionSymbol>(n, a); }

namespace {
// t = coefficient * rest
void split(const B& t, N* c, B* r) {
    if (is_a<Mul>(*t)) {
        auto& m = static_cast<const Mul&>(*t);
        *c = m.get_coef();
        if ((*c)->is_one()) {
            *r = t;
            return;
        }
        if (m.get_dict().size() == 1) {
            auto& [k, e] = *m.get_dict().begin();
            *r = eq(*e, *one) ? k : B(make_rcp<const Pow>(k, e));
        } else *r = make_rcp<const Mul>(one, m.get_dict());
    } else {
        *c = one;
        *r = t;
    }
}
struct Sum {
    N coef = zero;
    dict_num d;
    void put(const B& t, const N& f) {
        if (is_a_Number(*t)) {
            coef = addnum(coef, mulnum(rnum(t), f));
        } else if (is_a<Add>(*t)) {
            auto& a = static_cast<const Add&>(*t);
            coef = addnum(coef, mulnum(a.get_coef(), f));
            for (auto& [k, v] : a.get_dict()) term(k, mulnum(v, f));
        } else {
            N c;
            B r;
            split(t, &c, &r);
            term(r, mulnum(c, f));
        }
    }
    void term(const B& k, const N& c) {
        auto it = d.find(k);
        if (it == d.end()) {
            if (!c->is_zero()) d.emplace(k, c);
            return;
        }
        it->second = addnum(it->second, c);
        if (it->second->is_zero()) d.erase(it);
    }
    B get() {
        if (is_a<NaN>(*coef)) return coef;
        if (d.empty()) return coef;
        if (coef->is_zero() && d.size() == 1) return mul(d.begin()->second, d.begin()->first);
        return make_rcp<const Add>(coef, d);
    }
};
struct Prod {
    N coef = one;
    map_basic_basic d;
    void put(const B& t) {
        if (is_a_Number(*t)) coef = mulnum(coef, rnum(t));
        else if (is_a<Mul>(*t)) {
            auto& m = static_cast<const Mul&>(*t);
            coef = mulnum(coef, m.get_coef());
            for (auto& [k, e] : m.get_dict()) factor(k, e);
        } else if (is_a<Pow>(*t)) {
            factor(static_cast<const Pow&>(*t).get_base(), static_cast<const Pow&>(*t).get_exp());
        } else factor(t, one);
    }
    void factor(const B& k, const B& e) {
        auto it = d.find(k);
        if (it == d.end()) {
            d.emplace(k, e);
            return;
        }
        B s = add(it->second, e);
        d.erase(it);
        if (is_number_and_zero(*s)) return;
        B p = pow(k, s);
        if (is_a<Pow>(*p) || !is_a_Number(*k)) {
            if (is_a_Number(*p)) coef = mulnum(coef, rnum(p));
            else d.emplace(k, s);
        } else put(p);
    }
    B get() {
        if (is_a<NaN>(*coef) || coef->is_zero()) return coef;
        if (d.empty()) return coef;
        if (d.size() == 1) {
            auto& [k, e] = *d.begin();
            bool plain = eq(*e, *one);
            if (coef->is_one()) return plain ? k : B(make_rcp<const Pow>(k, e));
            if (plain && is_a<Add>(*k)) { // number times sum
                Sum s;
                s.put(k, coef);
                return s.get();
            }
        }
        return make_rcp<const Mul>(coef, d);
    }
};
} // namespace

B add(const B& a, const B& b) {
    Sum s;
    s.put(a, one);
    s.put(b, one);
    return s.get();
}
B add(const vec_basic& v) {
    Sum s;
    for (auto& a : v) s.put(a, one);
    return s.get();
}
B neg(const B& a) { return mul(minus_one, a); }
B sub(const B& a, const B& b) {
    Sum s;
    s.put(a, one);
    s.put(b, minus_one);
    return s.get();
}
B mul(const B& a, const B& b) {
    Prod p;
    p.put(a);
    p.put(b);
    return p.get();
}
B mul(const vec_basic& v) {
    Prod p;
    for (auto& a : v) p.put(a);
    return p.get();
}
B div(const B& a, const B& b) {
    if (is_number_and_zero(*b)) {
        if (is_number_and_zero(*a)) return Nan;
        return ComplexInf;
    }
    return mul(a, pow(b, minus_one));
}
B pow(const B& a, const B& b) {
    if (is_a_Number(*b)) {
        if (num(*b).is_zero()) return one;
        if (num(*b).is_one()) return a;
        if (is_a<Integer>(*b)) {
            wide e = static_cast<const Integer&>(*b).value();
            if (is_a_Number(*a)) {
                N r;
                if (pownum(rnum(a), e, &r)) return r;
            } else if (is_a<Pow>(*a)) {
                auto& p = static_cast<const Pow&>(*a);
                return pow(p.get_base(), mul(p.get_exp(), b));
            } else if (is_a<Mul>(*a)) {
                auto& m = static_cast<const Mul&>(*a);
                Prod p;
                N r;
                if (pownum(m.get_coef(), e, &r)) {
                    p.coef = r;
                    for (auto& [k, x] : m.get_dict()) p.put(pow(k, mul(x, b)));
                    return p.get();
                }
            }
        } else if (is_a_Number(*a) && (is_a<RealDouble>(*a) || is_a<RealDouble>(*b))) {
            return real_double(std::pow(dbl(num(*a)), dbl(num(*b))));
        } else if (is_a<Rational>(*b) && is_a<Integer>(*a) && !num(*a).is_negative()) {
            wide d = denom(num(*b)), n = numer(num(*b));
            wide r = (wide) llroundl(powl((long double) numer(num(*a)), 1.0L / (long double) d));
            wide t = 1;
            bool ok = true;
            for (wide i = 0; i < d && ok; i++) ok = !__builtin_mul_overflow(t, r, &t);
            N res;
            if (ok && t == numer(num(*a)) && pownum(number_of(r, 1), n, &res)) return res;
        }
    }
    if (is_a_Number(*a)) {
        if (num(*a).is_one()) return one;
    }
    return make_rcp<const Pow>(a, b);
}
static bool floor_num(const Number& n, bool up, N* r) {
    if (is_a<Integer>(n)) return *r = N(static_cast<const Number*>(&n)), true;
    if (is_a<Rational>(n)) {
        wide q = numer(n) / denom(n);
        if (numer(n) < 0) q--;
        return *r = number_of(up ? q + 1 : q, 1), true;
    }
    if (is_a<RealDouble>(n)) return *r = number_of((wide) (up ? std::ceil(dbl(n)) : std::floor(dbl(n))), 1), true;
    return *r = N(static_cast<const Number*>(&n)), true;
}
B ceiling(const B& a) {
    N r;
    if (is_a_Number(*a) && floor_num(num(*a), true, &r)) return r;
    return make_rcp<const Ceiling>(a);
}
B floor(const B& a) {
    N r;
    if (is_a_Number(*a) && floor_num(num(*a), false, &r)) return r;
    return make_rcp<const Floor>(a);
}
B abs(const B& a) {
    if (is_a_Number(*a)) return num(*a).is_negative() ? neg(a) : a;
    return make_rcp<const Abs>(a);
}
static B extreme(const vec_basic& in, bool mx) {
    if (in.empty()) throw SymEngineException("Empty vec_basic passed to max!");
    set_basic s;
    N n;
    std::function<void(const vec_basic&)> go = [&](const vec_basic& v) {
        for (auto& a : v) {
            if (is_a_Number(*a)) {
                if (n.is_null()) n = rnum(a);
                else {
                    int c = cmpnum(num(*a), *n);
                    if (c == (mx ? 1 : -1)) n = rnum(a);
                }
            } else if (mx ? is_a<Max>(*a) : is_a<Min>(*a)) go(a->get_args());
            else s.insert(a);
        }
    };
    go(in);
    vec_basic v;
    if (!n.is_null()) v.push_back(n);
    v.insert(v.end(), s.begin(), s.end());
    if (v.size() == 1) return v[0];
    if (mx) return make_rcp<const Max>(v);
    return make_rcp<const Min>(v);
}
B max(const vec_basic& a) { return extreme(a, true); }
B min(const vec_basic& a) { return extreme(a, false); }

RCP<const BooleanAtom> boolean(bool b) { return b ? boolTrue : boolFalse; }
RCP<const Boolean> logical_not(const RCP<const Boolean>& s) { return s->logical_not(); }
static RCP<const Boolean> junction(const set_boolean& in, bool is_and) {
    set_boolean s;
    for (auto& a : in) {
        if (is_a<BooleanAtom>(*a)) {
            if (static_cast<const BooleanAtom&>(*a).get_val() != is_and) return boolean(!is_and);
        } else if (is_and ? is_a<And>(*a) : is_a<Or>(*a)) {
            auto& c = static_cast<const BoolSet&>(*a).get_container();
            s.insert(c.begin(), c.end());
        } else s.insert(a);
    }
    for (auto& a : s)
        if (s.count(logical_not(a))) return boolean(!is_and);
    if (s.empty()) return boolean(is_and);
    if (s.size() == 1) return *s.begin();
    if (is_and) return make_rcp<const And>(s);
    return make_rcp<const Or>(s);
}
RCP<const Boolean> logical_and(const set_boolean& s) { return junction(s, true); }
RCP<const Boolean> logical_or(const set_boolean& s) { return junction(s, false); }
RCP<const Boolean> Eq(const B& a, const B& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return boolFalse;
    if (eq(*a, *b)) return boolTrue;
    if ((is_a_Number(*a) && is_a_Number(*b)) || (is_a<BooleanAtom>(*a) && is_a<BooleanAtom>(*b)))
        return boolean(is_a_Number(*a) && cmpnum(num(*a), num(*b)) == 0);
    if (b->__cmp__(*a) == 1) return make_rcp<const Equality>(a, b);
    return make_rcp<const Equality>(b, a);
}
RCP<const Boolean> Ne(const B& a, const B& b) {
    if (eq(*a, *b)) return boolFalse;
    if ((is_a_Number(*a) && is_a_Number(*b)) || (is_a<BooleanAtom>(*a) && is_a<BooleanAtom>(*b)))
        return boolean(!(is_a_Number(*a) && cmpnum(num(*a), num(*b)) == 0));
    if (b->__cmp__(*a) == 1) return make_rcp<const Unequality>(a, b);
    return make_rcp<const Unequality>(b, a);
}
RCP<const Boolean> Lt(const B& a, const B& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return boolFalse;
    if (is_a_Boolean(*a) || is_a_Boolean(*b)) throw SymEngineException("Invalid comparison of boolean objects.");
    if (eq(*a, *b)) return boolFalse;
    if (is_a_Number(*a) && is_a_Number(*b)) return boolean(cmpnum(num(*a), num(*b)) < 0);
    return make_rcp<const StrictLessThan>(a, b);
}
RCP<const Boolean> Le(const B& a, const B& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return boolFalse;
    if (is_a_Boolean(*a) || is_a_Boolean(*b)) throw SymEngineException("Invalid comparison of boolean objects.");
    if (eq(*a, *b)) return boolTrue;
    if (is_a_Number(*a) && is_a_Number(*b)) return boolean(cmpnum(num(*a), num(*b)) <= 0);
    return make_rcp<const LessThan>(a, b);
}
RCP<const Boolean> Gt(const B& a, const B& b) { return Lt(b, a); }
RCP<const Boolean> Ge(const B& a, const B& b) { return Le(b, a); }

// ---- transformation -----------------------------------------------------------------------------------------
namespace {
template<class F>
B rebuild(const B& x, F f) { // f(child) -> child
    switch (x->get_type_code()) {
        case ADD: {
            auto& a = static_cast<const Add&>(*x);
            Sum s;
            s.coef = a.get_coef();
            for (auto& [k, c] : a.get_dict()) {
                // whole terms are matched as well
                B t = mul(c, k);
                B u = f(t);
                s.put(u, one);
            }
            return s.get();
        }
        case MUL: {
            auto& m = static_cast<const Mul&>(*x);
            Prod p;
            p.coef = m.get_coef();
            for (auto& [k, e] : m.get_dict()) {
                if (eq(*e, *one)) p.put(f(k));
                else p.put(f(B(make_rcp<const Pow>(k, e))));
            }
            return p.get();
        }
        case POW: {
            auto& p = static_cast<const Pow&>(*x);
            return pow(f(p.get_base()), f(p.get_exp()));
        }
        case FUNCTIONSYMBOL: case CEILING: case FLOOR: case ABS: case MAX: case MIN: {
            auto& m = static_cast<const MultiArgFunction&>(*x);
            vec_basic v;
            bool changed = false;
            for (auto& a : m.get_args()) {
                v.push_back(f(a));
                changed |= !eq(*v.back(), *a);
            }
            return changed ? m.create(v) : x;
        }
        case NOT: return logical_not(rcp_dynamic_cast<const Boolean>(f(x->get_args()[0])));
        case AND: case OR: {
            set_boolean s;
            for (auto& a : x->get_args()) s.insert(rcp_dynamic_cast<const Boolean>(f(a)));
            return x->get_type_code() == AND ? logical_and(s) : logical_or(s);
        }
        case EQUALITY: case UNEQUALITY: case LESSTHAN: case STRICTLESSTHAN: {
            auto v = x->get_args();
            B a = f(v[0]), b = f(v[1]);
            if (x->get_type_code() == EQUALITY) return Eq(a, b);
            if (x->get_type_code() == UNEQUALITY) return Ne(a, b);
            if (x->get_type_code() == LESSTHAN) return Le(a, b);
            return Lt(a, b);
        }
        default: return x;
    }
}
B do_subs(const B& x, const map_basic_basic& d) {
    auto it = d.find(x);
    if (it != d.end()) return it->second;
    return rebuild(x, [&](const B& c) { return do_subs(c, d); });
}
B expand_mul(const B& a, const B& b) {
    if (!is_a<Add>(*a) && !is_a<Add>(*b)) return mul(a, b);
    vec_basic x = is_a<Add>(*a) ? a->get_args() : vec_basic{a}, y = is_a<Add>(*b) ? b->get_args() : vec_basic{b};
    Sum s;
    for (auto& i : x)
        for (auto& j : y) s.put(mul(i, j), one);
    return s.get();
}
B do_expand(const B& x) {
    switch (x->get_type_code()) {
        case ADD: {
            auto& a = static_cast<const Add&>(*x);
            Sum s;
            s.coef = a.get_coef();
            for (auto& [k, c] : a.get_dict()) s.put(do_expand(k), c);
            return s.get();
        }
        case MUL: {
            auto& m = static_cast<const Mul&>(*x);
            B r = m.get_coef();
            for (auto& [k, e] : m.get_dict()) r = expand_mul(r, do_expand(eq(*e, *one) ? k : B(make_rcp<const Pow>(k, e))));
            return r;
        }
        case POW: {
            auto& p = static_cast<const Pow&>(*x);
            B b = do_expand(p.get_base()), e = do_expand(p.get_exp());
            if (is_a<Add>(*b) && is_a<Integer>(*e)) {
                wide n = static_cast<const Integer&>(*e).value();
                if (n > 0 && n <= 16) {
                    B r = one;
                    for (wide i = 0; i < n; i++) r = expand_mul(r, b);
                    return r;
                }
            }
            return pow(b, e);
        }
        default: return rebuild(x, do_expand);
    }
}
} // namespace
B subs(const B& x, const map_basic_basic& d) { return do_subs(x, d); }
B expand(const B& x, bool) { return do_expand(x); }
B simplify(const B& x) { return rebuild(x, [](const B& c) { return simplify(c); }); }
set_basic free_symbols(const Basic& b) { return atoms<Symbol>(b); }
bool has_symbol(const Basic& b, const Basic& x) {
    if (eq(b, x)) return true;
    for (auto& a : b.get_args())
        if (has_symbol(*a, x)) return true;
    return false;
}
void as_numer_denom(const B& x, const Ptr<B>& n, const Ptr<B>& d) {
    if (is_a_Number(*x) && is_exact(num(*x))) {
        *n = number_of(numer(num(*x)), 1);
        *d = number_of(denom(num(*x)), 1);
    } else if (is_a<Mul>(*x) || is_a<Pow>(*x)) {
        B a = one, b = one;
        for (auto& f : is_a<Mul>(*x) ? x->get_args() : vec_basic{x}) {
            if (is_a_Number(*f) && is_exact(num(*f))) {
                a = mul(a, number_of(numer(num(*f)), 1));
                b = mul(b, number_of(denom(num(*f)), 1));
            } else if (is_a<Pow>(*f) && is_a_Number(*static_cast<const Pow&>(*f).get_exp()) &&
                       num(*static_cast<const Pow&>(*f).get_exp()).is_negative()) {
                b = mul(b, pow(f, minus_one));
            } else a = mul(a, f);
        }
        *n = a;
        *d = b;
    } else if (is_a<Add>(*x)) {
        B a = zero, b = one;
        for (auto& t : x->get_args()) {
            B tn, td;
            as_numer_denom(t, outArg(tn), outArg(td));
            if (eq(*td, *b)) a = add(a, tn);
            else {
                a = add(mul(a, td), mul(tn, b));
                b = mul(b, td);
            }
        }
        *n = a;
        *d = b;
    } else {
        *n = x;
        *d = one;
    }
}
RCP<const MExprPoly> poly_from_basic(const B& x0, const set_basic& gens) {
    B x = expand(x0);
    MExprDict p;
    std::vector<B> g(gens.begin(), gens.end());
    auto uses = [&](const Basic& b) {
        for (auto& s : g)
            if (has_symbol(b, *s)) return true;
        return false;
    };
    for (auto& t : is_a<Add>(*x) ? x->get_args() : vec_basic{x}) {
        vec_int e(g.size(), 0);
        B c = one;
        for (auto& f : is_a<Mul>(*t) ? t->get_args() : vec_basic{t}) {
            B base = f;
            wide ex = 1;
            if (is_a<Pow>(*f) && is_a<Integer>(*static_cast<const Pow&>(*f).get_exp())) {
                base = static_cast<const Pow&>(*f).get_base();
                ex = static_cast<const Integer&>(*static_cast<const Pow&>(*f).get_exp()).value();
            }
            size_t i = 0;
            while (i < g.size() && !eq(*g[i], *base)) i++;
            if (i < g.size()) {
                if (ex < 0) throw SymEngineException("Not a Polynomial");
                e[i] += (int) ex;
            } else if (uses(*f)) throw SymEngineException("Not a Polynomial");
            else c = mul(c, f);
        }
        if (is_number_and_zero(*c)) continue;
        auto it = p.dict_.find(e);
        if (it == p.dict_.end()) p.dict_.emplace(e, Expression(c));
        else it->second = Expression(add(it->second.get_basic(), c));
    }
    for (auto it = p.dict_.begin(); it != p.dict_.end();)
        if (is_number_and_zero(*it->second.get_basic())) it = p.dict_.erase(it);
        else ++it;
    return make_rcp<const MExprPoly>(p, gens);
}

// ---- parser -------------------------------------------------------------------------------------------------
namespace {
struct Parser {
    const std::string& s;
    size_t p = 0;
    int depth = 0;
    [[noreturn]] void fail() { throw ParseError("Parsing Unsuccessful"); }
    void ws() {
        while (p < s.size() && isspace((unsigned char) s[p])) p++;
    }
    bool eat(const char* t) {
        ws();
        size_t n = strlen(t);
        if (s.compare(p, n, t)) return false;
        p += n;
        return true;
    }
    struct Deep {
        int& d;
        explicit Deep(Parser& q) : d(q.depth) {
            if (++d > 500) q.fail();
        }
        ~Deep() { d--; }
    };
    static RCP<const Boolean> bl(const B& b) { return rcp_dynamic_cast<const Boolean>(b); }
    B expr() {
        Deep dd(*this);
        B a = conj();
        for (;;) {
            ws();
            if (eat("||") || eat("|")) a = logical_or({bl(a), bl(conj())});
            else return a;
        }
    }
    B conj() {
        B a = rel();
        for (;;) {
            ws();
            if (eat("&&") || eat("&")) a = logical_and({bl(a), bl(rel())});
            else return a;
        }
    }
    B rel() {
        B a = sum();
        for (;;) {
            if (eat("==")) a = Eq(a, sum());
            else if (eat("!=")) a = Ne(a, sum());
            else if (eat("<=")) a = Le(a, sum());
            else if (eat(">=")) a = Ge(a, sum());
            else if (eat("<")) a = Lt(a, sum());
            else if (eat(">")) a = Gt(a, sum());
            else return a;
        }
    }
    B sum() {
        B a = prod();
        for (;;) {
            if (eat("+")) a = add(a, prod());
            else if (eat("-")) a = sub(a, prod());
            else return a;
        }
    }
    B prod() {
        B a = unary();
        for (;;) {
            ws();
            if (s.compare(p, 2, "**") && eat("*")) a = mul(a, unary());
            else if (eat("/")) a = div(a, unary());
            else return a;
        }
    }
    B unary() {
        Deep dd(*this);
        if (eat("-")) return neg(unary());
        if (eat("+")) return unary();
        if (eat("~") || (s.compare(p, 2, "!=") && eat("!"))) return logical_not(bl(unary()));
        return power();
    }
    B power() {
        B a = atom();
        ws();
        if (eat("**") || eat("^")) return pow(a, unary());
        return a;
    }
    B atom() {
        ws();
        if (p >= s.size()) fail();
        if (eat("(")) {
            B a = expr();
            if (!eat(")")) fail();
            return a;
        }
        unsigned char c = s[p];
        if (isdigit(c) || (c == '.' && p + 1 < s.size() && isdigit((unsigned char) s[p + 1]))) {
            size_t b = p;
            bool real = false;
            while (p < s.size() && isdigit((unsigned char) s[p])) p++;
            if (p < s.size() && s[p] == '.') {
                real = true;
                p++;
                while (p < s.size() && isdigit((unsigned char) s[p])) p++;
            }
            if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
                size_t q = p + 1;
                if (q < s.size() && (s[q] == '+' || s[q] == '-')) q++;
                if (q < s.size() && isdigit((unsigned char) s[q])) {
                    real = true;
                    p = q;
                    while (p < s.size() && isdigit((unsigned char) s[p])) p++;
                }
            }
            std::string t = s.substr(b, p - b);
            if (real) return real_double(std::stod(t));
            wide v = 0;
            for (char d : t) v = wadd(wmul(v, 10), d - '0');
            return make_rcp<const Integer>(v);
        }
        if (isalpha(c) || c == '_' || c >= 0x80) {
            size_t b = p;
            while (p < s.size() && (isalnum((unsigned char) s[p]) || s[p] == '_' || s[p] == '.' || (unsigned char) s[p] >= 0x80)) p++;
            std::string id = s.substr(b, p - b);
            ws();
            if (p < s.size() && s[p] == '(') {
                p++;
                vec_basic v;
                if (!eat(")")) {
                    do v.push_back(expr());
                    while (eat(","));
                    if (!eat(")")) fail();
                }
                return call(id, v);
            }
            if (id == "True") return boolTrue;
            if (id == "False") return boolFalse;
            if (id == "E" || id == "e") return E;
            if (id == "pi") return pi;
            if (id == "oo" || id == "inf") return Inf;
            if (id == "zoo") return ComplexInf;
            if (id == "nan") return Nan;
            return symbol(id);
        }
        fail();
    }
    B call(const std::string& id, const vec_basic& v) {
        auto set = [&] {
            set_boolean r;
            for (auto& a : v) r.insert(bl(a));
            return r;
        };
        if ((id == "max" || id == "Max") && !v.empty()) return max(v);
        if ((id == "min" || id == "Min") && !v.empty()) return min(v);
        if (id == "And") return logical_and(set());
        if (id == "Or") return logical_or(set());
        if (v.size() == 1) {
            if (id == "Not") return logical_not(bl(v[0]));
            if (id == "abs" || id == "Abs") return abs(v[0]);
            if (id == "ceiling") return ceiling(v[0]);
            if (id == "floor") return floor(v[0]);
            if (id == "sqrt") return pow(v[0], rational(1, 2));
        }
        if (v.size() == 2) {
            if (id == "pow") return pow(v[0], v[1]);
            if (id == "Eq") return Eq(v[0], v[1]);
            if (id == "Ne") return Ne(v[0], v[1]);
            if (id == "Lt") return Lt(v[0], v[1]);
            if (id == "Le") return Le(v[0], v[1]);
            if (id == "Gt") return Gt(v[0], v[1]);
            if (id == "Ge") return Ge(v[0], v[1]);
        }
        return function_symbol(id, v);
    }
};
} // namespace
B parse(const std::string& s, bool) {
    Parser q{s};
    B r = q.expr();
    q.ws();
    if (q.p != s.size()) q.fail();
    return r;
}

// ---- printers -----------------------------------------------------------------------------------------------
std::string StrPrinter::num(wide x) {
    if (!x) return "0";
    bool n = x < 0;
    unsigned __int128 u = n ? -(unsigned __int128) x : (unsigned __int128) x;
    std::string s;
    while (u) s += (char) ('0' + (int) (u % 10)), u /= 10;
    if (n) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
int StrPrinter::prec(const Basic& b) {
    switch (b.get_type_code()) {
        case ADD: return 1;
        case MUL: return 2;
        case POW: return 3;
        case INTEGER: case REAL_DOUBLE: case INFTY: return SymEngine::num(b).is_negative() ? 1 : 4;
        case RATIONAL: return SymEngine::num(b).is_negative() ? 1 : 2;
        case EQUALITY: case UNEQUALITY: case LESSTHAN: case STRICTLESSTHAN: return 0;
        default: return 4;
    }
}
std::string StrPrinter::parenthesizeLT(const B& x, int p) {
    std::string s = apply(x);
    return prec(*x) < p ? parenthesize(s) : s;
}
std::string StrPrinter::apply(const B& b) { return apply(*b); }
std::string StrPrinter::apply(const Basic& b) {
    b.accept(*this);
    return str_;
}
std::string StrPrinter::list(const vec_basic& v) {
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + apply(v[i]);
    return s;
}
std::string StrPrinter::apply(const vec_basic& v) { return list(v); }
void StrPrinter::bvisit(const Basic&) { throw NotImplementedError("Not implemented"); }
void StrPrinter::bvisit(const Integer& x) { str_ = num(x.value()); }
void StrPrinter::bvisit(const Rational& x) { str_ = num(x.num()) + "/" + num(x.den()); }
void CodePrinter::bvisit(const Rational& x) { str_ = num(x.num()) + ".0/" + num(x.den()) + ".0"; }
void StrPrinter::bvisit(const RealDouble& x) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", x.i);
    str_ = b;
    if (str_.find_first_of(".en") == std::string::npos) str_ += ".0";
}
void StrPrinter::bvisit(const Infty& x) { str_ = x.dir() > 0 ? "oo" : x.dir() < 0 ? "-oo" : "zoo"; }
void StrPrinter::bvisit(const NaN&) { str_ = "nan"; }
void StrPrinter::bvisit(const Constant& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Symbol& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Mul& x) {
    std::string o, den;
    bool first = true;
    int nden = 0;
    if (x.get_coef()->is_minus_one()) o = "-";
    else if (!x.get_coef()->is_one()) {
        o = apply(x.get_coef());
        first = false;
    }
    for (auto& [k, e] : x.get_dict()) {
        if (is_a_Number(*e) && SymEngine::num(*e).is_negative()) {
            std::ostringstream t;
            B pe = SymEngine::neg(e);
            if (eq(*pe, *one)) t << parenthesizeLT(k, 3);
            else _print_pow(t, k, pe);
            den += (nden++ ? print_mul() : "") + t.str();
            continue;
        }
        std::ostringstream t;
        if (eq(*e, *one)) t << parenthesizeLT(k, 2);
        else _print_pow(t, k, e);
        if (!first) o += print_mul();
        o += t.str();
        first = false;
    }
    if (nden) {
        if (first) o += "1";
        o += "/" + (nden > 1 ? parenthesize(den) : den);
    }
    str_ = o;
}
void StrPrinter::bvisit(const Add& x) {
    std::vector<std::string> t;
    for (auto& [k, c] : x.get_dict()) t.push_back(apply(SymEngine::mul(c, k)));
    std::sort(t.begin(), t.end(), [](const std::string& a, const std::string& b) {
        auto k = [](const std::string& s) { return s.substr(s[0] == '-'); };
        return k(a) != k(b) ? k(a) < k(b) : a < b;
    });
    std::string o;
    if (!x.get_coef()->is_zero()) o = apply(x.get_coef());
    for (auto& s : t) {
        if (o.empty()) o = s;
        else if (s[0] == '-') o += " - " + s.substr(1);
        else o += " + " + s;
    }
    str_ = o;
}
void StrPrinter::_print_pow(std::ostringstream& o, const B& a, const B& b) {
    if (eq(*b, *rational(1, 2))) o << "sqrt(" << apply(a) << ")";
    else o << parenthesizeLT(a, 4) << "**" << parenthesizeLT(b, 4);
}
void StrPrinter::bvisit(const Pow& x) {
    std::ostringstream o;
    if (is_a_Number(*x.get_exp()) && SymEngine::num(*x.get_exp()).is_negative()) {
        B pe = SymEngine::neg(x.get_exp());
        o << "1/";
        if (eq(*pe, *one)) o << parenthesizeLT(x.get_base(), 3);
        else _print_pow(o, x.get_base(), pe);
    } else _print_pow(o, x.get_base(), x.get_exp());
    str_ = o.str();
}
void StrPrinter::bvisit(const FunctionSymbol& x) { str_ = x.get_name() + parenthesize(list(x.get_args())); }
void StrPrinter::bvisit(const Ceiling& x) { str_ = "ceiling" + parenthesize(list(x.get_args())); }
void StrPrinter::bvisit(const Floor& x) { str_ = "floor" + parenthesize(list(x.get_args())); }
void StrPrinter::bvisit(const Abs& x) { str_ = "abs" + parenthesize(list(x.get_args())); }
void StrPrinter::bvisit(const Max& x) { str_ = "max" + parenthesize(list(x.get_args())); }
void StrPrinter::bvisit(const Min& x) { str_ = "min" + parenthesize(list(x.get_args())); }
void StrPrinter::bvisit(const BooleanAtom& x) { str_ = x.get_val() ? "True" : "False"; }
void StrPrinter::bvisit(const Not& x) { str_ = "Not" + parenthesize(apply(x.get_arg())); }
void StrPrinter::bvisit(const And& x) { str_ = "And" + parenthesize(list(x.get_args())); }
void StrPrinter::bvisit(const Or& x) { str_ = "Or" + parenthesize(list(x.get_args())); }
void StrPrinter::bvisit(const Equality& x) { str_ = apply(x.get_arg1()) + " == " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const Unequality& x) { str_ = apply(x.get_arg1()) + " != " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const LessThan& x) { str_ = apply(x.get_arg1()) + " <= " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const StrictLessThan& x) { str_ = apply(x.get_arg1()) + " < " + apply(x.get_arg2()); }

} // namespace SymEngine

// the integer set library that reads nothing (replaced by isl_z3.cpp where that is linked)
#include "isl/miniisl.h"
#define NOISL __attribute__((weak))
NOISL isl_map* isl_map_read_from_str(isl_ctx*, const char*) { return nullptr; }
NOISL isl_map* isl_map_free(isl_map*) { return nullptr; }
NOISL isl_set* isl_set_free(isl_set*) { return nullptr; }
NOISL isl_map* isl_map_copy(isl_map*) { return nullptr; }
NOISL isl_map* isl_map_align_params(isl_map*, isl_space*) { return nullptr; }
NOISL isl_map* isl_map_project_out(isl_map*, isl_dim_type, unsigned, unsigned) { return nullptr; }
NOISL isl_map* isl_map_apply_domain(isl_map*, isl_map*) { return nullptr; }
NOISL isl_map* isl_map_intersect(isl_map*, isl_map*) { return nullptr; }
NOISL isl_map* isl_map_set_dim_name(isl_map*, isl_dim_type, unsigned, const char*) { return nullptr; }
NOISL isl_set* isl_map_range(isl_map*) { return nullptr; }
NOISL isl_space* isl_map_get_space(isl_map*) { return nullptr; }
NOISL int isl_map_dim(isl_map*, isl_dim_type) { return 0; }
NOISL isl_bool isl_map_is_empty(isl_map*) { return isl_bool_error; }
NOISL isl_bool isl_set_is_subset(isl_set*, isl_set*) { return isl_bool_error; }
NOISL isl_bool isl_set_is_disjoint(isl_set*, isl_set*) { return isl_bool_error; }
NOISL isl_space* isl_space_free(isl_space*) { return nullptr; }
NOISL isl_space* isl_space_params(isl_space*) { return nullptr; }
NOISL isl_space* isl_space_copy(isl_space*) { return nullptr; }
NOISL isl_space* isl_space_align_params(isl_space*, isl_space*) { return nullptr; }
