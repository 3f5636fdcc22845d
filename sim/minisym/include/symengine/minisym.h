// A small stand-in for the SymEngine library (not available here), with the part of its interface that the
// repository uses: exact rational arithmetic, canonical sums and products, booleans, substitution, polynomials,
// parser and printers. Semantics follow SymEngine (type codes, pointer comparison of RCP, auto-simplification).
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace SymEngine {

class SymEngineException : public std::exception {
    std::string m_;

public:
    explicit SymEngineException(const std::string& m) : m_(m) {}
    const char* what() const noexcept override { return m_.c_str(); }
};
class NotImplementedError : public SymEngineException {
public:
    using SymEngineException::SymEngineException;
};
class ParseError : public SymEngineException {
public:
    using SymEngineException::SymEngineException;
};
class DomainError : public SymEngineException {
public:
    using SymEngineException::SymEngineException;
};
class DivisionByZeroError : public SymEngineException {
public:
    using SymEngineException::SymEngineException;
};

enum ENull { null };
typedef uint64_t hash_t;

class Basic;
void rc_inc(const Basic* p);
void rc_dec(const Basic* p);

template<class T>
class RCP {
    T* p_ = nullptr;

public:
    typedef T element_type;
    RCP() = default;
    RCP(ENull) {}
    explicit RCP(T* p) : p_(p) {
        if (p_) rc_inc(p_);
    }
    RCP(const RCP& o) : p_(o.p_) {
        if (p_) rc_inc(p_);
    }
    RCP(RCP&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    RCP(const RCP<U>& o) : p_(o.get()) {
        if (p_) rc_inc(p_);
    }
    ~RCP() {
        if (p_) rc_dec(p_);
    }
    RCP& operator=(const RCP& o) {
        RCP t(o);
        std::swap(p_, t.p_);
        return *this;
    }
    RCP& operator=(RCP&& o) noexcept {
        std::swap(p_, o.p_);
        return *this;
    }
    T* operator->() const {
        if (!p_) throw std::logic_error("null symbolic expression dereferenced");
        return p_;
    }
    T& operator*() const {
        if (!p_) throw std::logic_error("null symbolic expression dereferenced");
        return *p_;
    }
    T* get() const { return p_; }
    T* getRawPtr() const { return p_; }
    RCP ptr() const { return *this; }
    bool is_null() const { return p_ == nullptr; }
    void reset() { *this = RCP(); }
    template<class U>
    bool operator==(const RCP<U>& o) const {
        return (const void*) p_ == (const void*) o.get();
    }
    template<class U>
    bool operator!=(const RCP<U>& o) const {
        return !(*this == o);
    }
    bool operator==(ENull) const { return p_ == nullptr; }
    bool operator!=(ENull) const { return p_ != nullptr; }
};
template<class T>
bool operator==(ENull, const RCP<T>& p) { return p.is_null(); }
template<class T>
bool operator!=(ENull, const RCP<T>& p) { return !p.is_null(); }

template<class T, class... A>
RCP<T> make_rcp(A&&... a) {
    return RCP<T>(new std::remove_const_t<T>(std::forward<A>(a)...));
}
template<class T, class U>
RCP<T> rcp_static_cast(const RCP<U>& p) {
    return RCP<T>(static_cast<T*>(p.get()));
}
template<class T, class U>
RCP<T> rcp_dynamic_cast(const RCP<U>& p) {
    if (p.is_null()) return RCP<T>();
    T* q = dynamic_cast<T*>(p.get());
    if (!q) throw std::runtime_error("rcp_dynamic_cast: cannot convert.");
    return RCP<T>(q);
}
template<class T>
class Ptr {
    T* p_;

public:
    explicit Ptr(T* p) : p_(p) {}
    T& operator*() const { return *p_; }
    T* operator->() const { return p_; }
};
template<class T>
Ptr<RCP<T>> outArg(RCP<T>& x) { return Ptr<RCP<T>>(&x); }

enum TypeID {
    INTEGER, RATIONAL, REAL_DOUBLE, INFTY, NOT_A_NUMBER, CONSTANT, SYMBOL, MUL, ADD, POW, FUNCTIONSYMBOL,
    CEILING, FLOOR, ABS, MAX, MIN, BOOLEAN_ATOM, NOT, AND, OR, EQUALITY, UNEQUALITY, LESSTHAN, STRICTLESSTHAN
};

class Visitor;
typedef std::vector<RCP<const Basic>> vec_basic;

class Basic {
    mutable std::atomic<unsigned> rc_{0};
    mutable std::atomic<hash_t> hash_{0};
    friend void rc_inc(const Basic*);
    friend void rc_dec(const Basic*);

protected:
    TypeID type_code_;

public:
    explicit Basic(TypeID t) : type_code_(t) {}
    Basic(const Basic&) = delete;
    Basic& operator=(const Basic&) = delete;
    virtual ~Basic() = default;
    TypeID get_type_code() const { return type_code_; }
    hash_t hash() const {
        hash_t h = hash_.load(std::memory_order_relaxed);
        if (!h) {
            h = __hash__();
            if (!h) h = 1;
            hash_.store(h, std::memory_order_relaxed);
        }
        return h;
    }
    virtual hash_t __hash__() const = 0;
    bool __eq__(const Basic& o) const;
    bool __neq__(const Basic& o) const { return !__eq__(o); }
    int __cmp__(const Basic& o) const;
    virtual int compare(const Basic& o) const = 0; // same type
    virtual vec_basic get_args() const = 0;
    virtual void accept(Visitor& v) const = 0;
    std::string __str__() const;
    RCP<const Basic> rcp_from_this() const { return RCP<const Basic>(this); }
    template<class T>
    RCP<const T> rcp_from_this_cast() const { return RCP<const T>(static_cast<const T*>(this)); }
    RCP<const Basic> subs(const std::map<RCP<const Basic>, RCP<const Basic>, struct RCPBasicKeyLess>& d) const;
};
inline void rc_inc(const Basic* p) { p->rc_.fetch_add(1, std::memory_order_relaxed); }
inline void rc_dec(const Basic* p) {
    if (p->rc_.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p;
}

inline bool eq(const Basic& a, const Basic& b) { return a.__eq__(b); }
inline bool neq(const Basic& a, const Basic& b) { return !a.__eq__(b); }
template<class T>
bool is_a(const Basic& b) { return std::remove_const_t<T>::type_code_id == b.get_type_code(); }
template<class T>
bool is_a_sub(const Basic& b) { return dynamic_cast<const T*>(&b) != nullptr; }

struct RCPBasicHash {
    template<class T>
    size_t operator()(const RCP<T>& k) const { return k->hash(); }
};
struct RCPBasicKeyEq {
    template<class T, class U>
    bool operator()(const RCP<T>& a, const RCP<U>& b) const { return eq(*a, *b); }
};
struct RCPBasicKeyLess {
    template<class T, class U>
    bool operator()(const RCP<T>& a, const RCP<U>& b) const {
        if ((const void*) a.get() == (const void*) b.get()) return false;
        return a->__cmp__(*b) == -1;
    }
};
typedef std::set<RCP<const Basic>, RCPBasicKeyLess> set_basic;
typedef std::map<RCP<const Basic>, RCP<const Basic>, RCPBasicKeyLess> map_basic_basic;
typedef std::unordered_map<RCP<const Basic>, RCP<const Basic>, RCPBasicHash, RCPBasicKeyEq> umap_basic_basic;

#define MINISYM_ACCEPT(T, ID)                                                                                        \
    static constexpr TypeID type_code_id = ID;                                                                       \
    void accept(Visitor& v) const override;

// ---- numbers ----------------------------------------------------------------------------------------------
class Number : public Basic {
public:
    using Basic::Basic;
    vec_basic get_args() const override { return {}; }
    virtual bool is_zero() const = 0;
    virtual bool is_one() const = 0;
    virtual bool is_minus_one() const = 0;
    virtual bool is_negative() const = 0;
    virtual bool is_positive() const = 0;
};
typedef __int128 wide;
class Integer : public Number {
    wide i_;

public:
    MINISYM_ACCEPT(Integer, INTEGER)
    explicit Integer(wide i) : Number(INTEGER), i_(i) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    wide value() const { return i_; }
    long as_int() const {
        if (i_ > INT64_MAX || i_ < INT64_MIN) throw SymEngineException("as_int: Integer larger than int");
        return (long) i_;
    }
    unsigned long as_uint() const {
        if (i_ < 0 || i_ > UINT64_MAX) throw SymEngineException("as_uint: Integer larger than uint or negative");
        return (unsigned long) i_;
    }
    bool is_zero() const override { return i_ == 0; }
    bool is_one() const override { return i_ == 1; }
    bool is_minus_one() const override { return i_ == -1; }
    bool is_negative() const override { return i_ < 0; }
    bool is_positive() const override { return i_ > 0; }
};
class Rational : public Number {
    wide n_, d_;

public:
    MINISYM_ACCEPT(Rational, RATIONAL)
    Rational(wide n, wide d) : Number(RATIONAL), n_(n), d_(d) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    wide num() const { return n_; }
    wide den() const { return d_; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return n_ < 0; }
    bool is_positive() const override { return n_ > 0; }
};
class RealDouble : public Number {
public:
    double i;
    MINISYM_ACCEPT(RealDouble, REAL_DOUBLE)
    explicit RealDouble(double x) : Number(REAL_DOUBLE), i(x) {}
    double as_double() const { return i; }
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    bool is_zero() const override { return i == 0; }
    bool is_one() const override { return i == 1; }
    bool is_minus_one() const override { return i == -1; }
    bool is_negative() const override { return i < 0; }
    bool is_positive() const override { return i > 0; }
};
class Infty : public Number {
    int dir_;

public:
    MINISYM_ACCEPT(Infty, INFTY)
    explicit Infty(int dir) : Number(INFTY), dir_(dir) {}
    int dir() const { return dir_; }
    bool is_negative_infinity() const { return dir_ < 0; }
    bool is_positive_infinity() const { return dir_ > 0; }
    bool is_unsigned_infinity() const { return dir_ == 0; }
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return dir_ < 0; }
    bool is_positive() const override { return dir_ > 0; }
};
class NaN : public Number {
public:
    MINISYM_ACCEPT(NaN, NOT_A_NUMBER)
    NaN() : Number(NOT_A_NUMBER) {}
    hash_t __hash__() const override { return 0x4e614e; }
    int compare(const Basic&) const override { return 0; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return false; }
    bool is_positive() const override { return false; }
};
inline bool is_a_Number(const Basic& b) { return b.get_type_code() <= NOT_A_NUMBER; }
inline bool is_number_and_zero(const Basic& b) { return is_a_Number(b) && static_cast<const Number&>(b).is_zero(); }

// ---- atoms --------------------------------------------------------------------------------------------------
class Symbol : public Basic {
    std::string name_;

public:
    MINISYM_ACCEPT(Symbol, SYMBOL)
    explicit Symbol(const std::string& n) : Basic(SYMBOL), name_(n) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return {}; }
    const std::string& get_name() const { return name_; }
};
class Constant : public Basic {
    std::string name_;

public:
    MINISYM_ACCEPT(Constant, CONSTANT)
    explicit Constant(const std::string& n) : Basic(CONSTANT), name_(n) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return {}; }
    const std::string& get_name() const { return name_; }
};

// ---- arithmetic ---------------------------------------------------------------------------------------------
typedef std::map<RCP<const Basic>, RCP<const Number>, RCPBasicKeyLess> dict_num;
class Add : public Basic {
    RCP<const Number> coef_;
    dict_num dict_;

public:
    MINISYM_ACCEPT(Add, ADD)
    Add(const RCP<const Number>& c, dict_num d) : Basic(ADD), coef_(c), dict_(std::move(d)) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override;
    const RCP<const Number>& get_coef() const { return coef_; }
    const dict_num& get_dict() const { return dict_; }
};
class Mul : public Basic {
    RCP<const Number> coef_;
    map_basic_basic dict_;

public:
    MINISYM_ACCEPT(Mul, MUL)
    Mul(const RCP<const Number>& c, map_basic_basic d) : Basic(MUL), coef_(c), dict_(std::move(d)) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override;
    const RCP<const Number>& get_coef() const { return coef_; }
    const map_basic_basic& get_dict() const { return dict_; }
};
class Pow : public Basic {
    RCP<const Basic> base_, exp_;

public:
    MINISYM_ACCEPT(Pow, POW)
    Pow(const RCP<const Basic>& b, const RCP<const Basic>& e) : Basic(POW), base_(b), exp_(e) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return {base_, exp_}; }
    const RCP<const Basic>& get_base() const { return base_; }
    const RCP<const Basic>& get_exp() const { return exp_; }
};

// ---- functions ----------------------------------------------------------------------------------------------
class Function : public Basic {
public:
    using Basic::Basic;
};
class MultiArgFunction : public Function {
    vec_basic arg_;

public:
    MultiArgFunction(TypeID t, vec_basic a) : Function(t), arg_(std::move(a)) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return arg_; }
    const vec_basic& get_vec() const { return arg_; }
    virtual RCP<const Basic> create(const vec_basic& x) const = 0;
};
class FunctionSymbol : public MultiArgFunction {
protected:
    std::string name_;

public:
    MINISYM_ACCEPT(FunctionSymbol, FUNCTIONSYMBOL)
    FunctionSymbol(std::string name, const vec_basic& a) : MultiArgFunction(FUNCTIONSYMBOL, a), name_(std::move(name)) {}
    FunctionSymbol(std::string name, const RCP<const Basic>& a)
        : MultiArgFunction(FUNCTIONSYMBOL, vec_basic{a}), name_(std::move(name)) {}
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    const std::string& get_name() const { return name_; }
    RCP<const Basic> create(const vec_basic& x) const override { return make_rcp<const FunctionSymbol>(name_, x); }
};
class OneArgFunction : public MultiArgFunction {
public:
    OneArgFunction(TypeID t, const RCP<const Basic>& a) : MultiArgFunction(t, vec_basic{a}) {}
    RCP<const Basic> get_arg() const { return get_vec()[0]; }
};
class Ceiling : public OneArgFunction {
public:
    MINISYM_ACCEPT(Ceiling, CEILING)
    explicit Ceiling(const RCP<const Basic>& a) : OneArgFunction(CEILING, a) {}
    RCP<const Basic> create(const vec_basic& x) const override;
};
class Floor : public OneArgFunction {
public:
    MINISYM_ACCEPT(Floor, FLOOR)
    explicit Floor(const RCP<const Basic>& a) : OneArgFunction(FLOOR, a) {}
    RCP<const Basic> create(const vec_basic& x) const override;
};
class Abs : public OneArgFunction {
public:
    MINISYM_ACCEPT(Abs, ABS)
    explicit Abs(const RCP<const Basic>& a) : OneArgFunction(ABS, a) {}
    RCP<const Basic> create(const vec_basic& x) const override;
};
class Max : public MultiArgFunction {
public:
    MINISYM_ACCEPT(Max, MAX)
    explicit Max(vec_basic a) : MultiArgFunction(MAX, std::move(a)) {}
    RCP<const Basic> create(const vec_basic& x) const override;
};
class Min : public MultiArgFunction {
public:
    MINISYM_ACCEPT(Min, MIN)
    explicit Min(vec_basic a) : MultiArgFunction(MIN, std::move(a)) {}
    RCP<const Basic> create(const vec_basic& x) const override;
};

// ---- booleans -----------------------------------------------------------------------------------------------
class Boolean : public Basic {
public:
    using Basic::Basic;
    virtual RCP<const Boolean> logical_not() const = 0;
};
typedef std::set<RCP<const Boolean>, RCPBasicKeyLess> set_boolean;
class BooleanAtom : public Boolean {
    bool b_;

public:
    MINISYM_ACCEPT(BooleanAtom, BOOLEAN_ATOM)
    explicit BooleanAtom(bool b) : Boolean(BOOLEAN_ATOM), b_(b) {}
    bool get_val() const { return b_; }
    hash_t __hash__() const override { return b_ ? 0x77123 : 0x77124; }
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return {}; }
    RCP<const Boolean> logical_not() const override;
};
class Not : public Boolean {
    RCP<const Boolean> arg_;

public:
    MINISYM_ACCEPT(Not, NOT)
    explicit Not(const RCP<const Boolean>& a) : Boolean(NOT), arg_(a) {}
    RCP<const Boolean> get_arg() const { return arg_; }
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return {arg_}; }
    RCP<const Boolean> logical_not() const override { return arg_; }
};
class BoolSet : public Boolean {
    set_boolean c_;

public:
    BoolSet(TypeID t, set_boolean c) : Boolean(t), c_(std::move(c)) {}
    const set_boolean& get_container() const { return c_; }
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return vec_basic(c_.begin(), c_.end()); }
};
class And : public BoolSet {
public:
    MINISYM_ACCEPT(And, AND)
    explicit And(set_boolean c) : BoolSet(AND, std::move(c)) {}
    RCP<const Boolean> logical_not() const override;
};
class Or : public BoolSet {
public:
    MINISYM_ACCEPT(Or, OR)
    explicit Or(set_boolean c) : BoolSet(OR, std::move(c)) {}
    RCP<const Boolean> logical_not() const override;
};
class Relational : public Boolean {
    RCP<const Basic> a_, b_;

public:
    Relational(TypeID t, const RCP<const Basic>& a, const RCP<const Basic>& b) : Boolean(t), a_(a), b_(b) {}
    const RCP<const Basic>& get_arg1() const { return a_; }
    const RCP<const Basic>& get_arg2() const { return b_; }
    hash_t __hash__() const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return {a_, b_}; }
};
#define MINISYM_REL(T, ID)                                                                                           \
    class T : public Relational {                                                                                    \
    public:                                                                                                          \
        MINISYM_ACCEPT(T, ID)                                                                                        \
        T(const RCP<const Basic>& a, const RCP<const Basic>& b) : Relational(ID, a, b) {}                            \
        RCP<const Boolean> logical_not() const override;                                                             \
    };
MINISYM_REL(Equality, EQUALITY)
MINISYM_REL(Unequality, UNEQUALITY)
MINISYM_REL(LessThan, LESSTHAN)
MINISYM_REL(StrictLessThan, STRICTLESSTHAN)
inline bool is_a_Boolean(const Basic& b) { return b.get_type_code() >= BOOLEAN_ATOM; }
inline bool is_a_Relational(const Basic& b) { return b.get_type_code() >= EQUALITY; }

// ---- construction -------------------------------------------------------------------------------------------
RCP<const Integer> integer(long i);
RCP<const Number> rational(long n, long d);
RCP<const Number> number_of(wide n, wide d);
RCP<const RealDouble> real_double(double x);
RCP<const Infty> infty(int dir = 1);
RCP<const Symbol> symbol(const std::string& name);
RCP<const Basic> function_symbol(std::string name, const vec_basic& args);
RCP<const Basic> function_symbol(std::string name, const RCP<const Basic>& arg);
RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> add(const vec_basic& a);
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const vec_basic& a);
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> neg(const RCP<const Basic>& a);
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> ceiling(const RCP<const Basic>& a);
RCP<const Basic> floor(const RCP<const Basic>& a);
RCP<const Basic> abs(const RCP<const Basic>& a);
RCP<const Basic> max(const vec_basic& a);
RCP<const Basic> min(const vec_basic& a);
RCP<const BooleanAtom> boolean(bool b);
RCP<const Boolean> logical_and(const set_boolean& s);
RCP<const Boolean> logical_or(const set_boolean& s);
RCP<const Boolean> logical_not(const RCP<const Boolean>& s);
RCP<const Boolean> Eq(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Ne(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Lt(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Le(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Gt(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Ge(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> expand(const RCP<const Basic>& a, bool deep = true);
RCP<const Basic> simplify(const RCP<const Basic>& a);
RCP<const Basic> subs(const RCP<const Basic>& a, const map_basic_basic& d);
RCP<const Basic> parse(const std::string& s, bool convert_xor = true);
set_basic free_symbols(const Basic& b);
bool has_symbol(const Basic& b, const Basic& x);
void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d);
inline RCP<const Basic> Basic::subs(const map_basic_basic& d) const { return SymEngine::subs(rcp_from_this(), d); }

extern const RCP<const Integer> zero, one, minus_one;
extern const RCP<const Infty> Inf, NegInf, ComplexInf;
extern const RCP<const NaN> Nan;
extern const RCP<const Constant> E, pi;
extern const RCP<const BooleanAtom> boolTrue, boolFalse;

namespace detail {
template<class T>
struct is_basic : std::is_same<std::remove_const_t<T>, Basic> {};
template<class T>
void collect1(const Basic& b, set_basic& s) {
    if constexpr (is_basic<T>::value) s.insert(b.rcp_from_this());
    else if (is_a<T>(b)) s.insert(b.rcp_from_this());
    for (auto& a : b.get_args()) collect1<T>(*a, s);
}
} // namespace detail
template<class T>
set_basic atoms(const Basic& b) {
    set_basic s;
    detail::collect1<T>(b, s);
    return s;
}

// ---- polynomials --------------------------------------------------------------------------------------------
class Expression {
    RCP<const Basic> m_;

public:
    Expression() : m_(zero) {}
    // templates, so that only a string is reachable through a conversion of the argument
    template<class T>
    Expression(const RCP<T>& b) : m_(b) {}
    template<class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    Expression(I i) : m_(integer(i)) {}
    Expression(const std::string& s) : m_(parse(s)) {}
    const RCP<const Basic>& get_basic() const { return m_; }
    operator const RCP<const Basic>&() const { return m_; }
};
typedef std::vector<int> vec_int;
struct vec_int_hash {
    size_t operator()(const vec_int& v) const {
        size_t h = 0;
        for (int x : v) h = h * 31 + (size_t) x + 7;
        return h;
    }
};
class MExprDict {
public:
    std::unordered_map<vec_int, Expression, vec_int_hash> dict_;
    const std::unordered_map<vec_int, Expression, vec_int_hash>& get_dict() const { return dict_; }
};
class MExprPoly : public Basic {
    MExprDict poly_;
    set_basic vars_;

public:
    static constexpr TypeID type_code_id = FUNCTIONSYMBOL;
    MExprPoly(MExprDict p, set_basic v) : Basic(FUNCTIONSYMBOL), poly_(std::move(p)), vars_(std::move(v)) {}
    hash_t __hash__() const override { return 1; }
    int compare(const Basic&) const override { return 0; }
    vec_basic get_args() const override { return {}; }
    void accept(Visitor&) const override {}
    const MExprDict& get_poly() const { return poly_; }
    const set_basic& get_vars() const { return vars_; }
};
RCP<const MExprPoly> poly_from_basic(const RCP<const Basic>& b, const set_basic& gens);
template<class P>
RCP<const P> from_basic(const RCP<const Basic>& b, const set_basic& gens, bool = false) {
    return poly_from_basic(b, gens);
}

// ---- visitors and printers ----------------------------------------------------------------------------------
#define MINISYM_TYPES(X)                                                                                             \
    X(Integer) X(Rational) X(RealDouble) X(Infty) X(NaN) X(Constant) X(Symbol) X(Mul) X(Add) X(Pow)                  \
    X(FunctionSymbol) X(Ceiling) X(Floor) X(Abs) X(Max) X(Min) X(BooleanAtom) X(Not) X(And) X(Or) X(Equality)        \
    X(Unequality) X(LessThan) X(StrictLessThan)
class Visitor {
public:
    virtual ~Visitor() = default;
#define X(T) virtual void visit(const T&) = 0;
    MINISYM_TYPES(X)
#undef X
};
template<class Derived, class Base = Visitor>
class BaseVisitor : public Base {
public:
    using Base::Base;
#define X(T)                                                                                                         \
    void visit(const T& x) override { static_cast<Derived*>(this)->bvisit(x); }
    MINISYM_TYPES(X)
#undef X
};

class StrPrinter : public BaseVisitor<StrPrinter> {
protected:
    std::string str_;
    static std::string num(wide x);
    std::string parenthesize(const std::string& s) { return "(" + s + ")"; }
    std::string parenthesizeLT(const RCP<const Basic>& x, int prec); // lower binding than prec
    static int prec(const Basic& b); // 0: needs parentheses in a sum, 1: sum, 2: product, 3: power, 4: atom
    virtual void _print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b);
    virtual std::string print_mul() { return "*"; }
    std::string list(const vec_basic& v);

public:
    void bvisit(const Basic& x);
    void bvisit(const Integer& x);
    void bvisit(const Rational& x);
    void bvisit(const RealDouble& x);
    void bvisit(const Infty& x);
    void bvisit(const NaN& x);
    void bvisit(const Constant& x);
    void bvisit(const Symbol& x);
    void bvisit(const Mul& x);
    void bvisit(const Add& x);
    void bvisit(const Pow& x);
    void bvisit(const FunctionSymbol& x);
    void bvisit(const Ceiling& x);
    void bvisit(const Floor& x);
    void bvisit(const Abs& x);
    void bvisit(const Max& x);
    void bvisit(const Min& x);
    void bvisit(const BooleanAtom& x);
    void bvisit(const Not& x);
    void bvisit(const And& x);
    void bvisit(const Or& x);
    void bvisit(const Equality& x);
    void bvisit(const Unequality& x);
    void bvisit(const LessThan& x);
    void bvisit(const StrictLessThan& x);
    std::string apply(const RCP<const Basic>& b);
    std::string apply(const Basic& b);
    std::string apply(const vec_basic& v);
};
class CodePrinter : public BaseVisitor<CodePrinter, StrPrinter> {
public:
    using StrPrinter::apply;
    using StrPrinter::bvisit;
    using StrPrinter::str_;
    void bvisit(const Rational& x);
};
class C89CodePrinter : public BaseVisitor<C89CodePrinter, CodePrinter> {
public:
    using CodePrinter::apply;
    using CodePrinter::bvisit;
    using CodePrinter::str_;
};
class C99CodePrinter : public BaseVisitor<C99CodePrinter, C89CodePrinter> {
public:
    using C89CodePrinter::apply;
    using C89CodePrinter::bvisit;
    using C89CodePrinter::str_;
};
inline std::ostream& operator<<(std::ostream& o, const Basic& b) { return o << b.__str__(); }

} // namespace SymEngine
