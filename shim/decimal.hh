// Stand-in for libmpdec++: exact decimal arithmetic on an arbitrary-precision coefficient.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#define MPD_Clamped 0x1U
#define MPD_Conversion_syntax 0x2U
#define MPD_Division_by_zero 0x4U
#define MPD_Division_impossible 0x8U
#define MPD_Division_undefined 0x10U
#define MPD_Inexact 0x40U
#define MPD_Invalid_context 0x80U
#define MPD_Invalid_operation 0x100U
#define MPD_Not_implemented 0x400U
#define MPD_Overflow 0x800U
#define MPD_Rounded 0x1000U
#define MPD_Subnormal 0x2000U
#define MPD_Underflow 0x4000U
#define MPD_IEEE_Invalid_operation (MPD_Conversion_syntax | MPD_Division_impossible | MPD_Division_undefined | MPD_Invalid_context | MPD_Invalid_operation)
enum { MPD_ROUND_UP, MPD_ROUND_DOWN, MPD_ROUND_CEILING, MPD_ROUND_FLOOR, MPD_ROUND_HALF_UP, MPD_ROUND_HALF_DOWN, MPD_ROUND_HALF_EVEN, MPD_ROUND_05UP };
namespace decimal {
using cint = boost::multiprecision::cpp_int;
class Context {
public:
    [[nodiscard]] std::uint32_t status() const { return st_; }
    void clear_status() { st_ = 0; }
    void status(std::uint32_t s) { st_ = s; }
    void add_status(std::uint32_t s) { st_ |= s; }
    [[nodiscard]] int round() const { return rnd_; }
    void round(int r) { rnd_ = r; }
    [[nodiscard]] std::int64_t prec() const { return prec_; }
    void prec(std::int64_t p) { prec_ = p; }
    [[nodiscard]] std::int64_t emax() const { return emax_; }
    [[nodiscard]] std::int64_t emin() const { return emin_; }
    void emax(std::int64_t v) { emax_ = v; }
    void emin(std::int64_t v) { emin_ = v; }
    [[nodiscard]] std::string repr() const { return "Context(prec=" + std::to_string(prec_) + ")"; }
private:
    std::uint32_t st_{0}; int rnd_{MPD_ROUND_HALF_EVEN}; std::int64_t prec_{16}, emax_{999999}, emin_{-999999};
};
inline thread_local Context context{};
inline Context IEEEContext(int bits) { Context c; c.prec(9 * bits / 32 - 2); auto e = static_cast<std::int64_t>(3) << (bits / 16 + 3); c.emax(e); c.emin(1 - e); return c; }
struct ctriple { int tag; unsigned sign; std::uint64_t hi, lo; std::int64_t exp; };
struct raw_view { std::int64_t digits; std::int64_t exp; };
class Decimal {
public:
    Decimal() : nan_(true) {}
    template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0> Decimal(T v) : neg_(v < 0), c_(v) { if (neg_) c_ = -c_; } // NOLINT
    explicit Decimal(char const* s) { parse(s); }
    explicit Decimal(std::string const& s) { parse(s); }
    static Decimal make(bool neg, cint c, std::int64_t e) { Decimal d{0}; d.neg_ = neg; d.c_ = std::move(c); d.e_ = e; return d; }
    static Decimal from(bool neg, std::uint64_t hi, std::uint64_t lo, std::int64_t e) { cint c = hi; c <<= 64; c += lo; return make(neg, c, e); }
    static Decimal nan() { return Decimal{}; }
    static Decimal inf(bool neg) { Decimal d{0}; d.inf_ = true; d.neg_ = neg; return d; }
    [[nodiscard]] ctriple as_uint128_triple() const {
        if (nan_ || inf_ || (c_ >> 128) != 0) return ctriple{nan_ ? 2 : inf_ ? 1 : 4, neg_, 0, 0, 0};
        return ctriple{0, neg_, static_cast<std::uint64_t>(c_ >> 64), static_cast<std::uint64_t>(c_ & cint{std::numeric_limits<std::uint64_t>::max()}), e_};
    }
    [[nodiscard]] static std::int64_t ndigits(cint const& c) { return c == 0 ? 1 : static_cast<std::int64_t>(c.str().size()); }
    [[nodiscard]] raw_view const* get() const { rv_ = {ndigits(c_), e_}; return &rv_; }
    [[nodiscard]] bool isnan() const { return nan_; }
    [[nodiscard]] bool isinfinite() const { return inf_; }
    [[nodiscard]] bool isspecial() const { return nan_ || inf_; }
    [[nodiscard]] bool isfinite() const { return ! isspecial(); }
    [[nodiscard]] bool isinteger() const { return isfinite() && reduce().e_ >= 0; }
    [[nodiscard]] bool iszero() const { return ! isspecial() && c_ == 0; }
    [[nodiscard]] bool issigned() const { return neg_; }
    [[nodiscard]] std::int64_t adjexp() const { return e_ + ndigits(c_) - 1; }
    [[nodiscard]] std::int64_t exponent() const { return e_; }
    [[nodiscard]] Decimal coeff() const { return make(false, c_, 0); }
    [[nodiscard]] Decimal copy_sign(Decimal const& o) const { Decimal d{*this}; d.neg_ = o.neg_; return d; }
    [[nodiscard]] Decimal abs() const { Decimal d{*this}; d.neg_ = false; return d.fin(); }
    [[nodiscard]] Decimal scaleb(Decimal const& n) const { Decimal d{*this}; d.e_ += n.i64(); return d.fin(); }
    [[nodiscard]] Decimal scaleb(std::int64_t n) const { Decimal d{*this}; d.e_ += n; return d.fin(); }
    [[nodiscard]] Decimal reduce() const {
        if (isspecial()) return *this;
        Decimal d = fin();
        if (d.c_ == 0) { d.e_ = 0; return d; }
        while (d.c_ % 10 == 0) { d.c_ /= 10; ++d.e_; }
        return d;
    }
    [[nodiscard]] Decimal rescale(std::int64_t e) const { // result exponent e; no limit by the precision
        if (isspecial()) return nan();
        if (e > 999999999999999999LL || e < -1999999999999999997LL) { context.add_status(MPD_Invalid_operation); return nan(); }
        Decimal d{*this};
        if (e <= e_ || c_ == 0) { if (c_ != 0) d.c_ *= pow10(e_ - e); d.e_ = e; return d; }
        d.shift_right(e - e_); d.e_ = e;
        return d;
    }
    [[nodiscard]] Decimal quantize(Decimal const& o) const {
        auto d = rescale(o.e_);
        if (d.isfinite() && ndigits(d.c_) > context.prec()) { context.add_status(MPD_Invalid_operation); return nan(); }
        return d;
    }
    [[nodiscard]] Decimal to_integral() const { return e_ >= 0 || isspecial() ? *this : rescale(0); }
    [[nodiscard]] Decimal to_integral_exact() const { return e_ >= 0 || isspecial() ? *this : rescale(0); }
    [[nodiscard]] int sign() const { return neg_ ? -1 : 1; }
    [[nodiscard]] std::int64_t i64() const {
        auto d = rescale(0);
        if (isspecial() || d.c_ > cint{std::numeric_limits<std::int64_t>::max()} + (neg_ ? 1 : 0)) throw std::invalid_argument{"Decimal::i64"};
        cint v = neg_ ? cint{-d.c_} : d.c_; return static_cast<std::int64_t>(v);
    }
    [[nodiscard]] std::int32_t i32() const { auto v = i64(); if (v < INT32_MIN || v > INT32_MAX) throw std::invalid_argument{"Decimal::i32"}; return static_cast<std::int32_t>(v); }
    [[nodiscard]] std::string to_sci(bool = true) const {
        if (nan_) return "NaN";
        std::string s = neg_ ? "-" : "";
        if (inf_) return s + "Infinity";
        std::string c = c_.str();
        auto adj = adjexp();
        if (e_ <= 0 && adj >= -6) {
            if (e_ == 0) return s + c;
            auto p = static_cast<std::int64_t>(c.size()) + e_;
            if (p > 0) return s + c.substr(0, static_cast<std::size_t>(p)) + "." + c.substr(static_cast<std::size_t>(p));
            return s + "0." + std::string(static_cast<std::size_t>(-p), '0') + c;
        }
        return s + c.substr(0, 1) + (c.size() > 1 ? "." + c.substr(1) : "") + "E" + (adj >= 0 ? "+" : "") + std::to_string(adj);
    }
    [[nodiscard]] std::string to_eng() const { return to_sci(); } // the same number
    [[nodiscard]] std::string format(char const*) const { // "f" only
        if (isspecial() || e_ > 0) return (isspecial() ? *this : rescale(0)).to_sci();
        std::string c = c_.str(); auto f = static_cast<std::size_t>(-e_);
        if (c.size() <= f) c = std::string(f + 1 - c.size(), '0') + c;
        return std::string(neg_ ? "-" : "") + c.substr(0, c.size() - f) + (f ? "." + c.substr(c.size() - f) : "");
    }
    friend std::ostream& operator<<(std::ostream& o, Decimal const& d) { return o << d.to_sci(); }
    friend Decimal operator+(Decimal const& a, Decimal const& b) {
        if (a.nan_ || b.nan_ || (a.inf_ && b.inf_ && a.neg_ != b.neg_)) return bad();
        if (a.inf_) return a;
        if (b.inf_) return b;
        auto e = std::min(a.e_, b.e_);
        cint x = a.sc() * pow10(a.e_ - e), y = b.sc() * pow10(b.e_ - e), z = x + y;
        return make(z < 0 || (z == 0 && a.neg_ && b.neg_), boost::multiprecision::abs(z), e).fin();
    }
    friend Decimal operator-(Decimal const& a, Decimal const& b) { Decimal c{b}; if (! c.nan_) c.neg_ = ! c.neg_; return a + c; }
    friend Decimal operator*(Decimal const& a, Decimal const& b) {
        if (a.nan_ || b.nan_ || (a.inf_ && b.iszero()) || (b.inf_ && a.iszero())) return bad();
        if (a.inf_ || b.inf_) return inf(a.neg_ != b.neg_);
        return make(a.neg_ != b.neg_, a.c_ * b.c_, a.e_ + b.e_).fin();
    }
    friend Decimal operator/(Decimal const& a, Decimal const& b) {
        if (a.nan_ || b.nan_ || (a.inf_ && b.inf_)) return bad();
        bool n = a.neg_ != b.neg_;
        if (a.inf_) return inf(n);
        if (b.inf_) return make(n, 0, 0);
        if (b.c_ == 0) { context.add_status(a.c_ == 0 ? MPD_Division_undefined : MPD_Division_by_zero); return a.c_ == 0 ? nan() : inf(n); }
        auto ideal = a.e_ - b.e_;
        if (a.c_ == 0) return make(n, 0, ideal);
        auto sh = ndigits(b.c_) - ndigits(a.c_) + context.prec() + 1;
        if (sh < 0) sh = 0;
        cint num = a.c_ * pow10(sh), q = num / b.c_, r = num % b.c_;
        auto e = ideal - sh;
        if (r != 0) { if (q % 5 == 0) q += 1; } // sticky digit
        else while (e < ideal && q % 10 == 0) { q /= 10; ++e; }
        return make(n, q, e).fin();
    }
    friend Decimal operator%(Decimal const& a, Decimal const& b) {
        if (a.isspecial() || b.nan_) return bad();
        if (b.inf_) return a;
        if (b.c_ == 0) { context.add_status(a.c_ == 0 ? MPD_Division_undefined : MPD_Invalid_operation); return nan(); }
        auto e = std::min(a.e_, b.e_);
        cint x = a.c_ * pow10(a.e_ - e), y = b.c_ * pow10(b.e_ - e);
        if (ndigits(x / y) > context.prec()) { context.add_status(MPD_Division_impossible); return nan(); }
        return make(a.neg_, x % y, e).fin();
    }
    Decimal operator-() const { if (isspecial()) { Decimal d{*this}; d.neg_ = ! d.neg_; return d; } return (make(! neg_ && c_ != 0, c_, e_)).fin(); }
    Decimal operator+() const { return fin(); }
    Decimal& operator+=(Decimal const& o) { return *this = *this + o; }
    Decimal& operator-=(Decimal const& o) { return *this = *this - o; }
    Decimal& operator*=(Decimal const& o) { return *this = *this * o; }
    friend bool operator==(Decimal const& a, Decimal const& b) { return ! a.nan_ && ! b.nan_ && cmp(a, b) == 0; }
    friend bool operator!=(Decimal const& a, Decimal const& b) { return ! (a == b); }
    friend bool operator<(Decimal const& a, Decimal const& b) { return ! a.nan_ && ! b.nan_ && cmp(a, b) < 0; }
    friend bool operator>(Decimal const& a, Decimal const& b) { return b < a; }
    friend bool operator<=(Decimal const& a, Decimal const& b) { return ! a.nan_ && ! b.nan_ && cmp(a, b) <= 0; }
    friend bool operator>=(Decimal const& a, Decimal const& b) { return b <= a; }
private:
    bool neg_{false}, nan_{false}, inf_{false}; cint c_{0}; std::int64_t e_{0}; mutable raw_view rv_{};
    [[nodiscard]] cint sc() const { return neg_ ? cint{-c_} : c_; }
    static cint pow10(std::int64_t n) { return boost::multiprecision::pow(cint{10}, static_cast<unsigned>(n)); }
    static Decimal bad() { context.add_status(MPD_Invalid_operation); return nan(); }
    static int cmp(Decimal const& a, Decimal const& b) {
        if (a.inf_ || b.inf_) { int x = a.inf_ ? (a.neg_ ? -1 : 1) : 0, y = b.inf_ ? (b.neg_ ? -1 : 1) : 0; return x < y ? -1 : x > y ? 1 : 0; }
        if (a.c_ == 0 || b.c_ == 0 || a.neg_ != b.neg_) { int x = a.c_ == 0 ? 0 : a.neg_ ? -1 : 1, y = b.c_ == 0 ? 0 : b.neg_ ? -1 : 1; return x < y ? -1 : x > y ? 1 : 0; }
        if (a.adjexp() != b.adjexp()) return ((a.adjexp() < b.adjexp()) != a.neg_) ? -1 : 1;
        auto e = std::min(a.e_, b.e_);
        cint x = a.sc() * pow10(a.e_ - e), y = b.sc() * pow10(b.e_ - e);
        return x < y ? -1 : x > y ? 1 : 0;
    }
    void shift_right(std::int64_t n) { // divide the coefficient by 10^n with rounding
        context.add_status(MPD_Rounded);
        if (n > ndigits(c_) + 2) n = ndigits(c_) + 2;
        cint p = pow10(n), q = c_ / p, r = c_ % p;
        if (r != 0) {
            context.add_status(MPD_Inexact);
            cint h = r * 2; bool up = false;
            switch (context.round()) {
                case MPD_ROUND_UP: up = true; break;
                case MPD_ROUND_DOWN: break;
                case MPD_ROUND_CEILING: up = ! neg_; break;
                case MPD_ROUND_FLOOR: up = neg_; break;
                case MPD_ROUND_HALF_UP: up = h >= p; break;
                case MPD_ROUND_HALF_DOWN: up = h > p; break;
                case MPD_ROUND_05UP: up = q % 5 == 0; break;
                default: up = h > p || (h == p && q % 2 == 1);
            }
            if (up) q += 1;
        }
        c_ = q;
    }
    [[nodiscard]] Decimal fin() const { // round to the precision of the context
        Decimal d{*this};
        if (isspecial()) return d;
        auto n = ndigits(d.c_) - context.prec();
        if (n > 0) {
            d.shift_right(n); d.e_ += n;
            if (ndigits(d.c_) > context.prec()) { d.c_ /= 10; ++d.e_; }
        }
        if (d.c_ != 0 && d.adjexp() > context.emax()) { context.add_status(MPD_Overflow | MPD_Inexact | MPD_Rounded); return inf(d.neg_); }
        auto etiny = context.emin() - (context.prec() - 1);
        if (d.e_ < etiny && d.c_ != 0) { context.add_status(MPD_Subnormal); auto k = etiny - d.e_; d.shift_right(k); d.e_ = etiny; if (d.c_ == 0) context.add_status(MPD_Underflow | MPD_Clamped); }
        return d;
    }
    void parse(std::string const& s) {
        std::size_t i = 0; bool neg = false;
        auto fail = [&] { context.add_status(MPD_Conversion_syntax); nan_ = true; c_ = 0; };
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        std::string rest; for (auto k = i; k < s.size(); ++k) rest += static_cast<char>(s[k] >= 'A' && s[k] <= 'Z' ? s[k] + 32 : s[k]);
        if (rest == "inf" || rest == "infinity") { inf_ = true; neg_ = neg; return; }
        if (rest.rfind("nan", 0) == 0 || rest.rfind("snan", 0) == 0) {
            for (auto k = rest.find("nan") + 3; k < rest.size(); ++k) if (rest[k] < '0' || rest[k] > '9') return fail();
            nan_ = true; neg_ = neg; return;
        }
        std::string dg; std::int64_t e = 0; bool dot = false, any = false;
        for (; i < s.size(); ++i) {
            if (s[i] >= '0' && s[i] <= '9') { dg += s[i]; any = true; if (dot) --e; }
            else if (s[i] == '.' && ! dot) dot = true;
            else break;
        }
        if (! any) return fail();
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            ++i; bool en = false; std::int64_t x = 0; bool ed = false;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) en = s[i++] == '-';
            for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { ed = true; if (x < 100000000000000LL) x = x * 10 + (s[i] - '0'); }
            if (! ed) return fail();
            e += en ? -x : x;
        }
        if (i != s.size()) return fail();
        auto k = dg.find_first_not_of('0');
        c_ = k == std::string::npos ? cint{0} : cint{dg.substr(k)}; e_ = e; neg_ = neg; // exact
    }
};
} // namespace decimal
