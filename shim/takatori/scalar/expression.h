#pragma once
#include <cstddef>
#include <memory>
#include <ostream>
#include <utility>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/descriptor/element.h>
#include <takatori/type/data.h>
#include <takatori/value/data.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
class expression { public: virtual ~expression() = default; [[nodiscard]] virtual expression_kind kind() const noexcept = 0; };
using eptr = std::shared_ptr<expression const>;
template <expression_kind K> class base : public expression { public: static constexpr expression_kind tag = K; [[nodiscard]] expression_kind kind() const noexcept override { return K; } };
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal, is_not_distinct_from, is_distinct_from };
enum class match_operator { like, similar };
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error };
inline std::ostream& operator<<(std::ostream& o, comparison_operator k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << static_cast<int>(k); }
class immediate : public base<expression_kind::immediate> {
public:
    immediate(std::shared_ptr<value::data const> v, std::shared_ptr<type::data const> t) : v_(std::move(v)), t_(std::move(t)) {}
    [[nodiscard]] value::data const& value() const { return *v_; }
    [[nodiscard]] type::data const& type() const { return *t_; }
private: std::shared_ptr<value::data const> v_; std::shared_ptr<type::data const> t_;
};
class variable_reference : public base<expression_kind::variable_reference> {
public:
    explicit variable_reference(descriptor::variable v) : v_(std::move(v)) {}
    [[nodiscard]] descriptor::variable const& variable() const { return v_; }
private: descriptor::variable v_;
};
class unary : public base<expression_kind::unary> {
public:
    using operator_kind_type = unary_operator;
    unary(unary_operator o, eptr e) : o_(o), e_(std::move(e)) {}
    [[nodiscard]] unary_operator operator_kind() const { return o_; }
    [[nodiscard]] expression const& operand() const { return *e_; }
private: unary_operator o_; eptr e_;
};
class cast : public base<expression_kind::cast> {
public:
    using loss_policy_type = cast_loss_policy;
    cast(std::shared_ptr<type::data const> t, cast_loss_policy p, eptr e) : t_(std::move(t)), p_(p), e_(std::move(e)) {}
    [[nodiscard]] type::data const& type() const { return *t_; }
    [[nodiscard]] cast_loss_policy loss_policy() const { return p_; }
    [[nodiscard]] expression const& operand() const { return *e_; }
private: std::shared_ptr<type::data const> t_; cast_loss_policy p_; eptr e_;
};
class binary : public base<expression_kind::binary> {
public:
    using operator_kind_type = binary_operator;
    binary(binary_operator o, eptr l, eptr r) : o_(o), l_(std::move(l)), r_(std::move(r)) {}
    [[nodiscard]] binary_operator operator_kind() const { return o_; }
    [[nodiscard]] expression const& left() const { return *l_; }
    [[nodiscard]] expression const& right() const { return *r_; }
private: binary_operator o_; eptr l_, r_;
};
class compare : public base<expression_kind::compare> {
public:
    using operator_kind_type = comparison_operator;
    compare(comparison_operator o, eptr l, eptr r) : o_(o), l_(std::move(l)), r_(std::move(r)) {}
    [[nodiscard]] comparison_operator operator_kind() const { return o_; }
    [[nodiscard]] expression const& left() const { return *l_; }
    [[nodiscard]] expression const& right() const { return *r_; }
private: comparison_operator o_; eptr l_, r_;
};
class match : public base<expression_kind::match> {
public:
    using operator_kind_type = match_operator;
    match(match_operator o, eptr i, eptr p, eptr e) : o_(o), i_(std::move(i)), p_(std::move(p)), e_(std::move(e)) {}
    [[nodiscard]] match_operator operator_kind() const { return o_; }
    [[nodiscard]] expression const& input() const { return *i_; }
    [[nodiscard]] expression const& pattern() const { return *p_; }
    [[nodiscard]] expression const& escape() const { return *e_; }
private: match_operator o_; eptr i_, p_, e_;
};
// a list of expressions seen as a list of references
class expression_list {
public:
    explicit expression_list(std::vector<eptr> v) : v_(std::move(v)) {}
    struct iterator { std::vector<eptr>::const_iterator i; expression const& operator*() const { return **i; } iterator& operator++() { ++i; return *this; } bool operator!=(iterator const& o) const { return i != o.i; } bool operator==(iterator const& o) const { return i == o.i; } };
    [[nodiscard]] iterator begin() const { return {v_.begin()}; }
    [[nodiscard]] iterator end() const { return {v_.end()}; }
    [[nodiscard]] std::size_t size() const { return v_.size(); }
    [[nodiscard]] bool empty() const { return v_.empty(); }
    expression const& operator[](std::size_t i) const { return *v_[i]; }
private: std::vector<eptr> v_;
};
class conditional : public base<expression_kind::conditional> {
public:
    class alternative { public: alternative(eptr c, eptr b) : c_(std::move(c)), b_(std::move(b)) {} [[nodiscard]] expression const& condition() const { return *c_; } [[nodiscard]] expression const& body() const { return *b_; } private: eptr c_, b_; };
    conditional(std::vector<alternative> a, eptr d) : a_(std::move(a)), d_(std::move(d)) {}
    [[nodiscard]] std::vector<alternative> const& alternatives() const { return a_; }
    [[nodiscard]] util::optional_ptr<expression const> default_expression() const { return util::optional_ptr<expression const>(d_.get()); }
private: std::vector<alternative> a_; eptr d_;
};
class coalesce : public base<expression_kind::coalesce> {
public:
    explicit coalesce(std::vector<eptr> a) : a_(std::move(a)) {}
    [[nodiscard]] expression_list const& alternatives() const { return a_; }
private: expression_list a_;
};
class let : public base<expression_kind::let> {};
class function_call : public base<expression_kind::function_call> {
public:
    function_call(descriptor::function f, std::vector<eptr> a) : f_(std::move(f)), a_(std::move(a)) {}
    [[nodiscard]] descriptor::function const& function() const { return f_; }
    [[nodiscard]] expression_list const& arguments() const { return a_; }
private: descriptor::function f_; expression_list a_;
};
class extension : public base<expression_kind::extension> {};
template <class C, class... A> auto dispatch(C&& c, expression const& e, A&&... a) {
    switch (e.kind()) {
        case expression_kind::immediate: return c(static_cast<immediate const&>(e), std::forward<A>(a)...);
        case expression_kind::variable_reference: return c(static_cast<variable_reference const&>(e), std::forward<A>(a)...);
        case expression_kind::unary: return c(static_cast<unary const&>(e), std::forward<A>(a)...);
        case expression_kind::cast: return c(static_cast<cast const&>(e), std::forward<A>(a)...);
        case expression_kind::binary: return c(static_cast<binary const&>(e), std::forward<A>(a)...);
        case expression_kind::compare: return c(static_cast<compare const&>(e), std::forward<A>(a)...);
        case expression_kind::match: return c(static_cast<match const&>(e), std::forward<A>(a)...);
        case expression_kind::conditional: return c(static_cast<conditional const&>(e), std::forward<A>(a)...);
        case expression_kind::coalesce: return c(static_cast<coalesce const&>(e), std::forward<A>(a)...);
        case expression_kind::let: return c(static_cast<let const&>(e), std::forward<A>(a)...);
        case expression_kind::function_call: return c(static_cast<function_call const&>(e), std::forward<A>(a)...);
        case expression_kind::extension: return c(static_cast<extension const&>(e), std::forward<A>(a)...);
    }
    std::abort();
}
} // namespace takatori::scalar
