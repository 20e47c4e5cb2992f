// Assumed interface of Sleipnir (commit 346ef361) used by TrajoptLib.
//
// /repo is built against Sleipnir, which cannot be fetched here.  This header
// declares only the part of its interface TrajoptLib uses, with the semantics
// TrajoptLib relies on (an expression graph over real-valued decision
// variables).  It is used (a) to let clang parse /repo's real sources and (b)
// to execute them when replaying a counterexample.  The deductive verifier does
// not look at the bodies below: it uses the contracts in
// /verif/cppvc/libmodel.py for these declarations.
#pragma once

#include <cmath>
#include <concepts>
#include <cstddef>
#include <limits>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>

namespace sleipnir {

namespace detail {

enum class Op {
  kConst, kDecision, kAdd, kSub, kMul, kDiv, kNeg, kSign, kHypot, kCos, kSin,
  kAtan2, kSqrt, kAbs, kPow, kTan, kAsin, kAcos, kAtan, kExp, kLog
};

struct Expression {
  Op op = Op::kConst;
  double value = 0.0;
  std::size_t id = 0;  // decision variable number
  std::shared_ptr<Expression> lhs;
  std::shared_ptr<Expression> rhs;

  double Eval() const {
    switch (op) {
      case Op::kConst:
      case Op::kDecision:
        return value;
      case Op::kAdd:
        return lhs->Eval() + rhs->Eval();
      case Op::kSub:
        return lhs->Eval() - rhs->Eval();
      case Op::kMul:
        return lhs->Eval() * rhs->Eval();
      case Op::kDiv:
        return lhs->Eval() / rhs->Eval();
      case Op::kNeg:
        return -lhs->Eval();
      case Op::kSign: {
        double v = lhs->Eval();
        return v < 0.0 ? -1.0 : (v > 0.0 ? 1.0 : 0.0);
      }
      case Op::kHypot:
        return std::hypot(lhs->Eval(), rhs->Eval());
      case Op::kCos:
        return std::cos(lhs->Eval());
      case Op::kSin:
        return std::sin(lhs->Eval());
      case Op::kAtan2:
        return std::atan2(lhs->Eval(), rhs->Eval());
      case Op::kSqrt:
        return std::sqrt(lhs->Eval());
      case Op::kAbs:
        return std::abs(lhs->Eval());
      case Op::kPow:
        return std::pow(lhs->Eval(), rhs->Eval());
      case Op::kTan:
        return std::tan(lhs->Eval());
      case Op::kAsin:
        return std::asin(lhs->Eval());
      case Op::kAcos:
        return std::acos(lhs->Eval());
      case Op::kAtan:
        return std::atan(lhs->Eval());
      case Op::kExp:
        return std::exp(lhs->Eval());
      case Op::kLog:
        return std::log(lhs->Eval());
    }
    return 0.0;
  }
};

using ExpressionPtr = std::shared_ptr<Expression>;

inline ExpressionPtr MakeConst(double v) {
  auto e = std::make_shared<Expression>();
  e->value = v;
  return e;
}

inline ExpressionPtr MakeOp(Op op, ExpressionPtr l, ExpressionPtr r = nullptr) {
  auto e = std::make_shared<Expression>();
  e->op = op;
  e->lhs = std::move(l);
  e->rhs = std::move(r);
  return e;
}

}  // namespace detail

/// An autodiff variable: a shared handle to an expression node.
class Variable {
 public:
  Variable() : expr{detail::MakeConst(0.0)} {}
  Variable(double value) : expr{detail::MakeConst(value)} {}  // NOLINT
  Variable(int value)                                         // NOLINT
      : expr{detail::MakeConst(static_cast<double>(value))} {}
  explicit Variable(detail::ExpressionPtr e) : expr{std::move(e)} {}

  Variable& SetValue(double value) {
    expr->value = value;
    return *this;
  }
  double Value() const { return expr->Eval(); }

  Variable& operator+=(const Variable& rhs) {
    *this = Variable{detail::MakeOp(detail::Op::kAdd, expr, rhs.expr)};
    return *this;
  }
  Variable& operator-=(const Variable& rhs) {
    *this = Variable{detail::MakeOp(detail::Op::kSub, expr, rhs.expr)};
    return *this;
  }
  Variable& operator*=(const Variable& rhs) {
    *this = Variable{detail::MakeOp(detail::Op::kMul, expr, rhs.expr)};
    return *this;
  }
  Variable& operator/=(const Variable& rhs) {
    *this = Variable{detail::MakeOp(detail::Op::kDiv, expr, rhs.expr)};
    return *this;
  }

  friend Variable operator+(const Variable& lhs, const Variable& rhs) {
    return Variable{detail::MakeOp(detail::Op::kAdd, lhs.expr, rhs.expr)};
  }
  friend Variable operator-(const Variable& lhs, const Variable& rhs) {
    return Variable{detail::MakeOp(detail::Op::kSub, lhs.expr, rhs.expr)};
  }
  friend Variable operator*(const Variable& lhs, const Variable& rhs) {
    return Variable{detail::MakeOp(detail::Op::kMul, lhs.expr, rhs.expr)};
  }
  friend Variable operator/(const Variable& lhs, const Variable& rhs) {
    return Variable{detail::MakeOp(detail::Op::kDiv, lhs.expr, rhs.expr)};
  }
  friend Variable operator-(const Variable& rhs) {
    return Variable{detail::MakeOp(detail::Op::kNeg, rhs.expr)};
  }
  friend Variable operator+(const Variable& rhs) { return rhs; }

  detail::ExpressionPtr expr;
};

inline Variable sign(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kSign, x.expr)};
}
inline Variable abs(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kAbs, x.expr)};
}
inline Variable sqrt(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kSqrt, x.expr)};
}
inline Variable cos(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kCos, x.expr)};
}
inline Variable sin(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kSin, x.expr)};
}
inline Variable hypot(const Variable& x, const Variable& y) {
  return Variable{detail::MakeOp(detail::Op::kHypot, x.expr, y.expr)};
}
inline Variable atan2(const Variable& y, const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kAtan2, y.expr, x.expr)};
}
inline Variable pow(const Variable& base, const Variable& power) {
  return Variable{detail::MakeOp(detail::Op::kPow, base.expr, power.expr)};
}
inline Variable tan(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kTan, x.expr)};
}
inline Variable asin(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kAsin, x.expr)};
}
inline Variable acos(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kAcos, x.expr)};
}
inline Variable atan(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kAtan, x.expr)};
}
inline Variable exp(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kExp, x.expr)};
}
inline Variable log(const Variable& x) {
  return Variable{detail::MakeOp(detail::Op::kLog, x.expr)};
}
inline Variable hypot(const Variable& x, const Variable& y,
                      const Variable& z) {
  return sqrt(x * x + y * y + z * z);
}

}  // namespace sleipnir

#include <sleipnir/optimization/Constraints.hpp>
