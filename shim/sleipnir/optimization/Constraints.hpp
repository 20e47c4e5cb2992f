// Assumed interface of Sleipnir; see Variable.hpp.
#pragma once

#include <initializer_list>
#include <vector>

#include <sleipnir/autodiff/Variable.hpp>

namespace sleipnir {

/// A conjunction of constraints of the form "expression = 0".
struct EqualityConstraints {
  std::vector<Variable> constraints;

  EqualityConstraints(std::initializer_list<EqualityConstraints> list) {
    for (const auto& c : list) {
      constraints.insert(constraints.end(), c.constraints.begin(),
                         c.constraints.end());
    }
  }
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& list) {
    for (const auto& c : list) {
      constraints.insert(constraints.end(), c.constraints.begin(),
                         c.constraints.end());
    }
  }
  EqualityConstraints(const Variable& lhs, const Variable& rhs)
      : constraints{lhs - rhs} {}
};

/// A conjunction of constraints of the form "expression >= 0".
struct InequalityConstraints {
  std::vector<Variable> constraints;

  InequalityConstraints(std::initializer_list<InequalityConstraints> list) {
    for (const auto& c : list) {
      constraints.insert(constraints.end(), c.constraints.begin(),
                         c.constraints.end());
    }
  }
  explicit InequalityConstraints(
      const std::vector<InequalityConstraints>& list) {
    for (const auto& c : list) {
      constraints.insert(constraints.end(), c.constraints.begin(),
                         c.constraints.end());
    }
  }
  InequalityConstraints(const Variable& lhs, const Variable& rhs)
      : constraints{lhs - rhs} {}
};

inline EqualityConstraints operator==(const Variable& lhs,
                                      const Variable& rhs) {
  return EqualityConstraints(lhs, rhs);
}
inline InequalityConstraints operator>=(const Variable& lhs,
                                        const Variable& rhs) {
  return InequalityConstraints(lhs, rhs);
}
inline InequalityConstraints operator<=(const Variable& lhs,
                                        const Variable& rhs) {
  return InequalityConstraints(rhs, lhs);
}
inline InequalityConstraints operator>(const Variable& lhs,
                                       const Variable& rhs) {
  return InequalityConstraints(lhs, rhs);
}
inline InequalityConstraints operator<(const Variable& lhs,
                                       const Variable& rhs) {
  return InequalityConstraints(rhs, lhs);
}

}  // namespace sleipnir
