// Assumed interface of Sleipnir; see Variable.hpp.
#pragma once

#include <initializer_list>
#include <vector>

#include <sleipnir/autodiff/Variable.hpp>

namespace sleipnir {

class VariableMatrix {
 public:
  VariableMatrix(  // NOLINT
      std::initializer_list<std::initializer_list<Variable>> list) {
    for (const auto& row : list) {
      rows.emplace_back(row);
    }
  }

  std::vector<std::vector<Variable>> rows;
};

inline EqualityConstraints operator==(const VariableMatrix& lhs,
                                      const VariableMatrix& rhs) {
  std::vector<EqualityConstraints> c;
  for (std::size_t i = 0; i < lhs.rows.size(); ++i) {
    for (std::size_t j = 0; j < lhs.rows[i].size(); ++j) {
      c.emplace_back(lhs.rows[i][j] == rhs.rows.at(i).at(j));
    }
  }
  return EqualityConstraints{c};
}

}  // namespace sleipnir
