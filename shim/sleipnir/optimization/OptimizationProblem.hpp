// Assumed interface of Sleipnir; see ../autodiff/Variable.hpp.
//
// Solve() is replaced by a scripted solver: when executing TrajoptLib for a
// replay, the harness decides what the "solver" does through SolveHook().
#pragma once

#include <chrono>
#include <cmath>
#include <cstddef>
#include <functional>
#include <limits>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include <sleipnir/autodiff/Variable.hpp>
#include <sleipnir/autodiff/VariableMatrix.hpp>
#include <sleipnir/optimization/Constraints.hpp>

namespace sleipnir {

enum class SolverExitCondition {
  kSuccess = 0,
  kSolvedToAcceptableTolerance = 1,
  kCallbackRequestedStop = 2,
  kTooFewDOFs = -1,
  kLocallyInfeasible = -2,
  kFeasibilityRestorationFailed = -3,
  kNonfiniteInitialCostOrConstraints = -4,
  kDivergingIterates = -5,
  kMaxIterationsExceeded = -6,
  kTimeout = -7
};

inline constexpr std::string_view ToMessage(SolverExitCondition c) {
  switch (c) {
    case SolverExitCondition::kSuccess:
      return "solved to desired tolerance";
    case SolverExitCondition::kSolvedToAcceptableTolerance:
      return "solved to acceptable tolerance";
    case SolverExitCondition::kCallbackRequestedStop:
      return "callback requested stop";
    case SolverExitCondition::kTooFewDOFs:
      return "problem has too few degrees of freedom";
    case SolverExitCondition::kLocallyInfeasible:
      return "problem is locally infeasible";
    case SolverExitCondition::kFeasibilityRestorationFailed:
      return "solver failed to reach the desired tolerance, and feasibility "
             "restoration failed to converge";
    case SolverExitCondition::kNonfiniteInitialCostOrConstraints:
      return "nonfinite initial cost or constraints";
    case SolverExitCondition::kDivergingIterates:
      return "diverging iterates";
    case SolverExitCondition::kMaxIterationsExceeded:
      return "solution returned after maximum iterations exceeded";
    case SolverExitCondition::kTimeout:
      return "solution returned after maximum wall clock time exceeded";
  }
  return "unknown";
}

struct SolverConfig {
  double tolerance = 1e-8;
  int maxIterations = 5000;
  double acceptableTolerance = 1e-6;
  int maxAcceptableIterations = 15;
  std::chrono::duration<double> timeout{
      std::numeric_limits<double>::infinity()};
  bool feasibleIPM = false;
  bool diagnostics = false;
  bool spy = false;
};

struct SolverStatus {
  SolverExitCondition exitCondition = SolverExitCondition::kSuccess;
  double cost = 0.0;
};

struct SolverIterationInfo {
  int iteration = 0;
};

class OptimizationProblem {
 public:
  OptimizationProblem() { Last() = this; }
  OptimizationProblem(const OptimizationProblem&) = default;
  OptimizationProblem& operator=(const OptimizationProblem&) = default;

  Variable DecisionVariable() {
    Variable v{0.0};
    v.expr->op = detail::Op::kDecision;
    v.expr->id = decisionVariables.size();
    decisionVariables.push_back(v);
    return v;
  }

  void Minimize(const Variable& cost) { objective = cost; }
  void Maximize(const Variable& obj) { objective = -obj; }

  void SubjectTo(const EqualityConstraints& c) {
    equality.insert(equality.end(), c.constraints.begin(),
                    c.constraints.end());
  }
  void SubjectTo(const InequalityConstraints& c) {
    inequality.insert(inequality.end(), c.constraints.begin(),
                      c.constraints.end());
  }

  template <typename F>
    requires std::invocable<F, const SolverIterationInfo&>
  void Callback(F&& f) {
    callback = [fn = std::forward<F>(f)](
                   const SolverIterationInfo& info) mutable -> bool {
      if constexpr (std::same_as<std::invoke_result_t<
                                     F, const SolverIterationInfo&>,
                                 void>) {
        fn(info);
        return false;
      } else {
        return fn(info);
      }
    };
  }

  SolverStatus Solve(const SolverConfig& config = SolverConfig{}) {
    lastConfig = config;
    Last() = this;
    if (SolveHook()) {
      return SolveHook()(*this);
    }
    return SolverStatus{};
  }

  // --- Observation points for the replay harness (not part of Sleipnir) ---
  static OptimizationProblem*& Last() {
    static OptimizationProblem* last = nullptr;
    return last;
  }
  static std::function<SolverStatus(OptimizationProblem&)>& SolveHook() {
    static std::function<SolverStatus(OptimizationProblem&)> hook;
    return hook;
  }

  std::vector<Variable> decisionVariables;
  std::vector<Variable> equality;
  std::vector<Variable> inequality;
  std::optional<Variable> objective;
  std::function<bool(const SolverIterationInfo&)> callback;
  SolverConfig lastConfig;
};

}  // namespace sleipnir
