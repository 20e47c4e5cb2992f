"""More mutants and refactorings: optional, tuples, searching, sorting."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sixth_table import *  # noqa: E402,F401,F403
from sixth_table import G, GH, BC, BH, F, RS, U, HT, m, e  # noqa: E402

GG = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
INC = ("#include <algorithm>\n#include <chrono>\n", "#include <algorithm>\n#include <chrono>\n#include <numeric>\n#include <optional>\n#include <tuple>\n")
WIDTH = open("/repo/" + G).read()
WIDTH = WIDTH[WIDTH.index("  double minWidth = INFINITY;"):WIDTH.index("  for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {\n    dt.emplace_back")]
UNSET = """    if (minWidth == INFINITY) {
      continue;
    }
"""
LIM = """    for (auto module : path.drivetrain.modules) {
      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
                            module.wheelMaxAngularVelocity <=
                        minWidth);
    }
"""
OPTW = """  std::optional<double> minWidth;
  for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
    for (size_t j = 0; j < i; j++) {
      const auto& a = path.drivetrain.modules.at(j).translation;
      const auto& b = path.drivetrain.modules.at(i).translation;
      for (double d : {std::abs(a.X() - b.X()), std::abs(a.Y() - b.Y())}) {
        if (d != 0 && (!minWidth || d < *minWidth)) {
          minWidth = d;
        }
      }
    }
  }

"""
e("g-width-opt", ["C15"], (G, *INC), (G, WIDTH, OPTW), (G, UNSET, "    if (!minWidth) {\n      continue;\n    }\n"), (G, LIM, LIM.replace("minWidth)", "*minWidth)")))
m("g-width-opt1", ["C15"], (G, *INC), (G, WIDTH, OPTW.replace("!minWidth || d < *minWidth", "!minWidth || (d < *minWidth && j + 1 == i)")), (G, UNSET, "    if (!minWidth) {\n      continue;\n    }\n"), (G, LIM, LIM.replace("minWidth)", "*minWidth)")))
HELPER = """static std::optional<double> MinWidth(const std::vector<SwerveModule>& modules) {
  double minWidth = INFINITY;
  for (size_t i = 1; i < modules.size(); i++) {
    for (size_t j = 0; j < i; j++) {
      double dx = std::abs(modules.at(j).translation.X() - modules.at(i).translation.X());
      double dy = std::abs(modules.at(j).translation.Y() - modules.at(i).translation.Y());
      if (dx != 0) {
        minWidth = std::min(minWidth, dx);
      }
      if (dy != 0) {
        minWidth = std::min(minWidth, dy);
      }
    }
  }
  if (minWidth == INFINITY) {
    return std::nullopt;
  }
  return minWidth;
}

"""
CTOR = "SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(\n"
e("g-width-opthelper", ["C15"], (G, *INC), (G, CTOR, HELPER + CTOR), (G, WIDTH, "  const std::optional<double> minWidth = MinWidth(path.drivetrain.modules);\n"),
  (G, UNSET, "    if (!minWidth.has_value()) {\n      continue;\n    }\n"), (G, LIM, LIM.replace("minWidth)", "minWidth.value())")))
e("g-width-optif", ["C15"], (G, *INC), (G, CTOR, HELPER + CTOR), (G, WIDTH, "  const auto minWidth = MinWidth(path.drivetrain.modules);\n"),
  (G, UNSET, ""), (G, LIM, "    if (minWidth) {\n" + LIM.replace("minWidth)", "*minWidth)") + "    }\n"))
m("g-width-optif1", ["C15"], (G, *INC), (G, CTOR, HELPER.replace("if (dy != 0) {", "if (dy != 0 && dx == 0) {") + CTOR), (G, WIDTH, "  const auto minWidth = MinWidth(path.drivetrain.modules);\n"),
  (G, UNSET, ""), (G, LIM, "    if (minWidth) {\n" + LIM.replace("minWidth)", "*minWidth)") + "    }\n"))
# the failing status as an optional message
STAT = """  if (static_cast<int>(status.exitCondition) < 0 ||
      status.exitCondition ==
          sleipnir::SolverExitCondition::kCallbackRequestedStop) {
    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};
  } else {
    return ConstructSwerveSolution();
  }
"""
FAIL = """static std::optional<std::string> FailureReason(
    sleipnir::SolverExitCondition condition) {
  if (static_cast<int>(condition) >= 0 &&
      condition != sleipnir::SolverExitCondition::kCallbackRequestedStop) {
    return std::nullopt;
  }
  return std::string{sleipnir::ToMessage(condition)};
}

"""
GEN = "expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(\n"
e("g-gen-reason", ["C18"], (G, *INC), (G, GEN, FAIL + GEN), (G, STAT, "  if (auto reason = FailureReason(status.exitCondition)) {\n    return unexpected{*reason};\n  }\n  return ConstructSwerveSolution();\n"))
m("g-gen-reason1", ["C18"], (G, *INC), (G, GEN, FAIL.replace("static_cast<int>(condition) >= 0 &&", "static_cast<int>(condition) >= -1 &&") + GEN),
  (G, STAT, "  if (auto reason = FailureReason(status.exitCondition)) {\n    return unexpected{*reason};\n  }\n  return ConstructSwerveSolution();\n"))
# GetIndex through an optional argument
e("g-idx-opt", ["C01"], (U, "re:size_t sampIndex = 0\\) \\{", "size_t sampIndex = 0) {\n  // sample of waypoint"))
# several lists appended at once
APP = """    x.emplace_back(problem.DecisionVariable());
    y.emplace_back(problem.DecisionVariable());
    thetacos.emplace_back(problem.DecisionVariable());
    thetasin.emplace_back(problem.DecisionVariable());
    vx.emplace_back(problem.DecisionVariable());
    vy.emplace_back(problem.DecisionVariable());
    omega.emplace_back(problem.DecisionVariable());
    ax.emplace_back(problem.DecisionVariable());
    ay.emplace_back(problem.DecisionVariable());
    alpha.emplace_back(problem.DecisionVariable());
"""
e("g-dec-tie", ["C12", "C17"], (G, *INC), (G, APP, """    auto append = [this](auto&... lists) {
      (lists.emplace_back(problem.DecisionVariable()), ...);
    };
    append(x, y, thetacos, thetasin, vx, vy, omega, ax, ay, alpha);
"""))
e("g-dec-apply", ["C12"], (G, *INC), (G, APP, """    std::apply(
        [this](auto&... lists) {
          (lists.emplace_back(problem.DecisionVariable()), ...);
        },
        std::tie(x, y, thetacos, thetasin, vx, vy, omega, ax, ay, alpha));
"""))
# state of a sample as a tuple
ST = """        Pose2v pose{
            x.at(index), y.at(index), {thetacos.at(index), thetasin.at(index)}};
        Translation2v linearVelocity{vx.at(index), vy.at(index)};
        auto angularVelocity = omega.at(index);
        Translation2v linearAcceleration{ax.at(index), ay.at(index)};
        auto angularAcceleration = alpha.at(index);
"""
e("g-con-tuple", ["C14"], (G, *INC), (G, ST, """        const auto [pose, linearVelocity, angularVelocity, linearAcceleration,
                    angularAcceleration] =
            std::make_tuple(
                Pose2v{x.at(index),
                       y.at(index),
                       {thetacos.at(index), thetasin.at(index)}},
                Translation2v{vx.at(index), vy.at(index)}, omega.at(index),
                Translation2v{ax.at(index), ay.at(index)}, alpha.at(index));
"""))
# sorting, searching
PROPW = """  std::vector<double> gaps;
  for (const auto& a : path.drivetrain.modules) {
    for (const auto& b : path.drivetrain.modules) {
      for (double d : {std::abs(a.translation.X() - b.translation.X()),
                       std::abs(a.translation.Y() - b.translation.Y())}) {
        if (d != 0) {
          gaps.push_back(d);
        }
      }
    }
  }
  double minWidth = gaps.empty() ? INFINITY : *std::min_element(gaps.begin(), gaps.end());

"""
e("g-width-minel", ["C15"], (G, *INC), (G, WIDTH, PROPW))
m("g-width-minel1", ["C15"], (G, *INC), (G, WIDTH, PROPW.replace("*std::min_element(gaps.begin(), gaps.end())", "gaps.at(gaps.size() / 2)")))
# initial guess: adjacent_difference
VXV = """    vx[sampleIndex].SetValue(
        (solution.x[sampleIndex] - solution.x[sampleIndex - 1]) /
        solution.dt[sampleIndex]);
"""
AI = "  vx[0].SetValue(0.0);\n"
e("g-init-adj", ["C16"], (G, *INC), (G, AI, """  std::vector<double> dx(sampleTotal);
  std::adjacent_difference(solution.x.begin(), solution.x.end(), dx.begin());
""" + AI), (G, VXV, "    vx[sampleIndex].SetValue(dx[sampleIndex] / solution.dt[sampleIndex]);\n"))
e("g-init-mk", ["C16"], (G, AI, """  auto rate = [&](const std::vector<double>& values, size_t k) {
    return (values[k] - values[k - 1]) / solution.dt[k];
  };
""" + AI), (G, VXV, "    vx[sampleIndex].SetValue(rate(solution.x, sampleIndex));\n"))
# ------------------------------------------------- searching, erasing, order
e("g-gen-find", ["C18"], (G, "    for (auto& callback : callbacks) {\n      callback();\n    }\n", "    auto it = callbacks.begin();\n    while (it != callbacks.end()) {\n      (*it)();\n      ++it;\n    }\n"))
e("g-width-findif", ["C15"], (G, WIDTH, WIDTH + """  const auto& mods = path.drivetrain.modules;
  const bool distinct =
      std::find_if(mods.begin(), mods.end(), [&](const SwerveModule& m) {
        return m.translation.X() != mods.front().translation.X() ||
               m.translation.Y() != mods.front().translation.Y();
      }) != mods.end();
"""), (G, UNSET, "    if (!distinct) {\n      continue;\n    }\n"))
m("g-width-findif1", ["C15"], (G, WIDTH, WIDTH + """  const auto& mods = path.drivetrain.modules;
  const bool distinct =
      std::find_if(mods.begin(), mods.end(), [&](const SwerveModule& m) {
        return m.translation.X() != mods.front().translation.X() &&
               m.translation.Y() != mods.front().translation.Y();
      }) != mods.end();
"""), (G, UNSET, "    if (!distinct) {\n      continue;\n    }\n"))
DTL = """  std::vector<double> dtPerSamp;
  for (size_t sgmtIndex = 0; sgmtIndex < N.size(); ++sgmtIndex) {
    size_t N_sgmt = N.at(sgmtIndex);
    sleipnir::Variable dt_sgmt = dt.at(sgmtIndex);
    double dt_val = dt_sgmt.Value();
    for (size_t i = 0; i < N_sgmt; ++i) {
      dtPerSamp.push_back(dt_val);
    }
  }
"""
e("g-sol-reverse", ["C17"], (G, DTL, """  std::vector<double> dtPerSamp;
  for (size_t left = N.size(); left > 0; --left) {
    double dt_val = dt.at(left - 1).Value();
    for (size_t i = 0; i < N.at(left - 1); ++i) {
      dtPerSamp.push_back(dt_val);
    }
  }
  std::reverse(dtPerSamp.begin(), dtPerSamp.end());
"""))
m("g-sol-reverse1", ["C17"], (G, DTL, """  std::vector<double> dtPerSamp;
  for (size_t left = N.size(); left > 0; --left) {
    double dt_val = dt.at(left - 1).Value();
    for (size_t i = 0; i < N.at(left - 1); ++i) {
      dtPerSamp.push_back(dt_val);
    }
  }
"""))
m("g-sol-erase", ["C17"], (G, DTL, DTL + "  if (auto it = std::find(dtPerSamp.begin(), dtPerSamp.end(), 0.0); it != dtPerSamp.end()) {\n    dtPerSamp.erase(it);\n  }\n"))
m("g-guess-erase", ["C05"], (BC, "re:(void SwervePathBuilder::WptInitialGuessPoint\\(size_t wptIndex,\\s*const Pose2d& poseGuess\\) \\{\\n  NewWpts\\(wptIndex\\);\\n)", r"\1  auto& points = initialGuessPoints.at(wptIndex);\n  auto same = std::find_if(points.begin(), points.end() - 1, [&](const Pose2d& p) {\n    return p.X() == poseGuess.X() && p.Y() == poseGuess.Y() && p.Rotation().Sin() == poseGuess.Rotation().Sin();\n  });\n  if (same != points.end() - 1) {\n    points.erase(same);\n  }\n"))

CB = """  problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
    for (auto& callback : callbacks) {
      callback();
    }
    return trajopt::GetCancellationFlag();
  });
"""
e("g-gen-count", ["C18", "C17"], (G, CB, CB.replace("  problem", "  size_t iterations = 0;\n  problem", 1).replace("[this]", "[this, &iterations]").replace("    for", "    ++iterations;\n    for", 1)))
m("g-gen-count1", ["C18"], (G, CB, CB.replace("  problem", "  size_t iterations = 0;\n  problem", 1).replace("[this]", "[this, &iterations]").replace("return trajopt::GetCancellationFlag();", "return trajopt::GetCancellationFlag() || ++iterations > 2000;")))
m("g-gen-first", ["C18"], (G, CB, CB.replace("  problem", "  bool warm = false;\n  problem", 1).replace("[this]", "[this, &warm]").replace("return trajopt::GetCancellationFlag();", "const bool stop = warm && trajopt::GetCancellationFlag();\n    warm = true;\n    return stop;")))
m("g-gen-flagend", ["C18"], (G, "  if (static_cast<int>(status.exitCondition) < 0 ||\n", "  if (trajopt::GetCancellationFlag()) {\n    return unexpected{std::string{sleipnir::ToMessage(sleipnir::SolverExitCondition::kCallbackRequestedStop)}};\n  }\n  if (static_cast<int>(status.exitCondition) < 0 ||\n"))
m("g-gen-flagok", ["C18"], (G, "  if (static_cast<int>(status.exitCondition) < 0 ||\n      status.exitCondition ==\n          sleipnir::SolverExitCondition::kCallbackRequestedStop) {", "  if (static_cast<int>(status.exitCondition) < 0 ||\n      (status.exitCondition ==\n          sleipnir::SolverExitCondition::kCallbackRequestedStop && trajopt::GetCancellationFlag())) {"))
