"""More mutants and refactorings: the generator and the builder, other idioms."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutant_table import MUTANTS  # noqa: E402
G, GH = "src/SwerveTrajectoryGenerator.cpp", "include/trajopt/SwerveTrajectoryGenerator.hpp"
BC, BH = "src/path/SwervePathBuilder.cpp", "include/trajopt/path/SwervePathBuilder.hpp"
RANGES = (G, "#include <chrono>\n", "#include <chrono>\n#include <ranges>\n")


def m(i, props, *edits):
    MUTANTS.append(dict(id=i, props=props, edits=list(edits)))


def e(i, props, *edits):
    MUTANTS.append(dict(id="eq-" + i, props=props, edits=list(edits), equal=True))


RES = "re:(?s)  x\\.reserve\\(sampTot\\);.*?  alpha\\.reserve\\(sampTot\\);\n"
e("e-reserve-ptrs", ["C12"], (G, RES, """  for (auto* channel : {&x, &y, &thetacos, &thetasin, &vx, &vy, &omega, &ax, &ay, &alpha}) {
    channel->reserve(sampTot);
  }
"""))
VARS = "re:(?s)    x\\.emplace_back\\(problem\\.DecisionVariable\\(\\)\\);.*?    alpha\\.emplace_back\\(problem\\.DecisionVariable\\(\\)\\);\n"
e("e-vars-ptrs", ["C12", "C13", "C16"], (G, VARS, """    for (auto* channel : {&x, &y, &thetacos, &thetasin, &vx, &vy, &omega, &ax, &ay, &alpha}) {
      channel->emplace_back(problem.DecisionVariable());
    }
"""))
e("e-vars-lambda", ["C12", "C13", "C14"], (G, VARS, """    auto declare = [this](std::vector<sleipnir::Variable>& channel) {
      channel.emplace_back(problem.DecisionVariable());
    };
    declare(x);
    declare(y);
    declare(thetacos);
    declare(thetasin);
    declare(vx);
    declare(vy);
    declare(omega);
    declare(ax);
    declare(ay);
    declare(alpha);
"""))
m("e-vars-shared", ["C12", "C13"], (G, VARS, """    x.emplace_back(problem.DecisionVariable());
    y.emplace_back(problem.DecisionVariable());
    thetacos.emplace_back(problem.DecisionVariable());
    thetasin.emplace_back(problem.DecisionVariable());
    vx.emplace_back(problem.DecisionVariable());
    vy.emplace_back(problem.DecisionVariable());
    omega.emplace_back(problem.DecisionVariable());
    ax.emplace_back(problem.DecisionVariable());
    ay.emplace_back(index == 0 ? problem.DecisionVariable() : ay.front());
    alpha.emplace_back(problem.DecisionVariable());
"""))
# each channel of variables in a loop of its own
e("e-vars-each", ["C12", "C13"], (G, "re:(?s)  for \\(size_t index = 0; index < sampTot; \\+\\+index\\) \\{\n    x\\.emplace_back.*?\n  \\}\n\n", """  auto fill = [&](std::vector<sleipnir::Variable>& channel, size_t count) {
    for (size_t i = 0; i < count; ++i) {
      channel.push_back(problem.DecisionVariable());
    }
  };
  fill(x, sampTot);
  fill(y, sampTot);
  fill(thetacos, sampTot);
  fill(thetasin, sampTot);
  fill(vx, sampTot);
  fill(vy, sampTot);
  fill(omega, sampTot);
  fill(ax, sampTot);
  fill(ay, sampTot);
  fill(alpha, sampTot);
  for (size_t index = 0; index < sampTot; ++index) {
    fill(Fx[index], moduleCnt);
    fill(Fy[index], moduleCnt);
  }

"""))
KH = "  for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {\n    size_t N_sgmt = N.at(wptIndex - 1);\n    auto dt_sgmt"
SH = "    for (size_t sampIndex = 0; sampIndex < N_sgmt; ++sampIndex) {\n      size_t index = GetIndex(N, wptIndex, sampIndex);\n"
e("e-kin-iota2", ["C12"], RANGES, (G, SH, "    for (auto sampIndex : std::views::iota(size_t{0}, N_sgmt)) {\n      size_t index = GetIndex(N, wptIndex, sampIndex);\n"))
m("e-kin-iota1", ["C12"], RANGES, (G, SH, "    for (auto sampIndex : std::views::iota(wptIndex > 2 ? size_t{1} : size_t{0}, N_sgmt)) {\n      size_t index = GetIndex(N, wptIndex, sampIndex);\n"))
# a running index instead of GetIndex
e("e-kin-running", ["C12"], (G, KH, "  size_t index = 0;\n" + KH), (G, SH, "    for (size_t sampIndex = 0; sampIndex < N_sgmt; ++sampIndex) {\n      ++index;\n"))
m("e-kin-running1", ["C12"], (G, KH, "  size_t index = 0;\n" + KH), (G, SH, "    for (size_t sampIndex = 0; sampIndex < N_sgmt; ++sampIndex) {\n      if (index + 1 < sampTot) {\n        ++index;\n      }\n      if (sampIndex > 0 && N_sgmt > 3 && sampIndex + 1 == N_sgmt && wptIndex + 1 < wptCnt) {\n        continue;\n      }\n"))
e("e-kin-range", ["C12"], (G, SH, """    const size_t first = GetIndex(N, wptIndex, 0);
    for (size_t index = first; index < first + N_sgmt; ++index) {
"""))
# the kinematics written per coordinate
e("e-kin-coords", ["C12"], (G, "      problem.SubjectTo(x_n_1 + v_n * dt_sgmt == x_n);\n", """      problem.SubjectTo(x_n_1.X() + v_n.X() * dt_sgmt == x_n.X());
      problem.SubjectTo(x_n_1.Y() + v_n.Y() * dt_sgmt == x_n.Y());
"""), (G, "      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);\n", """      problem.SubjectTo(v_n.X() - v_n_1.X() == a_n.X() * dt_sgmt);
      problem.SubjectTo(v_n.Y() - v_n_1.Y() == a_n.Y() * dt_sgmt);
"""))
m("e-kin-coords1", ["C12"], (G, "      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);\n", """      problem.SubjectTo(v_n.X() - v_n_1.X() == a_n.X() * dt_sgmt);
      problem.SubjectTo(v_n.Y() - v_n_1.Y() == Translation2v{ax.at(index - 1), ay.at(index)}.Y() * dt.at(wptIndex == 1 ? 0 : wptIndex - 1));
      if (sampIndex == 0 && wptIndex > 1) {
        problem.SubjectTo(a_n.X() == ax.at(index - 1));
      }
"""))
FNET = "re:(?s)    auto Fx_net = std::accumulate.*?sleipnir::Variable\\{0\\.0\\}\\);\n(?=\n)"
e("e-dyn-sum", ["C13"], (G, FNET, """    sleipnir::Variable Fx_net = 0.0;
    for (const auto& force : Fx.at(index)) {
      Fx_net += force;
    }
    sleipnir::Variable Fy_net = 0.0;
    for (const auto& force : Fy.at(index)) {
      Fy_net += force;
    }
"""))
e("e-dyn-views", ["C13"], RANGES, (G, FNET, """    sleipnir::Variable Fx_net = 0.0;
    for (const auto& force : Fx.at(index) | std::views::reverse) {
      Fx_net += force;
    }
    sleipnir::Variable Fy_net = 0.0;
    for (const auto& force : std::views::reverse(Fy.at(index))) {
      Fy_net += force;
    }
"""))
m("e-dyn-drop", ["C13"], RANGES, (G, FNET, """    sleipnir::Variable Fx_net = 0.0;
    for (const auto& force : Fx.at(index) | std::views::take(4)) {
      Fx_net += force;
    }
    sleipnir::Variable Fy_net = 0.0;
    for (const auto& force : Fy.at(index)) {
      Fy_net += force;
    }
"""))
e("e-dyn-foreach", ["C13"], (G, FNET, """    sleipnir::Variable Fx_net = 0.0;
    sleipnir::Variable Fy_net = 0.0;
    std::ranges::for_each(Fx.at(index), [&](const auto& force) { Fx_net += force; });
    std::ranges::for_each(Fy.at(index), [&](const auto& force) { Fy_net += force; });
"""))
# wheels as a zip of forces and modules through iterators
TAU = "re:(?s)    sleipnir::Variable tau_net = 0\\.0;\n.*?tau_net \\+= r\\.Cross\\(F\\);\n    \\}\n"
e("e-dyn-torque", ["C13"], (G, TAU, """    sleipnir::Variable tau_net = 0.0;
    auto fx = Fx.at(index).begin();
    auto fy = Fy.at(index).begin();
    for (const auto& module : path.drivetrain.modules) {
      const auto r = module.translation.RotateBy(theta);
      tau_net += r.X() * *fy++ - r.Y() * *fx++;
    }
"""))
e("e-dyn-torque2", ["C13"], (G, TAU, """    sleipnir::Variable tau_net = 0.0;
    for (size_t i = 0; i < moduleCnt; ++i) {
      // the moment about the robot's centre, taken in the robot's frame
      Translation2v F{Fx[index][i], Fy[index][i]};
      tau_net += path.drivetrain.modules[i].translation.Cross(F.RotateBy(-theta));
    }
"""))
m("e-dyn-torque3", ["C13"], (G, TAU, """    sleipnir::Variable tau_net = 0.0;
    for (size_t i = 0; i < moduleCnt; ++i) {
      Translation2v F{Fx[index][i], Fy[index][i]};
      tau_net += path.drivetrain.modules[i].translation.Cross(F.RotateBy(theta));
    }
"""))
# objective
OBJ = "re:(?s)  sleipnir::Variable T_tot = 0;\n.*?  problem\\.Minimize\\(std::move\\(T_tot\\)\\);\n"
e("e-obj-inner", ["C15"], (G, OBJ, """  sleipnir::Variable T_tot = 0;
  for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
    T_tot += dt.at(sgmtIndex) * static_cast<double>(N.at(sgmtIndex));
  }
  problem.Minimize(T_tot);
  for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
    problem.SubjectTo(dt.at(sgmtIndex) >= 0);
    dt.at(sgmtIndex).SetValue(5.0 / N.at(sgmtIndex));
  }
"""))
e("e-obj-inner2", ["C15"], (G, OBJ, """  sleipnir::Variable T_tot = 0;
  for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
    for (size_t sampIndex = 0; sampIndex < N[sgmtIndex]; ++sampIndex) {
      T_tot += dt[sgmtIndex];
    }
    problem.SubjectTo(0 <= dt[sgmtIndex]);
    dt[sgmtIndex].SetValue(5.0 / N[sgmtIndex]);
  }
  problem.Minimize(T_tot);
"""))
m("e-obj-int", ["C15"], (G, "dt_sgmt * static_cast<int>(N_sgmt)", "dt_sgmt * static_cast<int>(static_cast<uint8_t>(N_sgmt))"))
m("e-obj-last", ["C15"], (G, "auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);", "auto T_sgmt = dt_sgmt * static_cast<int>(sgmtIndex > 0 && N_sgmt > 1 ? N.at(0) : N_sgmt);"))
# segment constraints
SEG = "re:(?s)  for \\(size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; \\+\\+sgmtIndex\\) \\{\n    for \\(auto& constraint :\n.*?\n  \\}\n\n(?=  ApplyInitialGuess)"
e("e-seg-helper", ["C14"], (G, SEG, """  auto apply = [&](auto& constraint, size_t index) {
    std::visit(
        [&](auto&& arg) {
          arg.Apply(problem,
                    Pose2v{x.at(index), y.at(index), {thetacos.at(index), thetasin.at(index)}},
                    Translation2v{vx.at(index), vy.at(index)}, omega.at(index),
                    Translation2v{ax.at(index), ay.at(index)}, alpha.at(index));
        },
        constraint);
  };
  for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
    auto& constraints = path.waypoints.at(sgmtIndex + 1).segmentConstraints;
    for (size_t index = GetIndex(N, sgmtIndex + 1, 0);
         index < GetIndex(N, sgmtIndex + 2, 0); ++index) {
      for (auto& constraint : constraints) {
        apply(constraint, index);
      }
    }
  }

"""))
e("e-seg-drop", ["C14"], RANGES, (G, SEG, """  size_t endIndex = 1;
  size_t sgmtIndex = 0;
  for (auto& waypoint : path.waypoints | std::views::drop(1) | std::views::take(sgmtCnt)) {
    size_t startIndex = endIndex;
    endIndex += N.at(sgmtIndex++);
    for (auto& constraint : waypoint.segmentConstraints) {
      for (size_t index = startIndex; index < endIndex; ++index) {
        std::visit(
            [&](auto&& arg) {
              arg.Apply(problem, {x.at(index), y.at(index), {thetacos.at(index), thetasin.at(index)}},
                        {vx.at(index), vy.at(index)}, omega.at(index),
                        {ax.at(index), ay.at(index)}, alpha.at(index));
            },
            constraint);
      }
    }
  }

"""))
m("e-seg-drop1", ["C14"], RANGES, (G, SEG, """  size_t endIndex = 1;
  size_t sgmtIndex = 0;
  for (auto& waypoint : path.waypoints | std::views::drop(1) | std::views::take(sgmtCnt)) {
    if (waypoint.segmentConstraints.empty()) {
      ++sgmtIndex;
      continue;
    }
    size_t startIndex = endIndex;
    endIndex += N.at(sgmtIndex++);
    for (auto& constraint : waypoint.segmentConstraints) {
      for (size_t index = startIndex; index < endIndex; ++index) {
        std::visit(
            [&](auto&& arg) {
              arg.Apply(problem, {x.at(index), y.at(index), {thetacos.at(index), thetasin.at(index)}},
                        {vx.at(index), vy.at(index)}, omega.at(index),
                        {ax.at(index), ay.at(index)}, alpha.at(index));
            },
            constraint);
      }
    }
  }

"""))
# solution
DTS = "re:(?s)  std::vector<double> dtPerSamp;\n.*?\n  \\}\n\n(?=  return SwerveSolution)"
e("e-sol-insert", ["C17"], (G, DTS, """  std::vector<double> dtPerSamp;
  for (size_t sgmtIndex = 0; sgmtIndex < N.size(); ++sgmtIndex) {
    dtPerSamp.insert(dtPerSamp.end(), N[sgmtIndex], dt[sgmtIndex].Value());
  }

"""))
e("e-sol-resize", ["C17"], (G, DTS, """  std::vector<double> dtPerSamp;
  for (size_t sgmtIndex = 0; sgmtIndex < N.size(); ++sgmtIndex) {
    dtPerSamp.resize(dtPerSamp.size() + N.at(sgmtIndex), dt.at(sgmtIndex).Value());
  }

"""))
e("e-sol-filln", ["C17"], (G, DTS, """  std::vector<double> dtPerSamp;
  for (size_t sgmtIndex = 0; sgmtIndex < N.size(); ++sgmtIndex) {
    std::fill_n(std::back_inserter(dtPerSamp), N.at(sgmtIndex), dt.at(sgmtIndex).Value());
  }

"""))
e("e-sol-pre", ["C17"], (G, DTS, """  std::vector<double> dtPerSamp(x.size() - 1);
  size_t at = 0;
  for (size_t sgmtIndex = 0; sgmtIndex < N.size(); ++sgmtIndex) {
    double dt_val = dt.at(sgmtIndex).Value();
    for (size_t i = 0; i < N.at(sgmtIndex); ++i) {
      dtPerSamp[at++] = dt_val;
    }
  }

"""))
m("e-sol-pre1", ["C17"], (G, DTS, """  std::vector<double> dtPerSamp(x.size() - 1);
  size_t at = 0;
  double dt_val = dt.front().Value();
  for (size_t sgmtIndex = 0; sgmtIndex < N.size(); ++sgmtIndex) {
    if (N.at(sgmtIndex) > 1) {
      dt_val = dt.at(sgmtIndex).Value();
    }
    for (size_t i = 0; i < N.at(sgmtIndex); ++i) {
      dtPerSamp[at++] = dt_val;
    }
  }

"""))
ROW = "re:(?s)  std::vector<double> valueRowVector;\n.*?  return valueRowVector;\n"
e("e-row-ranges", ["C17"], (G, ROW, """  std::vector<double> valueRowVector(rowVector.size());
  std::ranges::transform(rowVector, valueRowVector.begin(),
                         [](auto& expression) { return expression.Value(); });
  return valueRowVector;
"""))
# initial values
e("e-init-lambda", ["C16"], (G, "re:(?s)  vx\\[0\\]\\.SetValue\\(0\\.0\\);.*?  alpha\\[0\\]\\.SetValue\\(0\\.0\\);\n", """  for (auto* channel : {&vx, &vy, &omega, &ax, &ay, &alpha}) {
    channel->front().SetValue(0.0);
  }
"""))
e("e-init-dt", ["C16"], (G, "  for (size_t sampleIndex = 1; sampleIndex < sampleTotal; sampleIndex++) {\n    vx", "  for (size_t sampleIndex = 1; sampleIndex < sampleTotal; sampleIndex++) {\n    const size_t prev = sampleIndex - 1;\n    const double step = solution.dt[sampleIndex];\n    vx"),
  (G, "        (solution.x[sampleIndex] - solution.x[sampleIndex - 1]) /\n        solution.dt[sampleIndex]);", "        (solution.x[sampleIndex] - solution.x[prev]) / step);"),
  (G, "        (omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /\n        solution.dt[sampleIndex]);", "        (omega[sampleIndex].Value() - omega[prev].Value()) / step);"))
m("e-init-dt1", ["C16"], (G, "        (omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /\n        solution.dt[sampleIndex]);", "        (omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /\n        solution.dt[sampleIndex - 1]);"))
m("e-init-unwrap", ["C16"], (G, "re:(?s)        Rotation2d\\{thetacos, thetasin\\}\n            \\.RotateBy\\(-Rotation2d\\{last_thetacos, last_thetasin\\}\\)\n            \\.Radians\\(\\) /", "        (std::atan2(thetasin, thetacos) - std::atan2(last_thetasin, last_thetacos)) /"))
# wheel travel
e("e-width-lambda", ["C15"], (G, "re:(?s)      if \\(std::abs\\(path\\.drivetrain\\.modules\\.at\\(j\\)\\.translation\\.X\\(\\) -.*?      \\}\n    \\}\n  \\}\n(?=\n  for)", """      const auto& a = path.drivetrain.modules.at(j).translation;
      const auto& b = path.drivetrain.modules.at(i).translation;
      auto narrow = [&minWidth](double width) {
        if (width != 0.0 && width < minWidth) {
          minWidth = width;
        }
      };
      narrow(std::abs(a.X() - b.X()));
      narrow(std::abs(a.Y() - b.Y()));
    }
  }
"""))
e("e-width-list", ["C15"], (G, "re:(?s)      if \\(std::abs\\(path\\.drivetrain\\.modules\\.at\\(j\\)\\.translation\\.X\\(\\) -.*?      \\}\n    \\}\n  \\}\n(?=\n  for)", """      const auto d = path.drivetrain.modules[j].translation - path.drivetrain.modules[i].translation;
      for (double width : {std::abs(d.X()), std::abs(d.Y())}) {
        if (width > 0) {
          minWidth = std::min(minWidth, width);
        }
      }
    }
  }
"""))
m("e-width-list1", ["C15"], (G, "re:(?s)      if \\(std::abs\\(path\\.drivetrain\\.modules\\.at\\(j\\)\\.translation\\.X\\(\\) -.*?      \\}\n    \\}\n  \\}\n(?=\n  for)", """      const auto d = path.drivetrain.modules[j].translation - path.drivetrain.modules[i].translation;
      for (double width : {d.X(), std::abs(d.Y())}) {
        if (width > 0) {
          minWidth = std::min(minWidth, width);
        }
      }
    }
  }
"""))
