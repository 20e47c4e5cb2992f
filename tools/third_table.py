"""Third batch: structural refactorings and bugs inside them."""
from mutant_table import m, e
U = "include/trajopt/util/TrajoptUtil.hpp"
L = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
B = "src/path/SwervePathBuilder.cpp"
H = "include/trajopt/path/SwervePathBuilder.hpp"
G = "src/SwerveTrajectoryGenerator.cpp"
F = "src/RustFFI.cpp"
T = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
K = "include/trajopt/constraint/%sConstraint.hpp"

# sample offsets of the waypoints in a table
OFF = (G, "  // Apply kinematics constraints\n", "  std::vector<size_t> offsets;\n  offsets.reserve(wptCnt);\n  for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {\n    offsets.push_back(GetIndex(N, wptIndex, 0));\n  }\n\n  // Apply kinematics constraints\n")
e("c-kin-offsets", ["C12"], OFF, (G, "size_t index = GetIndex(N, wptIndex, sampIndex);", "size_t index = offsets.at(wptIndex) + sampIndex;"))
e("c-kin-offsets1", ["C12"], OFF, (G, "size_t index = GetIndex(N, wptIndex, sampIndex);", "size_t index = offsets.at(wptIndex - 1) + sampIndex + (wptIndex > 1 ? N.at(wptIndex - 2) : 1);"))
OFF2 = (G, "  // Apply kinematics constraints\n", "  std::vector<size_t> ends{0};\n  for (auto n : N) {\n    ends.push_back(ends.back() + n);\n  }\n\n  // Apply kinematics constraints\n")
e("c-con-ends", ["C14"], OFF2, (G, "size_t index = GetIndex(N, wptIndex + 1, 0) - 1;", "size_t index = ends.at(wptIndex);"),
  (G, "      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);\n      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n", "      size_t startIndex = ends.at(sgmtIndex) + 1;\n      size_t endIndex = ends.at(sgmtIndex + 1) + 1;\n"))
m("c-con-ends1", ["C14"], OFF2, (G, "size_t index = GetIndex(N, wptIndex + 1, 0) - 1;", "size_t index = ends.at(wptIndex);"),
  (G, "      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);\n      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n", "      size_t startIndex = ends.at(sgmtIndex) + 1;\n      size_t endIndex = ends.at(sgmtIndex + 1);\n"))
IOTA = (G, "#include <chrono>\n", "#include <chrono>\n#include <ranges>\n")
e("c-kin-iota", ["C12"], IOTA, (G, "for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {", "for (size_t wptIndex : std::views::iota(size_t{1}, wptCnt)) {"))
e("c-dyn-rev", ["C13"], (G, "  for (size_t index = 0; index < sampTot; ++index) {\n    Rotation2v theta{", "  for (size_t index = sampTot; index-- > 0;) {\n    Rotation2v theta{"))
e("c-kin-revseg", ["C12"], (G, "    for (size_t sampIndex = 0; sampIndex < N_sgmt; ++sampIndex) {\n      size_t index = GetIndex(N, wptIndex, sampIndex);\n", "    for (size_t sampIndex = N_sgmt; sampIndex > 0; --sampIndex) {\n      size_t index = GetIndex(N, wptIndex, sampIndex - 1);\n"))
e("c-dyn-iter", ["C13"], (G, """    sleipnir::Variable tau_net = 0.0;
    for (size_t moduleIndex = 0; moduleIndex < path.drivetrain.modules.size();
         ++moduleIndex) {
      const auto& [translation, wheelRadius, wheelMaxAngularVelocity,
                   wheelMaxTorque] = path.drivetrain.modules.at(moduleIndex);

      auto r = translation.RotateBy(theta);
      Translation2v F{Fx.at(index).at(moduleIndex),
                      Fy.at(index).at(moduleIndex)};

      tau_net += r.Cross(F);
    }
""", """    sleipnir::Variable tau_net = 0.0;
    auto fxIt = Fx.at(index).begin();
    auto fyIt = Fy.at(index).begin();
    for (auto it = path.drivetrain.modules.begin(); it != path.drivetrain.modules.end(); ++it, ++fxIt, ++fyIt) {
      auto r = it->translation.RotateBy(theta);
      tau_net += r.Cross(Translation2v{*fxIt, *fyIt});
    }
"""))
m("c-dyn-iter1", ["C13"], (G, """    sleipnir::Variable tau_net = 0.0;
    for (size_t moduleIndex = 0; moduleIndex < path.drivetrain.modules.size();
         ++moduleIndex) {
      const auto& [translation, wheelRadius, wheelMaxAngularVelocity,
                   wheelMaxTorque] = path.drivetrain.modules.at(moduleIndex);

      auto r = translation.RotateBy(theta);
      Translation2v F{Fx.at(index).at(moduleIndex),
                      Fy.at(index).at(moduleIndex)};

      tau_net += r.Cross(F);
    }
""", """    sleipnir::Variable tau_net = 0.0;
    auto fxIt = Fx.at(index).begin();
    auto fyIt = Fy.at(index).begin();
    for (auto it = path.drivetrain.modules.begin(); it != path.drivetrain.modules.end(); ++it, ++fxIt) {
      auto r = it->translation.RotateBy(theta);
      tau_net += r.Cross(Translation2v{*fxIt, *fyIt});
      if (fyIt != Fy.at(index).end() && it != path.drivetrain.modules.begin()) ++fyIt;
    }
"""))
W = "re:(?s)  double minWidth = INFINITY;\n.*?\n  \\}\n\n(?=  for \\(size_t sgmtIndex = 0; sgmtIndex < sgmtCnt)"
e("c-width-lambda", ["C15"], (G, W, """  double minWidth = INFINITY;
  auto consider = [&minWidth](double a, double b) {
    double gap = std::abs(a - b);
    if (gap != 0) {
      minWidth = std::min(minWidth, gap);
    }
  };
  const auto& modules = path.drivetrain.modules;
  for (size_t i = 1; i < modules.size(); i++) {
    for (size_t j = 0; j < i; j++) {
      consider(modules.at(j).translation.X(), modules.at(i).translation.X());
      consider(modules.at(j).translation.Y(), modules.at(i).translation.Y());
    }
  }

"""))
e("c-width-iters", ["C15"], (G, W, """  double minWidth = INFINITY;
  for (const auto& a : path.drivetrain.modules) {
    for (const auto& b : path.drivetrain.modules) {
      for (double gap : {std::abs(a.translation.X() - b.translation.X()), std::abs(a.translation.Y() - b.translation.Y())}) {
        if (gap > 0 && gap < minWidth) {
          minWidth = gap;
        }
      }
    }
  }

"""))
m("c-width-adj", ["C15"], (G, W, """  double minWidth = INFINITY;
  const auto& modules = path.drivetrain.modules;
  for (size_t i = 0; i < modules.size(); i++) {
    const auto& a = modules.at(i).translation;
    const auto& b = modules.at((i + 1) % modules.size()).translation;
    for (double gap : {std::abs(a.X() - b.X()), std::abs(a.Y() - b.Y())}) {
      if (gap > 0 && gap < minWidth) {
        minWidth = gap;
      }
    }
  }

"""))
e("c-width-fastest", ["C15"], (G, """    for (auto module : path.drivetrain.modules) {
      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
                            module.wheelMaxAngularVelocity <=
                        minWidth);
    }
""", """    double fastest = 0.0;
    for (const auto& module : path.drivetrain.modules) {
      fastest = std::max(fastest, module.wheelRadius * module.wheelMaxAngularVelocity);
    }
    problem.SubjectTo(dt.at(sgmtIndex) * fastest <= minWidth);
"""))
m("c-width-slowest", ["C15"], (G, """    for (auto module : path.drivetrain.modules) {
      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
                            module.wheelMaxAngularVelocity <=
                        minWidth);
    }
""", """    double radius = 0.0, speed = 0.0;
    for (const auto& module : path.drivetrain.modules) {
      if (module.wheelRadius > radius || module.wheelMaxAngularVelocity > speed) {
        radius = module.wheelRadius;
        speed = module.wheelMaxAngularVelocity;
      }
    }
    problem.SubjectTo(dt.at(sgmtIndex) * radius * speed <= minWidth);
"""))
e("c-sol-fill", ["C17"], (G, """    for (size_t i = 0; i < N_sgmt; ++i) {
      dtPerSamp.push_back(dt_val);
    }
""", """    std::fill_n(std::back_inserter(dtPerSamp), N_sgmt, dt_val);
"""))
e("c-sol-resize", ["C17"], (G, """    for (size_t i = 0; i < N_sgmt; ++i) {
      dtPerSamp.push_back(dt_val);
    }
""", """    dtPerSamp.resize(dtPerSamp.size() + N_sgmt, dt_val);
"""))
# outlines as lists of edges
EDGES = (B, "void SwervePathBuilder::WptObstacle(", """namespace {

std::vector<std::pair<Translation2d, Translation2d>> OutlineEdges(
    const std::vector<Translation2d>& points) {
  std::vector<std::pair<Translation2d, Translation2d>> edges;
  for (size_t i = 0; i + 1 < points.size(); ++i) {
    edges.emplace_back(points[i], points[i + 1]);
  }
  if (points.size() >= 3) {
    edges.emplace_back(points.back(), points.front());
  }
  return edges;
}

}  // namespace

void SwervePathBuilder::WptObstacle(""")
OB = "re:(?s)(void SwervePathBuilder::WptObstacle\\(size_t index, const Obstacle& obstacle\\) \\{\n).*?\n\\}\n(?=\nvoid SwervePathBuilder::SgmtObstacle)"
BODY = r"""\1  auto obstacleEdges = OutlineEdges(obstacle.points);
  for (auto& _bumpers : bumpers) {
    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;
    auto bumperEdges = OutlineEdges(_bumpers.points);
    for (auto& obstaclePoint : obstacle.points) {
      for (auto& [start, end] : bumperEdges) {
        WptConstraint(index, LinePointConstraint{start, end, obstaclePoint, minDistance});
      }
    }
    for (auto& bumperCorner : _bumpers.points) {
      for (auto& [start, end] : obstacleEdges) {
        WptConstraint(index, PointLineConstraint{bumperCorner, start, end, minDistance});
      }
      if (obstacleEdges.empty()) {
        WptConstraint(index, PointPointConstraint{bumperCorner, obstacle.points.at(0), minDistance});
      }
    }
  }
}
"""
e("c-obs-edges", ["C07"], EDGES, (B, OB, BODY))
m("c-obs-edges1", ["C07"], (EDGES[0], EDGES[1], EDGES[2].replace(">= 3", "> 3")), (B, OB, BODY))
m("c-obs-edges2", ["C07"], EDGES, (B, OB, BODY.replace("obstacleEdges.empty()", "obstacleEdges.empty() && bumperEdges.empty()").replace("for (auto& [start, end] : bumperEdges)", "if (!obstacleEdges.empty()) for (auto& [start, end] : bumperEdges)")))
e("c-obs-list", ["C07"], (B, OB, r"""\1  for (auto& _bumpers : bumpers) {
    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;
    std::vector<Constraint> constraints;
    size_t n = _bumpers.points.size();
    size_t m = obstacle.points.size();
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < m; ++j) {
        if (n >= 3 || (n == 2 && i == 0)) {
          constraints.push_back(LinePointConstraint{_bumpers.points.at(i), _bumpers.points.at((i + 1) % n), obstacle.points.at(j), minDistance});
        }
        if (m >= 3 || (m == 2 && j == 0)) {
          constraints.push_back(PointLineConstraint{_bumpers.points.at(i), obstacle.points.at(j), obstacle.points.at((j + 1) % m), minDistance});
        }
        if (m == 1) {
          constraints.push_back(PointPointConstraint{_bumpers.points.at(i), obstacle.points.at(j), minDistance});
        }
      }
    }
    for (auto& constraint : constraints) {
      WptConstraint(index, constraint);
    }
  }
}
"""))
e("c-obs-sgmtfn", ["C07"], (B, "re:(?s)(void SwervePathBuilder::SgmtObstacle\\(size_t fromIndex, size_t toIndex,\\s*const Obstacle& obstacle\\) \\{\n)(.*?)\n\\}\n(?=\nvoid SwervePathBuilder::ControlInt)",
  r"""\1  auto add = [&](const Constraint& constraint) {
    SgmtConstraint(fromIndex, toIndex, constraint);
  };
  for (const Bumpers& b : bumpers) {
    const double clearance = b.safetyDistance + obstacle.safetyDistance;
    const auto& corners = b.points;
    const auto& points = obstacle.points;
    if (corners.size() == 1 && points.size() == 1) {
      add(PointPointConstraint{corners.front(), points.front(), clearance});
      continue;
    }
    for (const auto& point : points) {
      for (size_t i = 1; i < corners.size(); ++i) {
        add(LinePointConstraint{corners[i - 1], corners[i], point, clearance});
      }
      if (corners.size() > 2) {
        add(LinePointConstraint{corners.back(), corners.front(), point, clearance});
      }
    }
    for (const auto& corner : corners) {
      if (points.size() == 1) {
        add(PointPointConstraint{corner, points.front(), clearance});
        continue;
      }
      for (size_t i = 1; i < points.size(); ++i) {
        add(PointLineConstraint{corner, points[i - 1], points[i], clearance});
      }
      if (points.size() > 2) {
        add(PointLineConstraint{corner, points.back(), points.front(), clearance});
      }
    }
  }
}
"""))
# the guess along a list of poses
GB = "re:(?s)  for \\(size_t wptIndex = 1; wptIndex < wptCnt; wptIndex\\+\\+\\) \\{.*?\n  \\}\n\n  return initialGuess;"
def flat(last="N_sgmt - (stops.size() - 2) * N_guessSgmt", frm="stops.at(k - 1)"):
    return """  for (size_t wptIndex = 1; wptIndex < wptCnt; wptIndex++) {
    size_t N_sgmt = controlIntervalCounts.at(wptIndex - 1);
    std::vector<Pose2d> stops;
    stops.push_back(initialGuessPoints.at(wptIndex - 1).back());
    stops.insert(stops.end(), initialGuessPoints.at(wptIndex).begin(), initialGuessPoints.at(wptIndex).end());
    size_t N_guessSgmt = N_sgmt / (stops.size() - 1);
    for (size_t k = 1; k < stops.size(); ++k) {
      size_t n = k + 1 < stops.size() ? N_guessSgmt : %s;
      const Pose2d& from = %s;
      const Pose2d& to = stops.at(k);
      append_vector(initialGuess.x, Linspace(from.X(), to.X(), n));
      append_vector(initialGuess.y, Linspace(from.Y(), to.Y(), n));
      for (auto theta : AngleLinspace(from.Rotation().Radians(), to.Rotation().Radians(), n)) {
        initialGuess.thetacos.push_back(std::cos(theta));
        initialGuess.thetasin.push_back(std::sin(theta));
      }
    }
  }

  return initialGuess;""" % (last, frm)
e("c-guess-stops", ["C04"], (L, GB, flat()))
m("c-guess-stops1", ["C04"], (L, GB, flat("N_sgmt - (stops.size() - 1) * N_guessSgmt")))
m("c-guess-stops2", ["C04"], (L, GB, flat("N_guessSgmt + N_sgmt % (stops.size() - 1)", "stops.at(k > 2 ? k - 2 : k - 1)")))
e("c-guess-stops3", ["C04"], (L, GB, flat("N_guessSgmt + N_sgmt % (stops.size() - 1)")))
e("c-guess-prev", ["C04"], (L, GB, """  const Pose2d* previous = &initialGuessPoints.front().back();
  for (size_t wptIndex = 1; wptIndex < wptCnt; wptIndex++) {
    const auto& points = initialGuessPoints.at(wptIndex);
    size_t N_sgmt = controlIntervalCounts.at(wptIndex - 1);
    size_t N_guessSgmt = N_sgmt / points.size();
    for (size_t k = 0; k < points.size(); ++k) {
      const Pose2d& point = points.at(k);
      size_t n = k == points.size() - 1 ? N_sgmt - k * N_guessSgmt : N_guessSgmt;
      append_vector(initialGuess.x, Linspace(previous->X(), point.X(), n));
      append_vector(initialGuess.y, Linspace(previous->Y(), point.Y(), n));
      for (auto theta : AngleLinspace(previous->Rotation().Radians(), point.Rotation().Radians(), n)) {
        initialGuess.thetacos.push_back(std::cos(theta));
        initialGuess.thetasin.push_back(std::sin(theta));
      }
      previous = &point;
    }
  }

  return initialGuess;"""))
# dynamics: precomputed tables
e("c-dyn-tables", ["C13"], (G, "  for (size_t index = 0; index < sampTot; ++index) {\n    Rotation2v theta{", """  std::vector<double> maxForces;
  std::vector<double> maxSpeeds;
  for (const auto& module : path.drivetrain.modules) {
    maxForces.push_back(module.wheelMaxTorque / module.wheelRadius);
    maxSpeeds.push_back(module.wheelRadius * module.wheelMaxAngularVelocity);
  }
  for (size_t index = 0; index < sampTot; ++index) {
    Rotation2v theta{"""),
  (G, "      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;\n", "      double maxWheelVelocity = maxSpeeds.at(moduleIndex);\n"),
  (G, "      double maxForce = wheelMaxTorque / wheelRadius;\n", "      double maxForce = maxForces[moduleIndex];\n"))
e("c-dyn-netstruct", ["C13"], (G, """    auto Fx_net = std::accumulate(Fx.at(index).begin(), Fx.at(index).end(),
                                  sleipnir::Variable{0.0});
    auto Fy_net = std::accumulate(Fy.at(index).begin(), Fy.at(index).end(),
                                  sleipnir::Variable{0.0});
""", """    auto sum = [](const std::vector<sleipnir::Variable>& forces) {
      sleipnir::Variable total = 0.0;
      for (const auto& force : forces) {
        total = total + force;
      }
      return total;
    };
    auto Fx_net = sum(Fx.at(index));
    auto Fy_net = sum(Fy.at(index));
"""))
e("c-gen-allof", ["C18"], (G, """    for (auto& callback : callbacks) {
      callback();
    }
    return trajopt::GetCancellationFlag();
""", """    std::for_each(callbacks.begin(), callbacks.end(), [](auto& callback) { callback(); });
    return GetCancellationFlag() != 0;
"""))
e("c-init-diff", ["C16"], (G, "re:(?s)  for \\(size_t sampleIndex = 1; sampleIndex < sampleTotal; sampleIndex\\+\\+\\) \\{\n    vx.*?\n  \\}\n\\}\n", """  auto rate = [&](const std::vector<double>& values, size_t i) {
    return (values[i] - values[i - 1]) / solution.dt[i];
  };
  auto rateOf = [&](std::vector<sleipnir::Variable>& values, size_t i) {
    return (values[i].Value() - values[i - 1].Value()) / solution.dt[i];
  };
  for (size_t i = 1; i < sampleTotal; i++) {
    vx[i].SetValue(rate(solution.x, i));
    vy[i].SetValue(rate(solution.y, i));
    Rotation2d now{solution.thetacos[i], solution.thetasin[i]};
    Rotation2d before{solution.thetacos[i - 1], solution.thetasin[i - 1]};
    omega[i].SetValue((now.RotateBy(-before)).Radians() / solution.dt[i]);
  }
  for (size_t i = 1; i < sampleTotal; i++) {
    ax[i].SetValue(rateOf(vx, i));
    ay[i].SetValue(rateOf(vy, i));
    alpha[i].SetValue(rateOf(omega, i));
  }
}
"""))
m("c-init-diff1", ["C16"], (G, "re:(?s)  for \\(size_t sampleIndex = 1; sampleIndex < sampleTotal; sampleIndex\\+\\+\\) \\{\n    vx.*?\n  \\}\n\\}\n", """  double lastVx = 0.0, lastVy = 0.0, lastOmega = 0.0;
  for (size_t i = 1; i < sampleTotal; i++) {
    double dt = solution.dt[i];
    double newVx = (solution.x[i] - solution.x[i - 1]) / dt;
    double newVy = (solution.y[i] - solution.y[i - 1]) / dt;
    double newOmega = Rotation2d{solution.thetacos[i], solution.thetasin[i]}.RotateBy(-Rotation2d{solution.thetacos[i - 1], solution.thetasin[i - 1]}).Radians() / dt;
    vx[i].SetValue(newVx);
    vy[i].SetValue(newVy);
    omega[i].SetValue(newOmega);
    ax[i].SetValue((newVx - lastVx) / dt);
    ay[i].SetValue((newVy - lastVy) / dt);
    alpha[i].SetValue((newOmega - lastOmega) / dt);
    lastVx = newVx;
    lastVy = newVx;
    lastOmega = newOmega;
  }
}
"""))
e("c-init-carry", ["C16"], (G, "re:(?s)  for \\(size_t sampleIndex = 1; sampleIndex < sampleTotal; sampleIndex\\+\\+\\) \\{\n    vx.*?\n  \\}\n\\}\n", """  double lastVx = 0.0, lastVy = 0.0, lastOmega = 0.0;
  for (size_t i = 1; i < sampleTotal; i++) {
    double dt = solution.dt[i];
    double newVx = (solution.x[i] - solution.x[i - 1]) / dt;
    double newVy = (solution.y[i] - solution.y[i - 1]) / dt;
    double newOmega = Rotation2d{solution.thetacos[i], solution.thetasin[i]}.RotateBy(-Rotation2d{solution.thetacos[i - 1], solution.thetasin[i - 1]}).Radians() / dt;
    vx[i].SetValue(newVx);
    vy[i].SetValue(newVy);
    omega[i].SetValue(newOmega);
    ax[i].SetValue((newVx - lastVx) / dt);
    ay[i].SetValue((newVy - lastVy) / dt);
    alpha[i].SetValue((newOmega - lastOmega) / dt);
    lastVx = newVx;
    lastVy = newVy;
    lastOmega = newOmega;
  }
}
"""))
e("c-new-delta", ["C05", "C06"], (B, "re:(?s)(NewWpts\\(size_t finalIndex\\) \\{\n).*?(\n\\}\n\n\\}  // namespace)", r"\1  const size_t oldCount = path.waypoints.size();\n  const size_t newCount = std::max(oldCount, finalIndex + 1);\n  path.waypoints.resize(newCount);\n  initialGuessPoints.resize(newCount, {Pose2d{0.0, 0.0, {0.0}}});\n  for (size_t k = std::max<size_t>(oldCount, 1); k < newCount; ++k) {\n    controlIntervalCounts.push_back(40);\n  }\2"))
m("c-new-delta1", ["C05"], (B, "re:(?s)(NewWpts\\(size_t finalIndex\\) \\{\n).*?(\n\\}\n\n\\}  // namespace)", r"\1  const size_t oldCount = path.waypoints.size();\n  const size_t newCount = std::max(oldCount, finalIndex + 1);\n  path.waypoints.resize(newCount);\n  initialGuessPoints.resize(newCount, {Pose2d{0.0, 0.0, {0.0}}});\n  for (size_t k = std::max<size_t>(controlIntervalCounts.size() + 1, 1); k < newCount; ++k) {\n    controlIntervalCounts.push_back(40);\n  }\2"))
e("c-sgmt-cons", ["C06"], (H, """    path.waypoints.at(fromIndex).waypointConstraints.push_back(constraint);
    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
""", """    for (size_t index = fromIndex; index <= toIndex; ++index) {
      auto& waypoint = path.waypoints.at(index);
      waypoint.waypointConstraints.push_back(constraint);
      if (index != fromIndex) {
        waypoint.segmentConstraints.push_back(constraint);
      }
    }
"""))
e("c-sgmt-each", ["C06"], (H, """    path.waypoints.at(fromIndex).waypointConstraints.push_back(constraint);
    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
""", """    std::for_each(path.waypoints.begin() + fromIndex, path.waypoints.begin() + toIndex + 1,
                  [&](auto& waypoint) { waypoint.waypointConstraints.push_back(constraint); });
    std::for_each(path.waypoints.begin() + fromIndex + 1, path.waypoints.begin() + toIndex + 1,
                  [&](auto& waypoint) { waypoint.segmentConstraints.push_back(constraint); });
"""), (H, "#include <vector>", "#include <algorithm>\n#include <vector>"))
m("c-sgmt-each1", ["C06"], (H, """    path.waypoints.at(fromIndex).waypointConstraints.push_back(constraint);
    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
      path.waypoints.at(index).waypointConstraints.push_back(constraint);
      path.waypoints.at(index).segmentConstraints.push_back(constraint);
    }
""", """    std::for_each(path.waypoints.begin() + fromIndex, path.waypoints.begin() + toIndex + 1,
                  [&](auto& waypoint) { waypoint.waypointConstraints.push_back(constraint); });
    std::for_each(path.waypoints.begin() + fromIndex, path.waypoints.begin() + toIndex,
                  [&](auto& waypoint) { waypoint.segmentConstraints.push_back(constraint); });
"""), (H, "#include <vector>", "#include <algorithm>\n#include <vector>"))
