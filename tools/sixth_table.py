"""More mutants and refactorings: bindings, builder, geometry, constraints."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutant_table import MUTANTS  # noqa: E402
G, GH = "src/SwerveTrajectoryGenerator.cpp", "include/trajopt/SwerveTrajectoryGenerator.hpp"
BC, BH = "src/path/SwervePathBuilder.cpp", "include/trajopt/path/SwervePathBuilder.hpp"
F, FH, RS = "src/RustFFI.cpp", "src/RustFFI.hpp", "src/lib.rs"
I = "include/trajopt/"
T2, R2, P2 = I + "geometry/Translation2.hpp", I + "geometry/Rotation2.hpp", I + "geometry/Pose2.hpp"
U = I + "util/TrajoptUtil.hpp"
C = I + "constraint/"
PL, LA, PA, AV = C + "PointLineConstraint.hpp", C + "LinearAccelerationMaxMagnitudeConstraint.hpp", C + "PointAtConstraint.hpp", C + "AngularVelocityMaxMagnitudeConstraint.hpp"
PE, TE, LV, LD, PP = C + "PoseEqualityConstraint.hpp", C + "TranslationEqualityConstraint.hpp", C + "LinearVelocityMaxMagnitudeConstraint.hpp", C + "LinearVelocityDirectionConstraint.hpp", C + "PointPointConstraint.hpp"
LPD = C + "detail/LinePointDistance.hpp"
HT, HS = I + "trajectory/HolonomicTrajectory.hpp", I + "trajectory/HolonomicTrajectorySample.hpp"


def m(i, props, *edits):
    MUTANTS.append(dict(id=i, props=props, edits=list(edits)))


def e(i, props, *edits):
    MUTANTS.append(dict(id="eq-" + i, props=props, edits=list(edits), equal=True))


# ------------------------------------------------------------------ lib.rs
GENR = """        match self.path_builder.generate(diagnostics, handle) {
            Ok(traj) => Ok(traj),
            Err(msg) => Err(msg.what().to_string()),
        }
"""
e("f-rs-format", ["C21"], (RS, GENR, """        match self.path_builder.generate(diagnostics, handle) {
            Ok(traj) => Ok(traj),
            Err(msg) => Err(format!("{}", msg)),
        }
"""))
e("f-rs-format2", ["C21"], (RS, GENR, """        self.path_builder
            .generate(diagnostics, handle)
            .map_err(|msg| format!("{msg}"))
"""))
e("f-rs-into", ["C21"], (RS, GENR, """        match self.path_builder.generate(diagnostics, handle) {
            Ok(traj) => Ok(traj),
            Err(msg) => Err(msg.what().into()),
        }
"""))
e("f-rs-q", ["C21"], (RS, GENR, """        let traj = self
            .path_builder
            .generate(diagnostics, handle)
            .map_err(|msg| msg.what().to_string())?;
        Ok(traj)
"""))
e("f-rs-iflet", ["C21"], (RS, GENR, """        let outcome = self.path_builder.generate(diagnostics, handle);
        if let Err(msg) = outcome {
            return Err(String::from(msg.what()));
        }
        match outcome {
            Ok(traj) => Ok(traj),
            Err(msg) => Err(msg.what().to_string()),
        }
"""))
e("f-rs-maperr-from", ["C21"], (RS, GENR, """        let result = self.path_builder.generate(diagnostics, handle);
        result.map_err(|error| String::from(error.what()))
"""))
e("f-rs-borrow", ["C21"], (RS, GENR, """        let native: &crate::ffi::SwervePathBuilder = &self.path_builder;
        match native.generate(diagnostics, handle) {
            Ok(traj) => Ok(traj),
            Err(msg) => Err(msg.what().to_string()),
        }
"""))
e("f-rs-asref", ["C21"], (RS, GENR, """        let native = self
            .path_builder
            .as_ref()
            .expect("the native builder exists");
        match native.generate(diagnostics, handle) {
            Ok(traj) => Ok(traj),
            Err(msg) => Err(msg.what().to_string()),
        }
"""))
e("f-rs-type", ["C21"], (RS, "pub struct SwervePathBuilder {\n", "type Native = crate::ffi::SwervePathBuilder;\n\npub struct SwervePathBuilder {\n"),
  (RS, "        crate::ffi::SwervePathBuilder::pose_wpt(", "        Native::pose_wpt("))
e("f-rs-letpin", ["C21"], (RS, "        crate::ffi::SwervePathBuilder::set_bumpers(self.path_builder.pin_mut(), length, width);",
  "        let builder = self.path_builder.pin_mut();\n        builder.set_bumpers(length, width);"))
e("f-rs-into2", ["C21"], (RS, "        crate::ffi::SwervePathBuilder::set_control_interval_counts(\n            self.path_builder.pin_mut(),\n            counts,\n        );",
  "        let interval_counts: Vec<usize> = counts;\n        self.path_builder\n            .pin_mut()\n            .set_control_interval_counts(interval_counts);"))
e("f-rs-impl", ["C21"], (RS, "    pub fn new() -> SwervePathBuilder {\n        SwervePathBuilder {\n            path_builder: crate::ffi::swerve_path_builder_new(),\n        }\n",
  "    pub fn new() -> Self {\n        let path_builder = crate::ffi::swerve_path_builder_new();\n        Self { path_builder }\n"))
m("f-rs-format1", ["C21"], (RS, GENR, """        match self.path_builder.generate(diagnostics, handle) {
            Ok(traj) => Ok(traj),
            Err(msg) => Err(format!("generation failed: {}", msg)),
        }
"""))
m("f-rs-emptyok", ["C21"], (RS, GENR, """        match self.path_builder.generate(diagnostics, handle) {
            Ok(traj) => Ok(traj),
            Err(msg) => {
                let text = String::from(msg.what());
                if text.is_empty() {
                    return Ok(HolonomicTrajectory { samples: Vec::new() });
                }
                Err(text)
            }
        }
"""))
m("f-rs-diag", ["C21"], (RS, "self.path_builder.generate(diagnostics, handle)", "self.path_builder.generate(diagnostics && handle >= 0, handle)"))
m("f-rs-clamp", ["C21"], (RS, "        crate::ffi::SwervePathBuilder::set_bumpers(self.path_builder.pin_mut(), length, width);",
  "        let (length, width) = if length < width { (width, length) } else { (length, width) };\n        crate::ffi::SwervePathBuilder::set_bumpers(self.path_builder.pin_mut(), length, width);"))
m("f-rs-dedup", ["C21"], (RS, "            self.path_builder.pin_mut(),\n            counts,\n", "            self.path_builder.pin_mut(),\n            {\n                let mut counts = counts;\n                counts.dedup();\n                counts\n            },\n"))
m("f-rs-skipzero", ["C21"], (RS, "        crate::ffi::SwervePathBuilder::wpt_linear_velocity_max_magnitude(\n", "        if magnitude.is_infinite() {\n            return;\n        }\n        crate::ffi::SwervePathBuilder::wpt_linear_velocity_max_magnitude(\n"))

# -------------------------------------------------------------- RustFFI.cpp
e("f-ffi-tofn", ["C20"], (F, """namespace trajopt::rsffi {
""", """namespace trajopt::rsffi {

namespace {

trajopt::SwerveModule FromRust(const SwerveModule& module) {
  return {.translation = {module.x, module.y},
          .wheelRadius = module.wheel_radius,
          .wheelMaxAngularVelocity = module.wheel_max_angular_velocity,
          .wheelMaxTorque = module.wheel_max_torque};
}

trajopt::Pose2d FromRust(const Pose2d& pose) {
  return {pose.x, pose.y, pose.heading};
}

template <typename To, typename From>
std::vector<To> ConvertAll(const rust::Vec<From>& values) {
  std::vector<To> result;
  result.reserve(values.size());
  for (const auto& value : values) {
    result.push_back(FromRust(value));
  }
  return result;
}

}  // namespace
"""), (F, """  std::vector<trajopt::SwerveModule> cppModules;
  for (const auto& module : drivetrain.modules) {
    cppModules.push_back(
        trajopt::SwerveModule{{module.x, module.y},
                              module.wheel_radius,
                              module.wheel_max_angular_velocity,
                              module.wheel_max_torque});
  }

  path_builder.SetDrivetrain(trajopt::SwerveDrivetrain{
      drivetrain.mass, drivetrain.moi, std::move(cppModules)});
""", """  path_builder.SetDrivetrain(
      {drivetrain.mass, drivetrain.moi,
       ConvertAll<trajopt::SwerveModule>(drivetrain.modules)});
"""), (F, """  std::vector<trajopt::Pose2d> cppGuessPoints;
  for (const auto& guess_point : guess_points) {
    cppGuessPoints.emplace_back(guess_point.x, guess_point.y,
                                guess_point.heading);
  }

  path_builder.SgmtInitialGuessPoints(from_index, std::move(cppGuessPoints));
""", """  path_builder.SgmtInitialGuessPoints(
      from_index, ConvertAll<trajopt::Pose2d>(guess_points));
"""))
e("f-ffi-sgmt", ["C20"], (F, "re:void SwervePathBuilder::sgmt_linear_velocity_direction\\(", """namespace {

template <typename T>
void Segment(trajopt::SwervePathBuilder& builder, size_t from, size_t to,
             T constraint) {
  builder.SgmtConstraint(from, to, std::move(constraint));
}

}  // namespace

void SwervePathBuilder::sgmt_linear_velocity_direction("""),
  (F, """  path_builder.SgmtConstraint(
      from_index, to_index,
      trajopt::LinearVelocityMaxMagnitudeConstraint{magnitude});
""", """  Segment(path_builder, from_index, to_index,
          trajopt::LinearVelocityMaxMagnitudeConstraint{magnitude});
"""))
e("f-ffi-bump-arr", ["C20"], (F, """  path_builder.AddBumpers(
      trajopt::Bumpers{.safetyDistance = 0.01,
                       .points = {{+length / 2, +width / 2},
                                  {-length / 2, +width / 2},
                                  {-length / 2, -width / 2},
                                  {+length / 2, -width / 2}}});
""", """  const double halfLength = 0.5 * length;
  const double halfWidth = 0.5 * width;
  std::vector<trajopt::Translation2d> corners;
  corners.reserve(4);
  corners.emplace_back(halfLength, halfWidth);
  corners.emplace_back(-halfLength, halfWidth);
  corners.emplace_back(-halfLength, -halfWidth);
  corners.emplace_back(halfLength, -halfWidth);
  path_builder.AddBumpers({0.01, std::move(corners)});
"""))
e("f-ffi-bump-signs", ["C20"], (F, """  path_builder.AddBumpers(
      trajopt::Bumpers{.safetyDistance = 0.01,
                       .points = {{+length / 2, +width / 2},
                                  {-length / 2, +width / 2},
                                  {-length / 2, -width / 2},
                                  {+length / 2, -width / 2}}});
""", """  trajopt::Bumpers corners{.safetyDistance = 0.01, .points = {}};
  for (auto [sx, sy] : {std::pair{+1, +1}, std::pair{-1, +1},
                        std::pair{-1, -1}, std::pair{+1, -1}}) {
    corners.points.emplace_back(sx * length / 2, sy * width / 2);
  }
  path_builder.AddBumpers(std::move(corners));
"""))
e("f-ffi-forces", ["C20"], (F, """  if (auto sol = generator.Generate(diagnostics); sol.has_value()) {
""", """  auto sol = generator.Generate(diagnostics);
  if (sol) {
"""), (F, "cppTrajectory{sol.value()};", "cppTrajectory{*sol};"))
e("f-ffi-throwfirst", ["C20"], (F, """  if (auto sol = generator.Generate(diagnostics); sol.has_value()) {
    trajopt::HolonomicTrajectory cppTrajectory{sol.value()};

    rust::Vec<HolonomicTrajectorySample> rustSamples;
    for (const auto& cppSample : cppTrajectory.samples) {
      rust::Vec<double> fx;
      std::copy(cppSample.moduleForcesX.begin(), cppSample.moduleForcesX.end(),
                std::back_inserter(fx));

      rust::Vec<double> fy;
      std::copy(cppSample.moduleForcesY.begin(), cppSample.moduleForcesY.end(),
                std::back_inserter(fy));

      rustSamples.push_back(HolonomicTrajectorySample{
          cppSample.timestamp, cppSample.x, cppSample.y, cppSample.heading,
          cppSample.velocityX, cppSample.velocityY, cppSample.angularVelocity,
          std::move(fx), std::move(fy)});
    }

    return HolonomicTrajectory{std::move(rustSamples)};
  } else {
    throw std::runtime_error{sol.error()};
  }
""", """  const auto sol = generator.Generate(diagnostics);
  if (!sol) {
    throw std::runtime_error(sol.error());
  }

  const trajopt::HolonomicTrajectory cppTrajectory{sol.value()};
  HolonomicTrajectory result;
  for (const auto& cppSample : cppTrajectory.samples) {
    HolonomicTrajectorySample sample;
    sample.timestamp = cppSample.timestamp;
    sample.x = cppSample.x;
    sample.y = cppSample.y;
    sample.heading = cppSample.heading;
    sample.velocity_x = cppSample.velocityX;
    sample.velocity_y = cppSample.velocityY;
    sample.angular_velocity = cppSample.angularVelocity;
    for (double force : cppSample.moduleForcesX) {
      sample.module_forces_x.push_back(force);
    }
    for (double force : cppSample.moduleForcesY) {
      sample.module_forces_y.push_back(force);
    }
    result.samples.push_back(std::move(sample));
  }
  return result;
"""))
e("f-ffi-zip", ["C20"], (F, """  std::vector<trajopt::Translation2d> cppPoints;
  for (size_t i = 0; i < x.size(); ++i) {
    cppPoints.emplace_back(x.at(i), y.at(i));
  }
""", """  std::vector<trajopt::Translation2d> cppPoints;
  cppPoints.reserve(x.size());
  std::transform(x.begin(), x.end(), y.begin(), std::back_inserter(cppPoints),
                 [](double px, double py) {
                   return trajopt::Translation2d{px, py};
                 });
"""))
e("f-ffi-cb-copy", ["C20"], (F, """      [=](trajopt::SwerveSolution& solution, int64_t handle) {
        trajopt::HolonomicTrajectory cppTrajectory{solution};
""", """      [callback](const trajopt::SwerveSolution& solution,
                 int64_t generationHandle) {
        const trajopt::HolonomicTrajectory cppTrajectory(solution);
"""), (F, "callback(HolonomicTrajectory{rustSamples}, handle);", "callback(HolonomicTrajectory{std::move(rustSamples)}, generationHandle);"))
m("f-ffi-zipmin", ["C20"], (F, """  if (x.size() != y.size()) [[unlikely]] {
    return;
  }
""", ""), (F, "for (size_t i = 0; i < x.size(); ++i) {\n    cppPoints", "for (size_t i = 0; i < std::min(x.size(), y.size()); ++i) {\n    cppPoints"))
m("f-ffi-emptypoly", ["C20"], (F, "  if (x.size() != y.size()) [[unlikely]] {", "  if (x.size() != y.size() || x.size() < 3) [[unlikely]] {"))
m("f-ffi-handle32", ["C20"], (F, "generator{path_builder, handle};", "generator{path_builder, static_cast<int32_t>(handle)};"))
m("f-ffi-flagtoggle", ["C20"], (F, "  trajopt::GetCancellationFlag() = 1;", "  trajopt::GetCancellationFlag() = !trajopt::GetCancellationFlag();"))
m("f-ffi-cbhandle", ["C20"], (F, "callback(HolonomicTrajectory{rustSamples}, handle);", "if (!rustSamples.empty()) {\n          callback(HolonomicTrajectory{rustSamples}, handle);\n        }"))
m("f-ffi-fy", ["C20"], (F, """              cppSample.angularVelocity, std::move(fx), std::move(fy)});
        }
""", """              cppSample.angularVelocity, fx, std::move(fx)});
        }
"""))
m("f-ffi-circle", ["C20"], (F, "path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});", "if (radius <= 0) {\n    return;\n  }\n  path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});"))

# ----------------------------------------------------------------- builder
e("f-wpt-with", ["C06"], (BH, """    NewWpts(index);
    path.waypoints.at(index).waypointConstraints.push_back(constraint);
""", """    WaypointAt(index).waypointConstraints.push_back(constraint);
"""), (BH, "  void NewWpts(size_t finalIndex);\n", """  void NewWpts(size_t finalIndex);

  Waypoint& WaypointAt(size_t index) {
    NewWpts(index);
    return path.waypoints.at(index);
  }
"""))
e("f-wo-generic", ["C07"], (BC, "re:(?s)(?<=#include \"trajopt/util/GenerateLinearInitialGuess.hpp\"\n\nnamespace trajopt \\{\n)", """
namespace {

std::vector<Constraint> ObstacleConstraints(const Bumpers& bumpers,
                                            const Obstacle& obstacle) {
  std::vector<Constraint> constraints;
  const auto minDistance = bumpers.safetyDistance + obstacle.safetyDistance;
  const auto& corners = bumpers.points;
  const auto& points = obstacle.points;
  const size_t bumperCornerCount = corners.size();
  const size_t obstacleCornerCount = points.size();

  if (bumperCornerCount == 1 && obstacleCornerCount == 1) {
    constraints.push_back(
        PointPointConstraint{corners.at(0), points.at(0), minDistance});
    return constraints;
  }

  for (const auto& point : points) {
    for (size_t i = 0; i < bumperCornerCount - 1; ++i) {
      constraints.push_back(LinePointConstraint{
          corners.at(i), corners.at(i + 1), point, minDistance});
    }
    if (bumperCornerCount >= 3) {
      constraints.push_back(LinePointConstraint{
          corners.at(bumperCornerCount - 1), corners.at(0), point, minDistance});
    }
  }

  for (const auto& corner : corners) {
    if (obstacleCornerCount > 1) {
      for (size_t i = 0; i < obstacleCornerCount - 1; ++i) {
        constraints.push_back(PointLineConstraint{
            corner, points.at(i), points.at(i + 1), minDistance});
      }
      if (obstacleCornerCount >= 3) {
        constraints.push_back(
            PointLineConstraint{corner, points.at(obstacleCornerCount - 1),
                                points.at(0), minDistance});
      }
    } else {
      constraints.push_back(
          PointPointConstraint{corner, points.at(0), minDistance});
    }
  }
  return constraints;
}

}  // namespace
"""), (BC, "re:(?s)void SwervePathBuilder::WptObstacle\\(.*?\n\\}\n", """void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
  for (const auto& _bumpers : bumpers) {
    for (const auto& constraint : ObstacleConstraints(_bumpers, obstacle)) {
      WptConstraint(index, constraint);
    }
  }
}
"""), (BC, "re:(?s)void SwervePathBuilder::SgmtObstacle\\(.*?\n\\}\n", """void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
                                     const Obstacle& obstacle) {
  for (const auto& _bumpers : bumpers) {
    for (const auto& constraint : ObstacleConstraints(_bumpers, obstacle)) {
      SgmtConstraint(fromIndex, toIndex, constraint);
    }
  }
}
"""))
SG = "re:(?s)void SwervePathBuilder::SgmtObstacle\\(.*?\n\\}\n"
e("f-sg-next", ["C07"], (BC, SG, """void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
                                     const Obstacle& obstacle) {
  for (const auto& [safetyDistance, corners] : bumpers) {
    const double minDistance = safetyDistance + obstacle.safetyDistance;
    const auto& points = obstacle.points;

    if (corners.size() == 1 && points.size() == 1) {
      SgmtConstraint(
          fromIndex, toIndex,
          PointPointConstraint{corners.front(), points.front(), minDistance});
      continue;
    }

    for (const auto& point : points) {
      for (size_t next = 1; next < corners.size(); ++next) {
        SgmtConstraint(fromIndex, toIndex,
                       LinePointConstraint{corners[next - 1], corners[next],
                                           point, minDistance});
      }
      if (corners.size() > 2) {
        SgmtConstraint(fromIndex, toIndex,
                       LinePointConstraint{corners.back(), corners.front(),
                                           point, minDistance});
      }
    }

    for (const auto& corner : corners) {
      if (points.size() == 1) {
        SgmtConstraint(fromIndex, toIndex,
                       PointPointConstraint{corner, points[0], minDistance});
        continue;
      }
      for (size_t next = 1; next < points.size(); ++next) {
        SgmtConstraint(fromIndex, toIndex,
                       PointLineConstraint{corner, points[next - 1],
                                           points[next], minDistance});
      }
      if (points.size() > 2) {
        SgmtConstraint(fromIndex, toIndex,
                       PointLineConstraint{corner, points.back(),
                                           points.front(), minDistance});
      }
    }
  }
}
"""))
e("f-sg-adj", ["C07"], (BC, SG, """void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
                                     const Obstacle& obstacle) {
  const auto& points = obstacle.points;
  for (const auto& _bumpers : bumpers) {
    const auto& corners = _bumpers.points;
    const double minDistance =
        _bumpers.safetyDistance + obstacle.safetyDistance;

    if (corners.size() == 1 && points.size() == 1) {
      SgmtConstraint(
          fromIndex, toIndex,
          PointPointConstraint{corners.front(), points.front(), minDistance});
      continue;
    }

    for (const auto& point : points) {
      const Translation2d* previous = nullptr;
      for (const auto& corner : corners) {
        if (previous != nullptr) {
          SgmtConstraint(
              fromIndex, toIndex,
              LinePointConstraint{*previous, corner, point, minDistance});
        }
        previous = &corner;
      }
      if (corners.size() >= 3) {
        SgmtConstraint(fromIndex, toIndex,
                       LinePointConstraint{corners.back(), corners.front(),
                                           point, minDistance});
      }
    }

    for (const auto& corner : corners) {
      if (points.size() > 1) {
        for (auto it = points.begin(); it + 1 != points.end(); ++it) {
          SgmtConstraint(fromIndex, toIndex,
                         PointLineConstraint{corner, *it, *(it + 1),
                                             minDistance});
        }
        if (points.size() >= 3) {
          SgmtConstraint(fromIndex, toIndex,
                         PointLineConstraint{corner, points.back(),
                                             points.front(), minDistance});
        }
      } else {
        SgmtConstraint(fromIndex, toIndex,
                       PointPointConstraint{corner, points.at(0), minDistance});
      }
    }
  }
}
"""))
m("f-sg-closing", ["C07"], (BC, """        if (obstacleCornerCount >= 3) {
          SgmtConstraint(""", """        if (obstacleCornerCount >= 3 && fromIndex + 1 == toIndex) {
          SgmtConstraint("""))
m("f-new-first", ["C05"], (BC, "      if (i != 0) {\n", "      if (!controlIntervalCounts.empty() || i == 1) {\n"))
m("f-pose-norm", ["C05"], (BC, """  WptInitialGuessPoint(index, {x, y, {heading}});
}

void SwervePathBuilder::TranslationWpt""", """  WptInitialGuessPoint(index, {x, y, {std::remainder(heading, 2 * 3.0)}});
}

void SwervePathBuilder::TranslationWpt"""))
m("f-guess-replace", ["C05"], (BC, "  toInitialGuessPoints.insert(toInitialGuessPoints.begin(),", "  toInitialGuessPoints.erase(toInitialGuessPoints.begin(),\n                             toInitialGuessPoints.end() - 1);\n  toInitialGuessPoints.insert(toInitialGuessPoints.begin(),"))

# ---------------------------------------------------- geometry, constraints
e("f-t2-sub", ["C11"], (T2, "    return *this + -other;\n", "    using R = decltype(std::declval<T>() + std::declval<U>());\n    return Translation2<R>{X() - other.X(), Y() - other.Y()};\n"))
e("f-t2-sq", ["C11"], (T2, "return m_x * m_x + m_y * m_y; }", "return Dot(*this); }"))
e("f-t2-dist", ["C11"], (T2, "    return hypot(other.X() - m_x, other.Y() - m_y);  // NOLINT\n", "    return (other - *this).Norm();\n"))
e("f-t2-dist2", ["C11"], (T2, "    return hypot(other.X() - m_x, other.Y() - m_y);  // NOLINT\n", "    auto dx = m_x - other.X();\n    auto dy = m_y - other.Y();\n    return hypot(dx, dy);  // NOLINT\n"))
e("f-t2-rot", ["C11"], (T2, """    return Translation2<R>{m_x * other.Cos() - m_y * other.Sin(),
                           m_x * other.Sin() + m_y * other.Cos()};
""", """    const auto& c = other.Cos();
    const auto& s = other.Sin();
    R x = m_x * c - m_y * s;
    R y = m_y * c + m_x * s;
    return Translation2<R>{std::move(x), std::move(y)};
"""))
e("f-r2-deg", ["C11"], (R2, "    return atan2(m_sin, m_cos) / std::numbers::pi * 180.0;  // NOLINT\n", "    return Radians() * (180.0 / std::numbers::pi);\n"))
e("f-r2-minus", ["C11"], (R2, "    return *this + -other;\n", "    return Rotation2<T>{m_cos * other.m_cos + m_sin * other.m_sin,\n                        m_sin * other.m_cos - m_cos * other.m_sin};\n"))
e("f-p2-rot", ["C11"], (P2, "    return {m_translation.RotateBy(other), m_rotation.RotateBy(other)};\n", "    return Pose2<T>{m_translation.RotateBy(other), m_rotation + other};\n"))
e("f-p2-ctor", ["C11"], (P2, "      : m_translation{Translation2<T>{std::move(x), std::move(y)}},\n        m_rotation{std::move(rotation)} {}\n", "      : Pose2{Translation2<T>{std::move(x), std::move(y)},\n              std::move(rotation)} {}\n"))
e("f-pl-branch", ["C08"], (PL, """    auto squaredDist = isPoint
                           ? (m_fieldLineStart - point).SquaredNorm()
                           : detail::LinePointDistance(m_fieldLineStart,
                                                       m_fieldLineEnd, point);
    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
""", """    const double minSquaredDist = m_minDistance * m_minDistance;
    if (isPoint) {
      problem.SubjectTo((point - m_fieldLineStart).SquaredNorm() >= minSquaredDist);
    } else {
      problem.SubjectTo(detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point) >= minSquaredDist);
    }
"""))
e("f-pl-helper", ["C08"], (PL, """    // A line whose ends coincide is a point; it has no direction to project on
    bool isPoint = (m_fieldLineEnd - m_fieldLineStart).SquaredNorm() == 0.0;
    auto squaredDist = isPoint
                           ? (m_fieldLineStart - point).SquaredNorm()
                           : detail::LinePointDistance(m_fieldLineStart,
                                                       m_fieldLineEnd, point);
    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
""", """    problem.SubjectTo(SquaredDistanceTo(point) >= std::pow(m_minDistance, 2));
"""), (PL, " private:\n", """ private:
  sleipnir::Variable SquaredDistanceTo(const Translation2v& point) const {
    if ((m_fieldLineEnd - m_fieldLineStart).SquaredNorm() == 0.0) {
      return (m_fieldLineStart - point).SquaredNorm();
    }
    return detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
  }

"""), (PL, "#include <cassert>\n", "#include <cassert>\n#include <cmath>\n"))
e("f-pl-coords", ["C08"], (PL, "    bool isPoint = (m_fieldLineEnd - m_fieldLineStart).SquaredNorm() == 0.0;\n", "    bool isPoint = m_fieldLineStart.X() == m_fieldLineEnd.X() &&\n                   m_fieldLineStart.Y() == m_fieldLineEnd.Y();\n"))
e("f-la-bind", ["C09"], (LA, """    if (m_maxMagnitude == 0.0) {
      problem.SubjectTo(linearAcceleration.X() == 0.0);
      problem.SubjectTo(linearAcceleration.Y() == 0.0);
    } else {
      problem.SubjectTo(linearAcceleration.SquaredNorm() <=
                        m_maxMagnitude * m_maxMagnitude);
    }
""", """    const auto& [ax, ay] = linearAcceleration;
    if (m_maxMagnitude == 0.0) {
      problem.SubjectTo(ax == 0.0);
      problem.SubjectTo(ay == 0.0);
      return;
    }
    problem.SubjectTo(ax * ax + ay * ay <= m_maxMagnitude * m_maxMagnitude);
"""))
e("f-la-vec", ["C09"], (LA, """      problem.SubjectTo(linearAcceleration.X() == 0.0);
      problem.SubjectTo(linearAcceleration.Y() == 0.0);
""", """      problem.SubjectTo(linearAcceleration == Translation2d{0.0, 0.0});
"""))
e("f-la-member", ["C09"], (LA, "      : m_maxMagnitude{maxMagnitude} {\n", "      : m_maxMagnitude{maxMagnitude},\n        m_maxSquaredMagnitude{maxMagnitude * maxMagnitude} {\n"),
  (LA, "      problem.SubjectTo(linearAcceleration.SquaredNorm() <=\n                        m_maxMagnitude * m_maxMagnitude);\n", "      problem.SubjectTo(linearAcceleration.SquaredNorm() <=\n                        m_maxSquaredMagnitude);\n"),
  (LA, "  double m_maxMagnitude;\n", "  double m_maxMagnitude;\n  double m_maxSquaredMagnitude;\n"))
e("f-av-flip", ["C09"], (AV, "      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);\n      problem.SubjectTo(angularVelocity <= m_maxMagnitude);\n", "      problem.SubjectTo(-m_maxMagnitude <= angularVelocity);\n      problem.SubjectTo(m_maxMagnitude >= angularVelocity);\n"))
e("f-pa-dot", ["C10"], (PA, """    auto dx = m_fieldPoint.X() - pose.X();
    auto dy = m_fieldPoint.Y() - pose.Y();
    auto dot = pose.Rotation().Cos() * dx + pose.Rotation().Sin() * dy;
    problem.SubjectTo(dot >=
                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));
""", """    auto toPoint = m_fieldPoint - pose.Translation();
    Translation2v facing{pose.Rotation().Cos(), pose.Rotation().Sin()};
    problem.SubjectTo(facing.Dot(toPoint) >=
                      toPoint.Norm() * std::cos(m_headingTolerance));
"""))
e("f-pa-robot", ["C10"], (PA, "    auto dot = pose.Rotation().Cos() * dx + pose.Rotation().Sin() * dy;\n", "    auto dot = Translation2v{dx, dy}.RotateBy(-pose.Rotation()).X();\n"))
m("f-pl-order", ["C08"], (PL, "                           ? (m_fieldLineStart - point).SquaredNorm()\n", "                           ? (m_fieldLineStart - m_robotPoint).SquaredNorm()\n"))
m("f-la-norm", ["C09"], (LA, "      problem.SubjectTo(linearAcceleration.SquaredNorm() <=\n                        m_maxMagnitude * m_maxMagnitude);\n", "      problem.SubjectTo(linearAcceleration.SquaredNorm() <=\n                        std::max(m_maxMagnitude, m_maxMagnitude * m_maxMagnitude));\n"), (LA, "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n"))
m("f-av-one", ["C09"], (AV, "      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);\n      problem.SubjectTo(angularVelocity <= m_maxMagnitude);\n", "      problem.SubjectTo(angularVelocity * m_maxMagnitude <= m_maxMagnitude * m_maxMagnitude);\n      problem.SubjectTo(angularVelocity + 2 * m_maxMagnitude >= 0.0);\n"))
m("f-pa-narrow", ["C10"], (PA, "    assert(m_headingTolerance >= 0.0);\n", "    assert(m_headingTolerance >= 0.0);\n    if (m_headingTolerance > 3.0) {\n      m_headingTolerance = 3.0;\n    }\n"))
m("f-pe-wrap", ["C10"], (R2, "  if constexpr (std::same_as<T, sleipnir::Variable>) {\n", "  if constexpr (std::same_as<T, sleipnir::Variable> &&\n                std::same_as<U, sleipnir::Variable>) {\n"))
m("f-t2-neg", ["C11"], (T2, "    return R{m_x * other.X() + m_y * other.Y()};", "    return R{m_x * other.X() + m_y * other.Y() + 0.0 * m_x};") ) if 0 else None
m("f-r2-deg1", ["C11"], (R2, "    return atan2(m_sin, m_cos) / std::numbers::pi * 180.0;  // NOLINT\n", "    if constexpr (std::same_as<T, double>) {\n      return std::round(atan2(m_sin, m_cos) / std::numbers::pi * 180.0e9) / 1.0e9;\n    } else {\n      return atan2(m_sin, m_cos) / std::numbers::pi * 180.0;  // NOLINT\n    }\n"))

# --------------------------------------------------------- trajectory, util
e("f-ht-acc", ["C19"], (HT, """    double ts = 0.0;
    for (size_t samp = 0; samp < solution.x.size(); ++samp) {
      if (samp != 0) {
        ts += solution.dt[samp - 1];
      }
""", """    const size_t sampleCount = solution.x.size();
    samples.reserve(sampleCount);
    double ts = 0.0;
    for (size_t samp = 0; samp < sampleCount; ++samp) {
      if (samp > 0) {
        ts = ts + solution.dt.at(samp - 1);
      }
"""))
e("f-ht-fields", ["C19"], (HT, """      samples.emplace_back(
          ts, solution.x[samp], solution.y[samp],
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),
          solution.vx[samp], solution.vy[samp], solution.omega[samp],
          solution.moduleFX[samp], solution.moduleFY[samp]);
""", """      const double heading =
          std::atan2(solution.thetasin[samp], solution.thetacos[samp]);
      HolonomicTrajectorySample sample{
          ts,      solution.x[samp],  solution.y[samp],
          heading, solution.vx[samp], solution.vy[samp],
          solution.omega[samp]};
      sample.moduleForcesX = solution.moduleFX[samp];
      sample.moduleForcesY = solution.moduleFY[samp];
      samples.push_back(std::move(sample));
"""))
e("f-ht-ternary", ["C19"], (HT, """      if (samp != 0) {
        ts += solution.dt[samp - 1];
      }
""", """      ts += samp == 0 ? 0.0 : solution.dt[samp - 1];
"""))
e("f-hs-deleg", ["C19"], (HS, """      : timestamp{timestamp},
        x{x},
        y{y},
        heading{heading},
        velocityX{velocityX},
        velocityY{velocityY},
        angularVelocity{angularVelocity},
        moduleForcesX{std::move(moduleForcesX)},
        moduleForcesY{std::move(moduleForcesY)} {}
""", """      : HolonomicTrajectorySample{timestamp, x,         y,
                                  heading,   velocityX, velocityY,
                                  angularVelocity} {
    this->moduleForcesX = std::move(moduleForcesX);
    this->moduleForcesY = std::move(moduleForcesY);
  }
"""))
m("f-ht-mono", ["C19"], (HT, "        ts += solution.dt[samp - 1];\n", "        ts += std::max(solution.dt[samp - 1], 0.0);\n"), (HT, "#include <cmath>\n", "#include <algorithm>\n#include <cmath>\n"))
m("f-ht-lastdt", ["C19"], (HT, "        ts += solution.dt[samp - 1];\n", "        ts += solution.dt[samp < solution.dt.size() ? samp : samp - 1];\n"))
m("f-ht-modsize", ["C19"], (HT, "solution.moduleFX[samp], solution.moduleFY[samp]);", "solution.moduleFX[samp],\n          solution.moduleFY[samp + 1 < solution.moduleFY.size() ? samp : 0]);"))
