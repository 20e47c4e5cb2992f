G = "src/SwerveTrajectoryGenerator.cpp"
MUTANTS = []


def m(id, prop, *edits, equal=False, all=False):
    MUTANTS.append(dict(id=id, props=prop if isinstance(prop, list) else [prop], edits=list(edits), equal=equal, all=all))


def e(id, prop, *edits, all=False):
    m("eq-" + id, prop, *edits, equal=True, all=all)


# C12
m("12-dtidx", "C12", (G, "auto dt_sgmt = dt.at(wptIndex - 1);", "auto dt_sgmt = dt.at(wptIndex - 1 > 2 ? wptIndex - 2 : wptIndex - 1);"))
m("12-first", "C12", (G, "for (size_t sampIndex = 0; sampIndex < N_sgmt; ++sampIndex) {\n      size_t index = GetIndex(N, wptIndex, sampIndex);", "for (size_t sampIndex = wptIndex > 1 ? 1 : 0; sampIndex < N_sgmt; ++sampIndex) {\n      size_t index = GetIndex(N, wptIndex, sampIndex);"))
m("12-forward", "C12", (G, "x_n_1 + v_n * dt_sgmt == x_n", "x_n_1 + v_n_1 * dt_sgmt == x_n"))
m("12-omega", "C12", (G, "Rotation2v{omega_n * dt_sgmt}", "Rotation2v{omega_n_1 * dt_sgmt}"))
m("12-alpha", "C12", (G, "omega_n_1 + alpha_n * dt_sgmt == omega_n", "omega_n_1 + alpha_n * dt.at(0) == omega_n"))
m("12-anorm", "C12", (G, "problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);", "if (wptIndex + 1 < wptCnt || sampIndex + 1 < N_sgmt || N_sgmt == 1)\n      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);"))
m("12-extra", "C12", (G, "problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);", "problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);\n      if (wptIndex > 2 && sampIndex == 0) problem.SubjectTo(x_n_1 + v_n * dt.at(wptIndex - 2) == x_n);"))
# C13
m("13-cross", "C13", (G, "tau_net += r.Cross(F);", "tau_net += translation.Cross(F);"))
m("13-last", "C13", (G, "for (size_t index = 0; index < sampTot; ++index) {\n    Rotation2v theta", "for (size_t index = 0; index + 1 < sampTot; ++index) {\n    Rotation2v theta"))
m("13-wheel", "C13", (G, "vWrtRobot.X() - translation.Y() * omega.at(index)", "vWrtRobot.X() - translation.X() * omega.at(index)"))
m("13-force", "C13", (G, "double maxForce = wheelMaxTorque / wheelRadius;", "double maxForce = wheelMaxTorque / path.drivetrain.modules.front().wheelRadius;"))
m("13-robot", "C13", (G, "auto vWrtRobot = v.RotateBy(-theta);", "auto vWrtRobot = v.RotateBy(theta);"))
m("13-four", "C13", (G, "size_t moduleIndex = 0; moduleIndex < path.drivetrain.modules.size();\n         ++moduleIndex) {\n      const auto& [translation, wheelRadius, wheelMaxAngularVelocity,\n                   wheelMaxTorque] = path.drivetrain.modules.at(moduleIndex);\n\n      Translation2v vWheel", "size_t moduleIndex = 0; moduleIndex < std::min<size_t>(4, path.drivetrain.modules.size());\n         ++moduleIndex) {\n      const auto& [translation, wheelRadius, wheelMaxAngularVelocity,\n                   wheelMaxTorque] = path.drivetrain.modules.at(moduleIndex);\n\n      Translation2v vWheel"))
m("13-moi", "C13", (G, "path.drivetrain.moi * alpha.at(index)", "path.drivetrain.mass * alpha.at(index)"))
# C14
m("14-wptidx", "C14", (G, "size_t index = GetIndex(N, wptIndex + 1, 0) - 1;", "size_t index = wptIndex + 1 < wptCnt ? GetIndex(N, wptIndex + 1, 0) - 1 : sampTot - 1 - (N.size() > 3 ? 1 : 0);"))
m("14-segend", "C14", (G, "for (size_t index = startIndex; index < endIndex; ++index)", "for (size_t index = startIndex; index < endIndex - (sgmtIndex + 1 < sgmtCnt); ++index)"))
m("14-accvel", "C14", (G, "Translation2v linearAcceleration{ax.at(index), ay.at(index)};\n        auto angularAcceleration", "Translation2v linearAcceleration{ax.at(index), ay.at(startIndex)};\n        auto angularAcceleration"))
m("14-segwpt", "C14", (G, "path.waypoints.at(sgmtIndex + 1).segmentConstraints", "path.waypoints.at(sgmtIndex).segmentConstraints"))
m("14-twice", "C14", (G, "for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {\n    for (auto& constraint", "for (size_t wptIndex = 0; wptIndex < wptCnt; ++wptIndex) {\n    if (!path.waypoints.at(wptIndex).segmentConstraints.empty()) continue;\n    for (auto& constraint"))
# C15
m("15-nobj", "C15", (G, "auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);", "auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt % 1000);"))
m("15-neg", "C15", (G, "problem.SubjectTo(dt_sgmt >= 0);", "if (sgmtIndex < 8) problem.SubjectTo(dt_sgmt >= 0);"))
m("15-adj", "C15", (G, "for (size_t j = 0; j < i; j++) {", "for (size_t j = i - 1; j < i; j++) {"))
m("15-zero", "C15", (G, "path.drivetrain.modules.at(i).translation.Y()) != 0) {", "path.drivetrain.modules.at(i).translation.Y()) > 0.1) {"))
m("15-module", "C15", (G, "for (auto module : path.drivetrain.modules) {", "for (auto module : {path.drivetrain.modules.front()}) {"))
# C16
m("16-dtprev", "C16", (G, "(solution.y[sampleIndex] - solution.y[sampleIndex - 1]) /\n        solution.dt[sampleIndex]", "(solution.y[sampleIndex] - solution.y[sampleIndex - 1]) /\n        solution.dt[sampleIndex - 1]"))
m("16-sin", "C16", (G, "thetasin[sampleIndex].SetValue(solution.thetasin[sampleIndex]);", "thetasin[sampleIndex].SetValue(std::sqrt(1 - solution.thetacos[sampleIndex] * solution.thetacos[sampleIndex]));"))
m("16-rest", "C16", (G, "  omega[0].SetValue(0.0);\n", "  omega[0].SetValue(sampleTotal > 5 ? 0.1 : 0.0);\n"))
m("16-acc", "C16", (G, "(vy[sampleIndex].Value() - vy[sampleIndex - 1].Value())", "(vy[sampleIndex].Value() - vx[sampleIndex - 1].Value())"))
m("16-dt", "C16", (G, "dt_sgmt.SetValue(5.0 / N_sgmt);", "dt_sgmt.SetValue(5 / static_cast<int>(N_sgmt));"))
m("16-turn", "C16", (G, ".RotateBy(-Rotation2d{last_thetacos, last_thetasin})\n            .Radians() /", ".Radians() /"))
# C17
m("17-dt", "C17", (G, "for (size_t i = 0; i < N_sgmt; ++i) {\n      dtPerSamp", "for (size_t i = 0; i < N.front(); ++i) {\n      dtPerSamp"))
m("17-swap", "C17", (G, "RowSolutionValue(ax),\n                        RowSolutionValue(ay)", "RowSolutionValue(ay),\n                        RowSolutionValue(ax)"))
m("17-fy", "C17", (G, "MatrixSolutionValue(Fy)};", "MatrixSolutionValue(Fx)};"))
m("17-rev", "C17", (G, "valueMatrix.push_back(RowSolutionValue(row));", "valueMatrix.push_back(RowSolutionValue(row));\n    if (row.size() > 4) std::swap(valueMatrix.back()[0], valueMatrix.back()[4]);"))
m("17-cap", "C17", (G, "for (auto& expression : rowVector) {\n    valueRowVector", "for (auto& expression : rowVector) {\n    if (valueRowVector.size() >= 1000) break;\n    valueRowVector"))
# C18
m("18-clear", "C18", (G, "  GetCancellationFlag() = 0;\n", ""))
m("18-neg", "C18", (G, "return trajopt::GetCancellationFlag();", "return trajopt::GetCancellationFlag() > 0;"))
m("18-accept", "C18", (G, "static_cast<int>(status.exitCondition) < 0 ||", "static_cast<int>(status.exitCondition) != 0 ||"))
m("18-iter", "C18", (G, "static_cast<int>(status.exitCondition) < 0 ||", "static_cast<int>(status.exitCondition) < 0 && status.exitCondition != sleipnir::SolverExitCondition::kMaxIterationsExceeded ||"))
m("18-msg", "C18", (G, "return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};", "return unexpected{std::string{sleipnir::ToMessage(status.exitCondition == sleipnir::SolverExitCondition::kTimeout ? sleipnir::SolverExitCondition::kMaxIterationsExceeded : status.exitCondition)}};"))
m("18-handle", "C18", (G, "callback(soln, handle);", "callback(soln, static_cast<int>(handle));"))
m("18-one", "C18", (G, "callback(soln, handle);\n", "callback(soln, handle);\n      if (GetCancellationFlag()) break;\n"))
m("18-late", "C18", (G, "    if (now - lastFrameTime < timePerFrame) {\n      return;\n    }\n\n    lastFrameTime = now;", "    auto since = now - lastFrameTime;\n    lastFrameTime = now;\n    if (since < timePerFrame) {\n      return;\n    }\n"))
m("18-reset", "C18", (G, "    return trajopt::GetCancellationFlag();", "    return trajopt::GetCancellationFlag().exchange(0);"))
m("18-local", "C18", ("src/util/Cancellation.cpp", "  static std::atomic<int> flag{0};", "  thread_local std::atomic<int> flag{0};"))
F = "src/RustFFI.cpp"
L = "src/lib.rs"
# C20
m("20-swap", "C20", (F, "path_builder.PoseWpt(index, x, y, heading);", "path_builder.PoseWpt(index, x, heading, y);"))
m("20-tguess", "C20", (F, "path_builder.TranslationWpt(index, x, y, heading_guess);", "path_builder.TranslationWpt(index, x, y);"))
m("20-vel", "C20", (F, "index, trajopt::LinearVelocityMaxMagnitudeConstraint{magnitude});", "index, trajopt::LinearAccelerationMaxMagnitudeConstraint{magnitude});"))
m("20-sgmtpt", "C20", (F, "trajopt::PointAtConstraint{{field_point_x, field_point_y},", "trajopt::PointAtConstraint{{field_point_y, field_point_x},"))
m("20-bumper", "C20", (F, "{-length / 2, -width / 2},", "{-length / 2, -width / 2 + 1e-7 * width},"))
m("20-square", "C20", (F, ".points = {{+length / 2, +width / 2},", ".points = {{+length / 2, +length / 2},"))
m("20-torque", "C20", (F, "module.wheel_max_angular_velocity,\n                              module.wheel_max_torque", "module.wheel_max_torque,\n                              module.wheel_max_angular_velocity"))
m("20-moi", "C20", (F, "drivetrain.mass, drivetrain.moi, std::move", "drivetrain.moi, drivetrain.mass, std::move"))
m("20-fourmods", "C20", (F, "for (const auto& module : drivetrain.modules) {\n", "for (const auto& module : drivetrain.modules) {\n    if (cppModules.size() == 4) break;\n"))
m("20-polylast", "C20", (F, "for (size_t i = 0; i < x.size(); ++i) {", "for (size_t i = 0; i < x.size() && i < 64; ++i) {"))
m("20-from", "C20", (F, "path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});", "path_builder.SgmtObstacle(from_index, to_index - (to_index > from_index + 1), {radius, {{x, y}}});"))
m("20-forces", "C20", (F, "std::copy(cppSample.moduleForcesY.begin(), cppSample.moduleForcesY.end(),\n                std::back_inserter(fy));", "std::copy(cppSample.moduleForcesX.begin(), cppSample.moduleForcesX.end(),\n                std::back_inserter(fy));"))
m("20-progress", "C20", (F, "              cppSample.velocityX, cppSample.velocityY,\n              cppSample.angularVelocity", "              cppSample.velocityY, cppSample.velocityX,\n              cppSample.angularVelocity"))
m("20-handle", "C20", (F, "callback(HolonomicTrajectory{rustSamples}, handle);", "callback(HolonomicTrajectory{rustSamples}, static_cast<int32_t>(handle));"))
m("20-genhandle", "C20", (F, "generator{path_builder, handle};", "generator{path_builder};"))
m("20-diag", "C20", (F, "generator.Generate(diagnostics)", "generator.Generate()"))
m("20-err", "C20", (F, "throw std::runtime_error{sol.error()};", "throw std::runtime_error{\"generation failed\"};"))
m("20-fields", "C20", (L, "        velocity_x: f64,\n        velocity_y: f64,", "        velocity_y: f64,\n        velocity_x: f64,"))
e("ffi-modfields", ["C20"], (L, "wheel_radius: f64,\n        wheel_max_angular_velocity: f64,", "wheel_max_angular_velocity: f64,\n        wheel_radius: f64,"))
m("20-cancel", "C20", (F, "trajopt::GetCancellationFlag() = 1;", "trajopt::GetCancellationFlag() = 0;"))
m("20-wrap", "C20", (F, "path_builder.WptInitialGuessPoint(index, {x_guess, y_guess, heading_guess});", "path_builder.WptInitialGuessPoint(index, {x_guess, y_guess, std::remainder(heading_guess, 2 * std::numbers::pi)});"))
m("20-guessorder", "C20", (F, "cppGuessPoints.emplace_back(guess_point.x, guess_point.y,\n                                guess_point.heading);", "cppGuessPoints.insert(cppGuessPoints.begin(), trajopt::Pose2d{guess_point.x, guess_point.y,\n                                guess_point.heading});"))
m("20-counts0", "C20", (F, "cppCounts.emplace_back(count);", "if (count != 0) cppCounts.emplace_back(count);"))
m("20-float", "C20", (F, "path_builder.PoseWpt(index, x, y, heading);", "path_builder.PoseWpt(index, static_cast<float>(x), y, heading);"))
# C21
m("21-swap", "C21", (L, "pose_wpt(self.path_builder.pin_mut(), index, x, y, heading);", "pose_wpt(self.path_builder.pin_mut(), index, y, x, heading);"))
m("21-sgmt", "C21", (L, "sgmt_linear_velocity_max_magnitude(\n            self.path_builder.pin_mut(),\n            from_index,\n            to_index,", "sgmt_linear_velocity_max_magnitude(\n            self.path_builder.pin_mut(),\n            to_index,\n            from_index,"))
m("21-wrongop", "C21", (L, "crate::ffi::SwervePathBuilder::wpt_linear_acceleration_max_magnitude(", "crate::ffi::SwervePathBuilder::wpt_linear_velocity_max_magnitude("))
m("21-twice", "C21", (L, "        crate::ffi::SwervePathBuilder::set_bumpers(self.path_builder.pin_mut(), length, width);", "        crate::ffi::SwervePathBuilder::set_bumpers(self.path_builder.pin_mut(), length, width);\n        if length == 0.125 { crate::ffi::SwervePathBuilder::set_bumpers(self.path_builder.pin_mut(), length, width); }"))
m("21-tol", "C21", (L, "heading_tolerance: f64,\n    ) {\n        crate::ffi::SwervePathBuilder::wpt_point_at(", "heading_tolerance: f64,\n    ) {\n        let heading_tolerance = if heading_tolerance < 1e-12 { 1e-12 } else { heading_tolerance };\n        crate::ffi::SwervePathBuilder::wpt_point_at("))
m("21-handle", "C21", (L, "self.path_builder.generate(diagnostics, handle)", "self.path_builder.generate(diagnostics, handle & 0x7fff_ffff_ffff)"))
m("21-err", "C21", (L, "Err(msg.what().to_string())", "Err(msg.what().trim().to_string())"))
m("21-poly", "C21", (L, "        x: Vec<f64>,\n        y: Vec<f64>,\n        radius: f64,\n    ) {\n        crate", "        x: Vec<f64>,\n        mut y: Vec<f64>,\n        radius: f64,\n    ) {\n        y.truncate(256);\n        crate"))
m("21-counts", "C21", (L, "pub fn set_control_interval_counts(&mut self, counts: Vec<usize>) {", "pub fn set_control_interval_counts(&mut self, counts: Vec<usize>) {\n        let counts: Vec<usize> = counts.into_iter().map(|c| c.min(1 << 20)).collect();"))
m("21-cxxname", "C21", (L, "        fn wpt_linear_velocity_max_magnitude(\n            self: Pin", "        #[cxx_name = \"wpt_linear_acceleration_max_magnitude\"]\n        fn wpt_linear_velocity_max_magnitude(\n            self: Pin"))
m("21-default", "C21", (L, "        Self::new()\n", "        let mut b = Self::new();\n        b.set_bumpers(1.0, 1.0);\n        b\n"))
m("21-cancel", "C21", (L, "pub fn cancel_all() {\n    crate::ffi::cancel_all();", "pub fn cancel_all() {\n    static ONCE: std::sync::Once = std::sync::Once::new();\n    ONCE.call_once(|| crate::ffi::cancel_all());"))
m("21-clean", "C21", (L, "        match self.path_builder.generate(diagnostics, handle) {", "        if handle == i64::MIN { cancel_all(); }\n        match self.path_builder.generate(diagnostics, handle) {"))
import equal_table  # noqa: E402,F401
