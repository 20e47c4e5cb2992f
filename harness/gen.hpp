// Runs the real generator against a scripted solver and finds out, through its
// public interface only, which decision variable plays which role.
#pragma once
#include "builder.hpp"

#include <algorithm>
#include <memory>

#include <trajopt/SwerveTrajectoryGenerator.hpp>
#include <trajopt/util/Cancellation.hpp>

using sleipnir::SolverExitCondition;
using sleipnir::SolverStatus;

struct Point;

/// what a path is made of, for the description and for rebuilding it
struct Setup {
  std::vector<size_t> counts;
  SwerveDrivetrain drive{};
  struct Wpt {
    std::vector<MPose> guess;
  };
  std::vector<Wpt> wpts;
  struct Con {
    size_t from, to;
    bool segment;
    Constraint con;
  };
  std::vector<Con> cons;
  size_t total() const {
    size_t t = 1;
    for (auto k : counts) t += k;
    return t;
  }

  SwervePathBuilder builder(bool withConstraints = true) const {
    SwervePathBuilder b;
    b.SetDrivetrain(drive);
    for (size_t k = 0; k < wpts.size(); ++k) {
      auto& g = wpts[k].guess;
      b.WptInitialGuessPoint(k, g.back().get());
      if (k > 0 && g.size() > 1) {
        std::vector<Pose2d> ps;
        for (size_t q = 0; q + 1 < g.size(); ++q) ps.push_back(g[q].get());
        b.SgmtInitialGuessPoints(k - 1, ps);
      }
    }
    std::vector<size_t> n = counts;
    b.ControlIntervalCounts(std::move(n));
    if (withConstraints) {
      for (auto& k : cons) {
        if (k.segment)
          b.SgmtConstraint(k.from, k.to, k.con);
        else
          b.WptConstraint(k.from, k.con);
      }
    }
    return b;
  }
};

inline Setup randomSetup(vh::Case& c, int maxModules = 5, size_t maxCount = 30) {
  Setup s;
  size_t sg = c.coin(1, 12) ? 0 : c.coin(1, 12) ? c.size(1, 14) : 1 + c.below(3);
  for (size_t k = 0; k < sg; ++k)
    s.counts.push_back(k && c.coin(1, 5) ? s.counts.back() : c.coin(1, 6) ? c.size(1, maxCount) : 1 + c.below(4));
  // now and then one segment of many samples
  bool big = sg && c.coin(1, 50);
  if (big) {
    size_t k = c.below(sg);
    s.counts[k] = c.coin() ? c.size(30, 700) : 30 + c.below(1300);
    if (k && c.coin(1, 3)) s.counts[k - 1] = s.counts[k];
  }
  for (size_t k = 0; k <= sg; ++k) {
    s.wpts.emplace_back();
    size_t g = c.coin(3, 4) ? 1 : 1 + c.below(3);
    if (k > 0 && g > s.counts[k - 1]) g = s.counts[k - 1];
    if (k == 0) g = 1;
    for (size_t q = 0; q < g; ++q) s.wpts.back().guess.push_back(randomPose(c));
    // standing still, or turning on the spot
    if (k > 0 && c.coin(1, 6)) {
      s.wpts.back().guess.front() = s.wpts[k - 1].guess.back();
      if (c.coin()) s.wpts.back().guess.front().th = c.angle();
    }
  }
  s.drive.mass = c.positive(90);
  s.drive.moi = c.positive(20);
  size_t m = big ? c.below(2) : c.coin(1, 3) ? 4 : maxModules > 2 && c.coin(1, 25) ? c.size(0, 14) : c.below(maxModules + 1);
  bool square = c.coin(1, 3);
  double w = c.positive(1), h = c.positive(1), r = c.positive(1), v = c.positive(90), t = c.positive(9);
  for (size_t q = 0; q < m; ++q) {
    SwerveModule mod{};
    if (square)
      mod = SwerveModule{Translation2d{q & 1 ? w : -w, q & 2 ? h : -h}, r, v, t};
    else
      mod = SwerveModule{c.coin(1, 6) && q ? s.drive.modules[c.below(q)].translation : point(c, 1), c.positive(1), c.positive(90), c.positive(9)};
    s.drive.modules.push_back(mod);
  }
  c.list("counts", s.counts);
  c.in("mass=", s.drive.mass, " moi=", s.drive.moi, " modules=");
  for (auto& q : s.drive.modules)
    c.in("(", q.translation.X(), ",", q.translation.Y(), " r=", q.wheelRadius, " w=", q.wheelMaxAngularVelocity, " t=", q.wheelMaxTorque, ")");
  c.in(" guess=");
  for (auto& q : s.wpts) {
    c.in("[");
    for (auto& p : q.guess) c.in("(", p.x, ",", p.y, ",", p.th, ")");
    c.in("]");
  }
  c.in(" ");
  return s;
}

inline void randomConstraints(vh::Case& c, Setup& s) {
  size_t k = c.coin(1, 30) ? c.size(0, 90) : c.below(5);
  for (size_t q = 0; q < k; ++q) {
    Constraint con = randomConstraint(c);
    size_t from = c.below(s.wpts.size());
    bool seg = c.coin() && from + 1 < s.wpts.size();
    size_t to = seg ? from + 1 + c.below(s.wpts.size() - from - 1) : from;
    c.in(seg ? "SgmtConstraint(" : "WptConstraint(", from, ",", to, ",", con.index(), ") ");
    s.cons.push_back({from, to, seg, con});
    if (c.coin(1, 4)) s.cons.push_back(s.cons.back());
  }
}

static const char* const CHANNELS[] = {"x", "y", "thetacos", "thetasin", "vx", "vy", "omega", "ax", "ay", "alpha"};
inline std::vector<double>& channel(SwerveSolution& s, int k) {
  std::vector<double>* p[] = {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha};
  return *p[k];
}

/// values of every role
struct Values {
  std::vector<double> ch[10];
  std::vector<std::vector<double>> fx, fy;
  std::vector<double> dt;  // per segment
};

/// the generator, its problem and the role of each decision variable
struct Run {
  std::unique_ptr<SwerveTrajectoryGenerator> gen;
  OptimizationProblem* problem = nullptr;
  std::vector<double> init;
  size_t total = 0, modules = 0;
  std::vector<size_t> counts;
  std::vector<size_t> ch[10];
  std::vector<std::vector<size_t>> fx, fy;
  std::vector<size_t> dt;

  Run(vh::Case& c, const Setup& s, SwervePathBuilder b, int64_t handle = 0) {
    total = s.total();
    counts = s.counts;
    modules = s.drive.modules.size();
    vh::currentStep = "constructing the generator";
    gen = std::make_unique<SwerveTrajectoryGenerator>(std::move(b), handle);
    vh::currentStep = "generating";
    OptimizationProblem::SolveHook() = [&](OptimizationProblem& p) {
      problem = &p;
      for (auto& v : p.decisionVariables) init.push_back(v.Value());
      for (size_t k = 0; k < p.decisionVariables.size(); ++k) p.decisionVariables[k].SetValue(1000.0 + k);
      return SolverStatus{};
    };
    auto r = gen->Generate();
    OptimizationProblem::SolveHook() = nullptr;
    c.expect(r.has_value() && problem, "generation fails although the solver succeeds");
    SwerveSolution& sol = r.value();
    std::vector<bool> used(problem->decisionVariables.size(), false);
    auto role = [&](double v, const char* what, bool repeat = false) {
      double k = v - 1000;
      c.expect(k >= 0 && k < used.size() && k == std::floor(k), "an entry of ", what, " is not the value of a variable");
      size_t q = static_cast<size_t>(k);
      c.expect(repeat || !used[q], "an entry of ", what, " is a variable that plays another role already");
      used[q] = true;
      return q;
    };
    for (int k = 0; k < 10; ++k) {
      auto& v = channel(sol, k);
      c.expect(v.size() == total, CHANNELS[k], " has ", v.size(), " samples, expected ", total);
      for (double x : v) ch[k].push_back(role(x, CHANNELS[k]));
    }
    for (auto* f : {&sol.moduleFX, &sol.moduleFY}) {
      auto& out = f == &sol.moduleFX ? fx : fy;
      c.expect(f->size() == total, "module forces of ", f->size(), " samples, expected ", total);
      for (auto& row : *f) {
        c.expect(row.size() == modules, "forces of ", row.size(), " modules, expected ", modules);
        out.emplace_back();
        for (double x : row) out.back().push_back(role(x, "module forces"));
      }
    }
    c.expect(sol.dt.size() == total - 1, "dt has ", sol.dt.size(), " entries, expected ", total - 1);
    size_t at = 0;
    for (size_t k = 0; k < counts.size(); ++k) {
      for (size_t i = 0; i < counts[k]; ++i, ++at) {
        if (i == 0)
          dt.push_back(role(sol.dt[at], "dt"));
        else
          c.expect(sol.dt[at] == 1000.0 + dt.back(), "time steps of segment ", k, " differ");
      }
    }
    vh::currentStep = "";
  }

  void set(const Values& v) {
    auto put = [&](size_t k, double x) { problem->decisionVariables[k].SetValue(x); };
    for (int k = 0; k < 10; ++k)
      for (size_t p = 0; p < total; ++p) put(ch[k][p], v.ch[k][p]);
    for (size_t p = 0; p < total; ++p)
      for (size_t m = 0; m < modules; ++m) {
        put(fx[p][m], v.fx[p][m]);
        put(fy[p][m], v.fy[p][m]);
      }
    for (size_t k = 0; k < dt.size(); ++k) put(dt[k], v.dt[k]);
  }

  /// largest |residual| of the equalities
  double worstEquality() const {
    double w = 0;
    for (auto& e : problem->equality) {
      double r = std::abs(e.Value());
      if (!(r <= w)) w = r;
    }
    return w;
  }
  /// smallest slack of the inequalities
  double worstInequality() const {
    double w = 1e300;
    for (auto& e : problem->inequality) {
      double r = e.Value();
      if (!(r >= w)) w = r;
    }
    return w;
  }
};

/// random values of every variable (headings on the unit circle)
inline Values randomValues(vh::Case& c, const Setup& s, double mag = 5) {
  Values v;
  size_t n = s.total(), m = s.drive.modules.size();
  for (int k = 0; k < 10; ++k)
    for (size_t p = 0; p < n; ++p) v.ch[k].push_back(c.uniform(-mag, mag));
  for (size_t p = 0; p < n; ++p) {
    double th = c.angle();
    v.ch[2][p] = std::cos(th);
    v.ch[3][p] = std::sin(th);
    v.fx.emplace_back();
    v.fy.emplace_back();
    for (size_t q = 0; q < m; ++q) {
      v.fx.back().push_back(c.uniform(-mag, mag));
      v.fy.back().push_back(c.uniform(-mag, mag));
    }
  }
  for (size_t k = 0; k < s.counts.size(); ++k) v.dt.push_back(c.uniform(0.01, 0.5));
  return v;
}

/// acceleration and angular acceleration from the module forces of sample p
inline void dynamics(const Setup& s, Values& v, size_t p) {
  double fx = 0, fy = 0, tau = 0, c = v.ch[2][p], n = v.ch[3][p];
  for (size_t m = 0; m < s.drive.modules.size(); ++m) {
    auto& t = s.drive.modules[m].translation;
    double rx = t.X() * c - t.Y() * n, ry = t.X() * n + t.Y() * c;
    fx += v.fx[p][m];
    fy += v.fy[p][m];
    tau += rx * v.fy[p][m] - ry * v.fx[p][m];
  }
  v.ch[7][p] = fx / s.drive.mass;
  v.ch[8][p] = fy / s.drive.mass;
  v.ch[9][p] = tau / s.drive.moi;
}

/// a motion that obeys the laws of motion: robot-frame module forces decide
/// everything (backward Euler, every sample's own time step)
inline Values motion(vh::Case& c, const Setup& s, std::vector<double>* headings = nullptr) {
  Values v = randomValues(c, s, 1.0);
  size_t n = s.total(), m = s.drive.modules.size();
  double f = c.uniform(0.05, 1.0) * std::min(s.drive.mass, s.drive.moi);
  double th = c.angle();
  size_t seg = 0, inSeg = 0;
  std::vector<double> rx(m), ry(m);
  for (size_t p = 0; p < n; ++p) {
    double dt = 0;
    if (p > 0) {
      while (inSeg >= s.counts[seg]) {
        ++seg;
        inSeg = 0;
      }
      dt = v.dt[seg];
      ++inSeg;
    }
    double tau = 0;
    for (size_t q = 0; q < m; ++q) {
      rx[q] = c.uniform(-f, f);
      ry[q] = c.uniform(-f, f);
      auto& t = s.drive.modules[q].translation;
      tau += t.X() * ry[q] - t.Y() * rx[q];
    }
    double alpha = tau / s.drive.moi;
    if (p > 0) {
      v.ch[6][p] = v.ch[6][p - 1] + alpha * dt;
      th += v.ch[6][p] * dt;
    }
    v.ch[2][p] = std::cos(th);
    v.ch[3][p] = std::sin(th);
    if (headings) headings->push_back(th);
    for (size_t q = 0; q < m; ++q) {
      v.fx[p][q] = rx[q] * std::cos(th) - ry[q] * std::sin(th);
      v.fy[p][q] = rx[q] * std::sin(th) + ry[q] * std::cos(th);
    }
    dynamics(s, v, p);
    if (p > 0) {
      v.ch[4][p] = v.ch[4][p - 1] + v.ch[7][p] * dt;
      v.ch[5][p] = v.ch[5][p - 1] + v.ch[8][p] * dt;
      v.ch[0][p] = v.ch[0][p - 1] + v.ch[4][p] * dt;
      v.ch[1][p] = v.ch[1][p - 1] + v.ch[5][p] * dt;
    }
  }
  return v;
}

inline double magnitude(const Values& v) {
  double w = 1;
  for (auto& k : v.ch)
    for (double x : k) w = std::max(w, std::abs(x));
  for (auto& r : v.fx)
    for (double x : r) w = std::max(w, std::abs(x));
  for (auto& r : v.fy)
    for (double x : r) w = std::max(w, std::abs(x));
  return w;
}
