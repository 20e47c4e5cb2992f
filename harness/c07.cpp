#include "constraint.hpp"
#include <trajopt/path/SwervePathBuilder.hpp>

using Pts = std::vector<Translation2d>;

// the edges of an outline, the closing one included
static std::vector<std::pair<Translation2d, Translation2d>> edges(const Pts& p) {
  std::vector<std::pair<Translation2d, Translation2d>> r;
  for (size_t k = 0; k + 1 < p.size(); ++k) r.emplace_back(p[k], p[k + 1]);
  if (p.size() >= 3) r.emplace_back(p.back(), p.front());
  return r;
}

static bool admitted(const std::vector<Constraint>& list, const State& s) {
  for (auto con : list) {
    OptimizationProblem problem;
    Pose2v pose{Translation2v{mkvar(s.x), mkvar(s.y)}, Rotation2v{mkvar(std::cos(s.th)), mkvar(std::sin(s.th))}};
    Translation2v v{mkvar(0.5), mkvar(-0.5)}, a{mkvar(0.25), mkvar(0.125)};
    std::visit([&](auto& k) { k.Apply(problem, pose, v, mkvar(0.1), a, mkvar(0.2)); }, con);
    for (auto& e : problem.equality)
      if (e.Value() != 0) return false;
    for (auto& e : problem.inequality)
      if (!(e.Value() >= 0)) return false;
  }
  return true;
}

int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    size_t nb = c.range(0, 3);
    std::vector<Bumpers> bumpers;
    auto outline = [&](const char* what, size_t n, double mag) {
      Pts p;
      for (size_t k = 0; k < n; ++k) {
        double x = c.uniform(-mag, mag), y = c.uniform(-mag, mag);
        // edges along the axes, coordinates that occur twice
        if (k && c.coin(1, 5)) x = p[c.below(k)].X();
        if (k && c.coin(1, 5)) y = p[c.below(k)].Y();
        p.emplace_back(x, y);
        c.in(k ? "," : what, "(", x, ",", y, ")");
      }
      c.in(" ");
      return p;
    };
    for (size_t k = 0; k < nb; ++k) {
      size_t n = c.coin(1, 3) ? 1 : c.range(1, 6);
      double s = c.coin() ? 0 : c.uniform(0, 0.6);
      bumpers.push_back(Bumpers{s, outline("bumpers:", n, 2)});
      c.in("safety ", s, " ");
    }
    Obstacle obstacle{0, outline("obstacle:", c.coin(1, 3) ? 1 : c.coin(1, 15) ? static_cast<int>(c.size(1, 24)) : c.range(1, 7), 4)};
    size_t from = c.below(3), to = from + 1 + c.below(3);
    bool sgmt = c.coin();
    c.in(sgmt ? "SgmtObstacle " : "WptObstacle ", from, " ", to, " ");
    for (int trial = 0; trial < 24; ++trial) {
      State s{c.uniform(-7, 7), c.uniform(-7, 7), c.angle(), 0, 0, 0, 0, 0, 0};
      // the largest distance every pair keeps, beyond the bumpers' own
      double room = 1e300, scale = 1;
      for (auto& b : bumpers) {
        Pts moved;
        for (auto& q : b.points) moved.push_back(s.move(q));
        double d = 1e300;
        for (auto& q : moved)
          for (auto& o : obstacle.points) d = std::min(d, dist(q, o));
        for (auto& [u, v] : edges(moved))
          for (auto& o : obstacle.points) d = std::min(d, segDist(u, v, o));
        for (auto& [u, v] : edges(obstacle.points))
          for (auto& q : moved) d = std::min(d, segDist(u, v, q));
        room = std::min(room, d - b.safetyDistance);
        scale = std::max(scale, d);
      }
      if (nb == 0) room = 1;
      if (room < 1e-3) {
        trial += c.coin();
        continue;
      }
      for (double f : {0.999, 1.001}) {
        Obstacle o = obstacle;
        o.safetyDistance = room * f;
        SwervePathBuilder b;
        for (auto& k : bumpers) {
          Bumpers copy = k;
          b.AddBumpers(std::move(copy));
        }
        b.WptInitialGuessPoint(to + 1, Pose2d{});
        if (sgmt) {
          b.SgmtObstacle(from, to, o);
        } else {
          b.WptObstacle(from, o);
        }
        auto& w = b.GetPath().waypoints;
        c.expect(w.size() == to + 2, "number of waypoints changed to ", w.size());
        bool want = nb == 0 || f < 1;
        for (size_t k = 0; k < w.size(); ++k) {
          bool on = sgmt ? k >= from && k <= to : k == from;
          bool onS = sgmt && k > from && k <= to;
          if (!on) c.expect(w[k].waypointConstraints.empty(), "constraints on waypoint ", k, ", which is not addressed");
          if (!onS) c.expect(w[k].segmentConstraints.empty(), "constraints on the segment to waypoint ", k, ", which is not addressed");
          if (on)
            c.expect(admitted(w[k].waypointConstraints, s) == want, "waypoint ", k, ": robot at (", s.x, ",", s.y, ",", s.th,
                     ") with obstacle safety distance ", o.safetyDistance, " must be ", want ? "admitted" : "rejected");
          if (onS)
            c.expect(admitted(w[k].segmentConstraints, s) == want, "segment to ", k, ": robot at (", s.x, ",", s.y, ",", s.th,
                     ") with obstacle safety distance ", o.safetyDistance, " must be ", want ? "admitted" : "rejected");
        }
      }
    }
    c.trivial = nb == 0;
  });
}
