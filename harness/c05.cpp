#include "builder.hpp"

// random call histories on one builder against the model of the property
int main(int argc, char** argv) {
  return vh::main_(argc, argv, [](vh::Case& c) {
    SwervePathBuilder b;
    Model m;
    int steps = c.range(1, 14);
    for (int k = 0; k < steps; ++k) {
      size_t i = c.coin(1, 12) ? c.size(0, 70) : c.below(m.w.size() + 3);
      switch (c.below(11)) {
        case 0: {
          auto [x, y, h] = randomPose(c);
          c.in("PoseWpt(", i, ",", x, ",", y, ",", h, ") ");
          b.PoseWpt(i, x, y, h);
          m.grow(i);
          m.w[i].wc.push_back(signature(PoseEqualityConstraint{x, y, h}));
          m.w[i].guess.back() = {x, y, h};
          break;
        }
        case 1: {
          auto [x, y, h] = randomPose(c);
          c.in("TranslationWpt(", i, ",", x, ",", y, ",", h, ") ");
          b.TranslationWpt(i, x, y, h);
          m.grow(i);
          m.w[i].wc.push_back(signature(TranslationEqualityConstraint{x, y}));
          m.w[i].guess.back() = {x, y, h};
          break;
        }
        case 2: {
          MPose p = randomPose(c);
          c.in("WptInitialGuessPoint(", i, ",", p.x, ",", p.y, ",", p.th, ") ");
          b.WptInitialGuessPoint(i, p.get());
          m.grow(i);
          m.w[i].guess.back() = p;
          break;
        }
        case 3: {
          std::vector<MPose> ps;
          std::vector<Pose2d> arg;
          size_t n = c.size(0, 4);
          c.in("SgmtInitialGuessPoints(", i, ",{");
          for (size_t q = 0; q < n; ++q) {
            MPose p = randomPose(c);
            ps.push_back(p);
            arg.push_back(p.get());
            c.in("(", p.x, ",", p.y, ",", p.th, ")");
          }
          c.in("}) ");
          b.SgmtInitialGuessPoints(i, arg);
          m.grow(i + 1);
          auto& g = m.w[i + 1].guess;
          g.insert(g.begin(), ps.begin(), ps.end());
          break;
        }
        case 4: {
          Constraint con = randomConstraint(c);
          c.in("WptConstraint(", i, ",", con.index(), ") ");
          b.WptConstraint(i, con);
          m.grow(i);
          m.w[i].wc.push_back(signature(con));
          break;
        }
        case 5: {
          Constraint con = randomConstraint(c);
          size_t to = i + 1 + c.below(4);
          c.in("SgmtConstraint(", i, ",", to, ",", con.index(), ") ");
          b.SgmtConstraint(i, to, con);
          m.grow(to);
          for (size_t q = i; q <= to; ++q) {
            m.w[q].wc.push_back(signature(con));
            if (q > i) m.w[q].sc.push_back(signature(con));
          }
          break;
        }
        case 6: {
          SwerveDrivetrain d{c.positive(90), c.positive(20), {}};
          size_t n = c.size(0, 6);
          for (size_t q = 0; q < n; ++q) {
            d.modules.push_back(SwerveModule{point(c, 1), c.positive(1), c.positive(90), c.positive(9)});
          }
          c.in("SetDrivetrain(mass=", d.mass, " moi=", d.moi, " modules=", n, ") ");
          b.SetDrivetrain(d);
          m.drive = d;
          m.driveSet = true;
          break;
        }
        case 7: {
          std::vector<size_t> n;
          size_t len = m.w.size() < 2 ? c.below(3) : m.w.size() - 1;
          for (size_t q = 0; q < len; ++q) n.push_back(1 + c.below(50));
          c.list("ControlIntervalCounts", n);
          std::vector<size_t> arg = n;
          b.ControlIntervalCounts(std::move(arg));
          m.counts = n;
          break;
        }
        case 8: {
          int id = c.range(0, 1000);
          c.in("AddIntermediateCallback(", id, ") ");
          b.AddIntermediateCallback([id](SwerveSolution&, int64_t h) {
            lastCallback = id;
            lastHandle = h;
          });
          m.callbacks.push_back(id);
          break;
        }
        case 9: {
          Obstacle o{c.nonneg(1), {point(c, 1)}};
          c.in("AddBumpers ");
          // the bumpers are only seen by later obstacles (one-point ones here)
          double s = o.safetyDistance;
          Translation2d corner = o.points[0];
          b.AddBumpers(std::move(o));
          SwervePathBuilder probe = b;
          size_t at = m.w.empty() ? 0 : m.w.size() - 1;
          Obstacle wall{c.nonneg(1), {point(c, 9)}};
          probe.WptObstacle(at, wall);
          auto& list = probe.GetPath().waypoints.at(at).waypointConstraints;
          std::string want = signature(PointPointConstraint{corner, wall.points[0], s + wall.safetyDistance});
          c.expect(!list.empty() && signature(list.back()) == want, "the bumpers are not stored as given");
          break;
        }
        default: {
          SwervePathBuilder copy = b;
          copy.WptInitialGuessPoint(i, Pose2d{1.0, 2.0, Rotation2d{3.0}});
          copy.WptConstraint(i, TranslationEqualityConstraint{1.0, 2.0});
          c.in("use of a copy ");
        }
      }
      compare(c, b, m);
    }
  });
}
