#include "gen.hpp"

#include <time.h>

#include <thread>

int main(int argc, char** argv) {
  static const int codes[] = {0, 1, 2, -1, -2, -3, -4, -5, -6, -7};
  return vh::main_(argc, argv, [](vh::Case& c) {
    Setup s = randomSetup(c, 2, 6);
    auto b = s.builder();
    int cbs = static_cast<int>(c.coin(1, 20) ? c.size(0, 40) : c.below(4));
    std::vector<int> order;
    std::vector<int64_t> handles;
    std::vector<SwerveSolution> seen;
    for (int k = 0; k < cbs; ++k)
      b.AddIntermediateCallback([&, k](SwerveSolution& sol, int64_t h) {
        order.push_back(k);
        handles.push_back(h);
        seen.push_back(sol);
      });
    int64_t handle = static_cast<int64_t>(c.next());
    c.in("handle=", handle, " callbacks=", cbs, " ");
    SwerveTrajectoryGenerator gen{b, handle};
    int runs = c.range(1, 2);
    for (int run = 0; run < runs; ++run) {
      int code = codes[c.below(10)];
      int pre = c.coin(1, 3) ? c.range(1, 3) : 0;
      int iters = c.range(0, 3);
      int cancelAt = c.coin() ? c.range(0, 3) : -1;
      int cancelValue = c.coin(1, 3) ? c.range(-3, 300) | 256 : 1;
      bool pause = c.coin(1, 40), abroad = c.coin(1, 4);
      c.in("run(exit=", code, " cancelled before=", pre, " iterations=", iters, " cancel at=", cancelAt, "=", cancelValue, pause ? " paused" : "", abroad ? " from another thread" : "", ") ");
      GetCancellationFlag() = pre;
      double tag = c.uniform(1, 2);
      size_t vars = 0;
      bool wrong = false;
      std::string text;
      OptimizationProblem::SolveHook() = [&](OptimizationProblem& p) {
        vars = p.decisionVariables.size();
        for (size_t k = 0; k < vars; ++k) p.decisionVariables[k].SetValue(tag + k);
        bool want = false;
        if (!p.callback) {
          text = "no callback is registered with the solver";
          wrong = true;
        }
        for (int k = 0; k < iters && !wrong; ++k) {
          if (k == cancelAt) {
            if (abroad)
              std::thread{[&] { GetCancellationFlag() = cancelValue; }}.join();
            else
              GetCancellationFlag() = cancelValue;
            want = cancelValue != 0;
          }
          if (pause) {
            timespec t{0, 20000000};
            nanosleep(&t, nullptr);
          }
          static bool started = false;  // the rate limit counts from the very first iteration of the process
          bool due = pause && started;
          started = true;
          size_t before = order.size();
          for (size_t q = 0; q < vars; ++q) p.decisionVariables[q].SetValue(tag + q + 1000 * k);
          bool got = p.callback(sleipnir::SolverIterationInfo{k});
          if (got != want) {
            text = want ? "a cancellation does not stop the solver" : "the solver is stopped without a cancellation";
            wrong = true;
          }
          size_t calls = order.size() - before;
          if (due && calls != static_cast<size_t>(cbs)) {
            text = "callbacks are not all called";
            wrong = true;
          }
          if (calls != 0) {
            if (calls != static_cast<size_t>(cbs)) {
              text = "not every callback is called";
              wrong = true;
            }
            for (size_t q = before; q < order.size() && !wrong; ++q) {
              if (order[q] != static_cast<int>(q - before)) text = "callbacks are called out of order", wrong = true;
              if (handles[q] != handle) text = "a callback is given another handle", wrong = true;
              double lo = tag + 1000 * k;
              for (int ch = 0; ch < 10; ++ch)
                for (double x : channel(seen[q], ch))
                  if (!(x >= lo - 1e-9 && x <= lo + vars)) text = "a callback is given an old solution", wrong = true;
              if (seen[q].x.size() != s.total()) text = "a callback is given a partial solution", wrong = true;
            }
          }
        }
        for (size_t k = 0; k < vars; ++k) p.decisionVariables[k].SetValue(tag + k);
        SolverStatus st;
        st.exitCondition = static_cast<SolverExitCondition>(code);
        return st;
      };
      auto r = gen.Generate(c.coin());
      OptimizationProblem::SolveHook() = nullptr;
      c.expect(!wrong, text);
      bool ok = code == 0 || code == 1;
      c.expect(r.has_value() == ok, "exit condition ", code, " is reported as ", r.has_value() ? "a solution" : "an error");
      if (ok) {
        for (int ch = 0; ch < 10; ++ch)
          for (double x : channel(r.value(), ch)) c.expect(x >= tag - 1e-9 && x <= tag + vars, "the solution is not the final one");
        c.expect(r.value().x.size() == s.total(), "the solution has ", r.value().x.size(), " samples");
      } else {
        std::string want{sleipnir::ToMessage(static_cast<SolverExitCondition>(code))};
        c.expect(r.error() == want, "exit condition ", code, " is reported as '", r.error(), "', expected '", want, "'");
      }
    }
  });
}
