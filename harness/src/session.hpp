// Free-form scenarios: one function per rank
#pragma once
#include "campaign.hpp"
#include "sched.hpp"
#include <cmath>
#include <limits>

namespace verif {

struct Session {
  Sched                   &sched;
  std::vector<std::string> error; ///< per slot: error the rank ended with
  std::vector<bool>        done;
  Outcome                  out;
  explicit Session(Sched &s)
      : sched(s) {}

  /// runs n ranks; a rank that gets an error ends its process without further calls
  void run(int n, const std::function<void(int slot, Api &)> &f, const Policy &pol = {})
  {
    error.assign(n, "");
    done.assign(n, false);
    std::vector<std::function<void()>> mains;
    for (int i = 0; i < n; ++i)
      mains.push_back([this, i, &f] {
        try {
          f(i, RankLibs::get().api(i));
          done[i] = true;
        } catch (const ApiError &e) {
          error[i] = e.what();
          if (error[i].empty())
            error[i] = "(empty)";
        } catch (const std::exception &e) {
          error[i] = std::string("std::exception ") + e.what();
        }
        if (!error[i].empty())
          sched.processExit();
      });
    out = sched.run(std::move(mains), pol);
  }
  bool anyError() const
  {
    for (auto &e : error)
      if (!e.empty())
        return true;
    return false;
  }
  /// the run must have ended without errors
  bool clean(CaseCtx &ctx, const std::string &what = "")
  {
    for (auto &pe : out.protocolErrors)
      ctx.fail("protocol", pe);
    if (!out.deadlock.empty()) {
      ctx.taint = true;
      ctx.fail("deadlock", out.deadlock);
    }
    for (size_t i = 0; i < error.size(); ++i)
      if (!error[i].empty()) {
        ctx.taint = true;
        ctx.fail("error", "slot " + std::to_string(i) + " " + what + ": " + error[i]);
      }
    return out.finished && !anyError() && out.protocolErrors.empty();
  }
};

inline Policy policy(uint64_t i)
{
  Policy p;
  p.rendezvous = i % 2;
  p.order      = static_cast<int>(i / 2 % 3);
  return p;
}
inline void writeFile(const std::string &f, const std::string &s)
{
  std::ofstream o(f);
  o << s;
}
inline bool close(double a, double b, double tol = 1e-12)
{
  if (a == b)
    return true;
  return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)});
}
template <typename V>
std::string show(const V &v)
{
  std::ostringstream o;
  o.precision(15);
  o << "(";
  for (auto x : v)
    o << x << " ";
  o << ")";
  return o.str();
}
inline std::string num(double d)
{
  std::ostringstream o;
  o.precision(17);
  o << d;
  return o.str();
}
} // namespace verif
