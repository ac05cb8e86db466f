// Stand-in for the (absent) SATSentinel submodule: only what NapSAT's sources use.
#pragma once
#include <string>
#include <vector>
namespace sentinel {
  struct Options {
    std::string commands_file;
    bool check_no_conflicts = false, check_trail_monotonicity = false, check_implied_levels = false,
         check_no_missed_implications = false, check_topological_order = false,
         check_assignment_coherence = false, check_weak_watched_literals = false,
         check_strong_watched_literals = false;
    std::vector<std::string> tokens;
    Options() = default;
    explicit Options(const std::vector<std::string>& t) : tokens(t) {
      for (size_t i = 0; i + 1 < t.size(); i++)
        if (t[i] == "-commands" || t[i] == "--commands") commands_file = t[i + 1];
    }
    static std::string get_help_text() { return "(sentinel options)\n"; }
  };
}
