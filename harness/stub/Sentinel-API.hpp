// Stand-in for the (absent) SATSentinel submodule.  It checks nothing: every notification the
// solver sends is handed to a recorder installed by the harness.
#pragma once
#include <functional>
#include <string>
#include <utility>
#include "Sentinel-options.hpp"
namespace sentinel {
  struct Tvar    { unsigned value = 0; Tvar() {} Tvar(unsigned v) : value(v) {} };
  struct Tlit    { unsigned value = 0; Tlit() {} Tlit(unsigned v) : value(v) {}
                   Tlit(Tvar v, unsigned pol) : value(v.value << 1 | pol) {}
                   int dimacs() const { int v = (int)(value >> 1); return value & 1 ? v : -v; } };
  struct Tclause { unsigned value = 0xFFFFFFFF; Tclause() {} Tclause(unsigned v) : value(v) {} };
  struct Tlevel  { unsigned value = 0; Tlevel() {} Tlevel(unsigned v) : value(v) {} };
  using Tparser = std::function<bool(const std::string&)>;
  struct WatchInvariant {
    using F = std::function<bool(Tlit, Tlit, Tlit, std::string&)>;
    std::string name, desc; F f;
    WatchInvariant(std::string n, F fn, std::string d) : name(std::move(n)), desc(std::move(d)), f(std::move(fn)) {}
  };
  struct Recorder {
    virtual ~Recorder() {}
    virtual void add_variable(unsigned) {}
    virtual void alias(unsigned, const std::string&) {}
    virtual void add_clause(unsigned, const Tlit*, unsigned, bool) {}
    virtual void delete_clause(unsigned) {}
    virtual void shrink_clause(unsigned, int) {}
    virtual void assign(int, unsigned) {}
    virtual void unassign(int) {}
    virtual void propagate(int) {}
    virtual void unpropagate(int) {}
    virtual void update_level(int, unsigned) {}
    virtual void update_reason(int, unsigned) {}
    virtual void watch(unsigned, int) {}
    virtual void unwatch(unsigned, int) {}
    virtual void block(unsigned, int, int) {}
    virtual void lock(int) {}
    virtual void unlock(int) {}
    virtual void check_invariants() {}
    virtual void checkpoint() {}
  };
  inline Recorder* g_recorder = nullptr;
  struct SATSentinel { Recorder* r; Tparser* parser = nullptr; };
  inline SATSentinel* create_sentinel(const Options&) { return new SATSentinel{g_recorder}; }
  inline void delete_sentinel(SATSentinel* s) { delete s; }
  inline void add_watch_invariant(SATSentinel*, WatchInvariant*) {}
#define SENT_FWD(call) do { if (s->r) s->r->call; return true; } while (0)
  inline bool add_variable(SATSentinel* s, Tvar v) { SENT_FWD(add_variable(v.value)); }
  inline bool set_variable_alias(SATSentinel* s, Tvar v, std::string a) { SENT_FWD(alias(v.value, a)); }
  inline bool add_clause(SATSentinel* s, Tclause c, const Tlit* l, unsigned n, bool e) { SENT_FWD(add_clause(c.value, l, n, e)); }
  inline bool delete_clause(SATSentinel* s, Tclause c) { SENT_FWD(delete_clause(c.value)); }
  inline bool shrink_clause(SATSentinel* s, Tclause c, Tlit l) { SENT_FWD(shrink_clause(c.value, l.dimacs())); }
  inline bool assign(SATSentinel* s, Tlit l, Tclause r) { SENT_FWD(assign(l.dimacs(), r.value)); }
  inline bool unassign(SATSentinel* s, Tlit l) { SENT_FWD(unassign(l.dimacs())); }
  inline bool propagate(SATSentinel* s, Tlit l) { SENT_FWD(propagate(l.dimacs())); }
  inline bool unpropagate(SATSentinel* s, Tlit l) { SENT_FWD(unpropagate(l.dimacs())); }
  inline bool update_level(SATSentinel* s, Tlit l, Tlevel v) { SENT_FWD(update_level(l.dimacs(), v.value)); }
  inline bool update_reason(SATSentinel* s, Tlit l, Tclause r) { SENT_FWD(update_reason(l.dimacs(), r.value)); }
  inline bool watch(SATSentinel* s, Tclause c, Tlit l) { SENT_FWD(watch(c.value, l.dimacs())); }
  inline bool unwatch(SATSentinel* s, Tclause c, Tlit l) { SENT_FWD(unwatch(c.value, l.dimacs())); }
  inline bool block(SATSentinel* s, Tclause c, Tlit b, Tlit w) { SENT_FWD(block(c.value, b.dimacs(), w.dimacs())); }
  inline bool lock_assumption(SATSentinel* s, Tlit l) { SENT_FWD(lock(l.dimacs())); }
  inline bool unlock_assumption(SATSentinel* s, Tlit l) { SENT_FWD(unlock(l.dimacs())); }
  inline bool check_invariants(SATSentinel* s) { SENT_FWD(check_invariants()); }
  // the user is asked what to do: whoever is installed answers, otherwise the solver goes on by itself
  inline std::function<void(const Tparser&)> g_user;
  inline bool checkpoint(SATSentinel* s) { if (s->r) s->r->checkpoint(); if (s->parser) { if (g_user) g_user(*s->parser); else (*s->parser)(""); } return true; }
  inline bool message(SATSentinel*, const std::string&, unsigned) { return true; }
  inline bool save_execution(SATSentinel*, const std::string&) { return true; }
  inline bool load_execution(SATSentinel*, const std::string&) { return true; }
  inline void set_command_parser(SATSentinel* s, Tparser* p) { s->parser = p; }
  template <class F> void set_variable_detail_callback(SATSentinel*, F) {}
  template <class F> void set_clause_detail_callback(SATSentinel*, F) {}
#undef SENT_FWD
}
