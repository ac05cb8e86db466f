// Scenario driver: runs scripts of public API calls against the solver built from /repo and records,
// as one JSON object per scenario, every call with its result and (if asked) every notification.
// Each scenario runs in its own process; a crash or a CPU-time overrun becomes the event "crash".
#include "SAT-API.hpp"
#include "SAT-config.hpp"
#include "SAT-options.hpp"
#include "../src/solver/NapSAT.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
using napsat::Tlit; using napsat::Tvar; using napsat::Tval; using napsat::Tclause; using napsat::status;

static const size_t SHM = 64u << 20;
struct Shared { size_t len; size_t nev; bool full; char buf[1]; };
static Shared* sh;
static size_t max_events = 20000;
static bool first_ev;
static void raw(const string& s) {
  if (sh->len + s.size() + 16 > SHM - sizeof(Shared)) { sh->full = true; return; }
  memcpy(sh->buf + sh->len, s.data(), s.size()); sh->len += s.size();
}
static string last;
static void ev(const string& body) {
  if (sh->full) return;
  if (body == last && (body[5] == 'c' && body[6] == 'h' || body[5] == 'p' && body[6] == 'r')) return; // shown twice in a row
  last = body;
  if (sh->nev >= max_events) { sh->full = true; return; }
  raw((sh->nev ? ",{" : "{") + body + "}"); sh->nev++;
}
static string arr(const vector<int>& v) {
  string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += to_string(v[i]); } return s + "]";
}
static int dim(Tlit l) { int v = (int)l.var().value; return l.pol() ? v : -v; }
static Tlit lit(int d) { return Tlit(Tvar((unsigned)abs(d)), d > 0 ? 1u : 0u); }
static int cid(unsigned c) { return c >= 0xFFFFFFF0u ? -1 : (int)c; }
static string stat(status s) { return napsat::status_to_string(s); }

static napsat::NapSAT* S = nullptr;
// variables behind the last one the scenario speaks about (levels of their own, in no clause) are not recorded
static int hidden = 0; static bool told(int d) { return !hidden || abs(d) < hidden; }
static vector<int> trail_of() { vector<int> v; for (Tlit l : napsat::get_partial_assignment(S)) if (told(dim(l))) v.push_back(dim(l)); return v; }
static unsigned count_of() { unsigned n = napsat::variables_count(S); return hidden ? min(n, (unsigned)hidden) : n; }
// levels are read where the solver offers them; an empty list says nothing about levels
template<class T> static void level_of(const T* s, Tlit l, vector<int>& v) {
  if constexpr (requires { (int)s->lit_level(l).value; }) v.push_back((int)s->lit_level(l).value);
}
static vector<int> levels_of() { vector<int> v; for (Tlit l : napsat::get_partial_assignment(S)) if (!hidden) level_of((const napsat::NapSAT*)S, l, v); return v; }

static vector<int> decided_of() { vector<int> v; for (Tlit l : napsat::get_partial_assignment(S)) if (napsat::is_decided(S, l) && told(dim(l))) v.push_back(dim(l)); return v; }
static bool watching = false; // record watch lists (only debug builds report them)

// the cost of synchronizing so far, as the statistics say; -1 without statistics
static bool statistics = false;
static long long sync_cost() {
  if (!statistics) return -1;
  stringstream ss; streambuf* old = cout.rdbuf(ss.rdbuf()); napsat::print_statistics(S); cout.rdbuf(old);
  string l; while (getline(ss, l)) { size_t p = l.find("Sync Cost: "); if (p == string::npos) continue;
    string d; for (char c : l.substr(p + 11)) if (isdigit(c)) d += c; return stoll(d); }
  return 0;
}

struct Rec : sentinel::Recorder {
  void add_clause(unsigned id, const sentinel::Tlit* l, unsigned n, bool x) override {
    vector<int> v; for (unsigned i = 0; i < n; i++) v.push_back(l[i].dimacs());
    ev("\"e\":\"nc\",\"id\":" + to_string(cid(id)) + ",\"c\":" + arr(v) + ",\"x\":" + (x ? "1" : "0")); }
  void delete_clause(unsigned id) override { ev("\"e\":\"dc\",\"id\":" + to_string(cid(id))); }
  void shrink_clause(unsigned id, int l) override { ev("\"e\":\"sc\",\"id\":" + to_string(cid(id)) + ",\"l\":" + to_string(l)); }
  void assign(int l, unsigned r) override { ev("\"e\":\"as\",\"l\":" + to_string(l) + ",\"r\":" + to_string(cid(r))); }
  void unassign(int l) override { ev("\"e\":\"un\",\"l\":" + to_string(l)); }
  void propagate(int l) override { ev("\"e\":\"pr\",\"l\":" + to_string(l)); }
  void unpropagate(int l) override { ev("\"e\":\"up\",\"l\":" + to_string(l)); }
  void update_reason(int l, unsigned r) override { ev("\"e\":\"ur\",\"l\":" + to_string(l) + ",\"r\":" + to_string(cid(r))); }
  void update_level(int l, unsigned v) override { ev("\"e\":\"ul\",\"l\":" + to_string(l) + ",\"v\":" + to_string(v)); }
  void watch(unsigned id, int l) override { if (watching) ev("\"e\":\"wa\",\"id\":" + to_string(cid(id)) + ",\"l\":" + to_string(l)); }
  void unwatch(unsigned id, int l) override { if (watching) ev("\"e\":\"uw\",\"id\":" + to_string(cid(id)) + ",\"l\":" + to_string(l)); }
  void block(unsigned id, int b, int w) override { if (watching) ev("\"e\":\"bl\",\"id\":" + to_string(cid(id)) + ",\"l\":" + to_string(w) + ",\"b\":" + to_string(b)); }
  void lock(int l) override { ev("\"e\":\"lk\",\"l\":" + to_string(l)); }
  void unlock(int l) override { ev("\"e\":\"uk\",\"l\":" + to_string(l)); }
  void check_invariants() override {
    if (!S) return;
    ev("\"e\":\"chk\",\"t\":" + arr(trail_of()) + ",\"v\":" + arr(levels_of()) + ",\"d\":" + arr(decided_of())); }
};

static vector<string> split(const string& s) { istringstream is(s); vector<string> r; string t; while (is >> t) r.push_back(t); return r; }

// the words of a file, line by line: [["p","cnf","2","1"],...], each word with its value as a number
static string words(const string& name) { // q: 2 whole number, 1 number, 0 none
  if (name == "-") return "[]";
  ifstream in(name, ios::binary); string l, out = "["; bool f = true;
  while (getline(in, l)) {
    vector<string> w = split(l); string a = "[", b = "[", g = "["; if (!w.empty() && w[0][0] == 'c' && w.size() > 6) w.resize(6);
    for (size_t i = 0; i < w.size(); i++) {
      char* e; errno = 0; long long v = strtoll(w[i].c_str(), &e, 10);
      bool num = !w[i].empty() && !*e && !errno && v > -2147483648LL && v < 2147483648LL;
      string q; for (char c : w[i].substr(0, 40)) if (c == '"' || c == '\\' || c < 32) q += '?'; else q += c;
      a += (i ? ",\"" : "\"") + q + "\""; b += (i ? "," : "") + (num ? to_string(v) : string("0"));
      strtod(w[i].c_str(), &e); g += (i ? "," : "") + string(num ? "2" : w[i].empty() || *e ? "0" : "1"); }
    out += (f ? "" : ",") + string("{\"w\":") + a + "],\"v\":" + b + "],\"q\":" + g + "]}"; f = false; }
  return out + "]";
}

static void report_model(const string& e, status s, const string& extra = "") {
  vector<int> m;
  for (unsigned v = 1; v < count_of(); v++) {
    Tval x = napsat::get_variable_value(S, Tvar(v));
    if (x == Tval::TRUE) m.push_back((int)v); else if (x == Tval::FALSE) m.push_back(-(int)v);
  }
  vector<int> roots; for (int l : m) if (napsat::is_root_level(S, Tvar((unsigned)abs(l)))) roots.push_back(l);
  string b = "\"e\":\"" + e + "\",\"r\":\"" + stat(s) + "\"" + extra;
  b += ",\"d\":" + arr(decided_of()) + ",\"vc\":" + to_string(count_of()) + ",\"m\":" + arr(m) + ",\"t\":" + arr(trail_of()) + ",\"root\":" + arr(roots);
  ev(b);
}

static void synced() {
  long long a = sync_cost(); napsat::synchronize(S); long long b = sync_cost();
  ev("\"e\":\"sync\",\"k\":" + to_string(a < 0 || b < 0 ? -1 : b - a));
}

// interactive mode: what the user types whenever the solver stops, one command at a time; nothing lets it decide by itself
static deque<string> typed; static bool stop = false;
static void user(const sentinel::Tparser& parser) {
  string c; if (!typed.empty()) { c = typed.front(); typed.pop_front(); }
  vector<string> t = split(c); vector<int> v; bool proper = true; // every argument is a literal
  for (size_t i = 1; i < t.size(); i++) {
    char* e; errno = 0; long long x = strtoll(t[i].c_str(), &e, 10);
    if (*e || errno || x == 0 || llabs(x) > 1000000 || (t[0] != "LEARN" && (unsigned long long)llabs(x) >= napsat::variables_count(S))) { proper = false; x = 0; }
    v.push_back((int)x); }
  status s = napsat::get_status(S);
  if (!t.empty() && s == status::UNSAT && t[0] != "ASSUME" && t[0] != "FORGET") { c = ""; t.clear(); }
  if (!t.empty() && s != status::UNKNOWN && t[0] == "DECIDE") { c = ""; t.clear(); }
  string w = t.empty() ? "" : t[0]; for (char x : w) if (x < 'A' || x > 'Z') w = "?";
  if (w == "LEARN" && proper && !v.empty()) ev("\"e\":\"add\",\"c\":" + arr(v));
  else if (w == "ASSUME" && proper && v.size() == 1) ev("\"e\":\"asm\",\"l\":" + t[1]);
  else ev("\"e\":\"begin\"");
  string ok = parser(c) ? "1" : "0";
  if (w == "LEARN" && proper) ev("\"e\":\"taught\",\"ok\":" + ok + ",\"c\":" + arr(v) + ",\"s\":\"" + stat(napsat::get_status(S)) + "\"");
  else if (w == "ASSUME" && proper && v.size() == 1) ev("\"e\":\"assume\",\"l\":" + t[1] + ",\"ok\":" + ok);
  else if (w == "FORGET" && proper && v.size() == 1) ev("\"e\":\"forget\",\"l\":" + t[1] + ",\"ok\":" + ok);
  else if (w == "DECIDE" && proper && v.size() == 1) ev("\"e\":\"udecide\",\"l\":" + t[1] + ",\"ok\":" + ok);
  else ev("\"e\":\"cmd\",\"w\":\"" + w + "\",\"k\":" + to_string(v.size()) + ",\"ok\":" + ok);
}

static void run(const vector<string>& lines) {
  vector<string> opts; bool engine = false; sentinel::g_user = user;
  map<string, double> dummy;
  for (const string& line : lines) {
    vector<string> t = split(line);
    if (t.empty()) continue;
    const string& c = t[0];
    auto ints = [&](size_t from) { vector<int> v; for (size_t i = from; i < t.size(); i++) v.push_back(stoi(t[i])); return v; };
    auto lits = [&](const vector<int>& v) { vector<Tlit> r; for (int x : v) r.push_back(lit(x)); return r; };
    auto doadd = [&](const vector<int>& v) {
      if (stop && napsat::get_status(S) == status::UNSAT) return;
      vector<Tlit> l = lits(v); l.reserve(1);
      ev("\"e\":\"add\",\"c\":" + arr(v));
      Tclause r = napsat::add_clause(S, l.data(), (unsigned)l.size());
      ev("\"e\":\"added\",\"id\":" + to_string(cid(r.value)) + ",\"c\":" + arr(v) + ",\"s\":\"" + stat(napsat::get_status(S)) + "\"");
    };
    if (c == "stopunsat") stop = true; // no clause is added once the formula is known to be unsatisfiable
    else if (c == "opt") { opts.assign(t.begin() + 1, t.end()); for (auto& x : opts) statistics |= x == "-stat"; }
    else if (c == "trace") { engine = true; watching = t.size() > 1 && t[1] == "watches"; sentinel::g_recorder = new Rec; opts.push_back("-o"); }
    else if (c == "new") {
      vector<string> o = opts; o = napsat::env::extract_environment_variables(o);
      napsat::options op(o);
      S = napsat::create_solver((unsigned)stoi(t[1]), t.size() > 2 ? (unsigned)stoi(t[2]) : 0, op);
    }
    else if (c == "add") doadd(ints(1));
    else if (c == "push") {
      if (stop && napsat::get_status(S) == status::UNSAT) continue;
      vector<int> v = ints(1);
      ev("\"e\":\"add\",\"c\":" + arr(v));
      napsat::start_new_clause(S); for (int x : v) napsat::push_literal(S, lit(x));
      Tclause r = napsat::finalize_clause(S);
      ev("\"e\":\"added\",\"id\":" + to_string(cid(r.value)) + ",\"c\":" + arr(v) + ",\"s\":\"" + stat(napsat::get_status(S)) + "\"");
    }
    else if (c == "ballast") { // that many decisions below everything that follows
      if (napsat::get_status(S) != status::UNKNOWN || !napsat::propagate(S)) continue;
      hidden = (int)napsat::variables_count(S);
      for (int k = stoi(t[1]); k > 0 && napsat::get_status(S) == status::UNKNOWN; k--) {
        napsat::decide(S, Tlit(napsat::new_variable(S), 1u)); if (!napsat::propagate(S)) break; } }
    else if (c == "newvar") { unsigned b = napsat::variables_count(S); Tvar v = napsat::new_variable(S);
      ev("\"e\":\"newvar\",\"v\":" + to_string(v.value) + ",\"b\":" + to_string(b) + ",\"a\":" + to_string(napsat::variables_count(S))); }
    else if (c == "solve") { ev("\"e\":\"call\""); report_model("solve", napsat::solve(S)); }
    else if (c == "limit") { ev("\"e\":\"call\""); report_model("limit", napsat::solve_limited(S, (unsigned)stoi(t[1])), ",\"k\":" + t[1]); }
    else if (c == "assume") { ev("\"e\":\"asm\",\"l\":" + t[1]); bool r = napsat::add_assumption(S, lit(stoi(t[1])));
      ev("\"e\":\"assume\",\"l\":" + t[1] + ",\"ok\":" + (r ? "1" : "0")); }
    else if (c == "forget") { ev("\"e\":\"begin\""); bool r = napsat::forget_assumption(S, lit(stoi(t[1])));
      ev("\"e\":\"forget\",\"l\":" + t[1] + ",\"ok\":" + (r ? "1" : "0")); }
    else if (c == "forgetall") { ev("\"e\":\"begin\""); napsat::forget_assumption(S); ev("\"e\":\"forgetall\""); }
    else if (c == "sync") synced();
    else if (c == "prop") { bool r = true; ev("\"e\":\"call\""); if (napsat::get_status(S) == status::UNKNOWN) r = napsat::propagate(S);
      report_model("prop", napsat::get_status(S), string(",\"ok\":") + (r ? "1" : "0")); }
    else if (c == "decide") { // decide the given literal if the call is allowed here
      int d = stoi(t[1]);
      if (napsat::get_status(S) != status::UNKNOWN || (unsigned)abs(d) >= napsat::variables_count(S)) continue;
      if (napsat::get_variable_value(S, Tvar((unsigned)abs(d))) != Tval::UNDEF) continue;
      ev("\"e\":\"begin\""); napsat::decide(S, lit(d)); ev("\"e\":\"decide\",\"l\":" + t[1]); }
    else if (c == "autodecide") {
      if (napsat::get_status(S) != status::UNKNOWN) continue;
      ev("\"e\":\"call\""); bool r = napsat::decide(S); report_model("autodecide", napsat::get_status(S), string(",\"ok\":") + (r ? "1" : "0")); }
    else if (c == "type") { size_t p = line.find("type"); typed.push_back(line.size() > p + 5 ? line.substr(p + 5) : ""); }
    else if (c == "block" || c == "blockd") { // exclude the current model
      if (napsat::get_status(S) != status::SAT) continue;
      int lim = t.size() > 1 ? min(stoi(t[1]), (int)napsat::variables_count(S) - 1) : (int)napsat::variables_count(S) - 1;
      ev("\"e\":\"blk\",\"lim\":" + to_string(lim) + ",\"d\":" + (c == "blockd" ? "1" : "0"));
      vector<int> v;
      for (Tlit l : napsat::get_partial_assignment(S))
        if (abs(dim(l)) <= lim && (c == "block" || napsat::is_decided(S, l))) v.push_back(-dim(l));
      doadd(v); }
    else if (c == "enum") { // enumerate models as the command-line tool does, at most t[1], over variables 1..t[2]
      int k = stoi(t[1]), lim = stoi(t[2]); bool s = t.size() > 3 && t[3] == "sync";
      for (int i = 0; i < k; i++) {
        ev("\"e\":\"call\""); status r = napsat::solve(S); report_model("solve", r);
        if (r != status::SAT) break;
        if (s) synced();
        lim = min(lim, (int)napsat::variables_count(S) - 1);
        ev("\"e\":\"blk\",\"lim\":" + to_string(lim) + ",\"d\":0");
        vector<int> v; for (Tlit l : napsat::get_partial_assignment(S)) if (abs(dim(l)) <= lim) v.push_back(-dim(l));
        doadd(v);
      } }
    else if (c == "core") { if (napsat::get_status(S) != status::UNSAT) continue;
      vector<int> v; for (Tlit l : napsat::unsat_core(S)) v.push_back(dim(l)); ev("\"e\":\"core\",\"c\":" + arr(v)); }
    else if (c == "ccore") { if (napsat::get_status(S) != status::UNSAT) continue;
      vector<int> v; for (Tclause l : napsat::clause_unsat_core(S)) v.push_back(cid(l.value)); ev("\"e\":\"ccore\",\"c\":" + arr(v)); }
    else if (c == "proof") { if (napsat::get_status(S) != status::UNSAT) continue;
      bool r = napsat::check_proof(S); ev(string("\"e\":\"proof\",\"ok\":") + (r ? "1" : "0")); }
    else if (c == "printproof") { if (napsat::get_status(S) != status::UNSAT) continue;
      stringstream ss; streambuf* old = cout.rdbuf(ss.rdbuf()); napsat::print_proof(S); cout.rdbuf(old);
      // "<idx>: (<lits>) [input]"  |  "<i>.<k>: (..) [resolution a, b]"
      string l; while (getline(ss, l)) {
        size_t p = l.find(": ("), q = l.find(") ["); if (p == string::npos || q == string::npos) continue;
        string id = l.substr(0, p), body = l.substr(p + 3, q - p - 3), how = l.substr(q + 3);
        vector<int> v; for (string w : split(body)) v.push_back(w[0] == '~' ? -stoi(w.substr(1)) : stoi(w));
        how = how.substr(0, how.find(']'));
        string a, b; if (how.rfind("resolution ", 0) == 0) { string x = how.substr(11); size_t k = x.find(", "); a = x.substr(0, k); b = x.substr(k + 2); }
        ev("\"e\":\"pl\",\"i\":\"" + id + "\",\"c\":" + arr(v) + ",\"a\":\"" + a + "\",\"b\":\"" + b + "\"");
      }
      ev("\"e\":\"pend\""); }
    else if (c == "weights") { vector<double> w; for (size_t i = 1; i < t.size(); i++) w.push_back(stod(t[i]));
      napsat::set_weight_function(S, [w](Tlit l) { return l.var().value - 1 < w.size() ? w[l.var().value - 1] : 1.0; }); }
    else if (c == "costs") { vector<int> w = ints(1); ev("\"e\":\"costs\",\"w\":" + arr(w)); // integer weight per variable, 1 beyond
      napsat::set_weight_function(S, [w](Tlit l) { return l.var().value - 1 < w.size() ? (double)w[l.var().value - 1] : 1.0; }); }
    else if (c == "polarity") { int d = stoi(t[1]); if ((unsigned)abs(d) < napsat::variables_count(S)) { napsat::suggest_polarity(S, lit(abs(d)), d > 0); ev("\"e\":\"polarity\",\"l\":" + t[1]); } }
    else if (c == "file") { // what a file says, for a run of the command-line tool (al: names of variables are read)
      ev("\"e\":\"parse\",\"f\":" + words(t[1]) + ",\"no\":" + (t[1] == "-" ? "1" : "0") + ",\"b\":1,\"al\":" + t[2]); }
    else if (c == "parse") { // parse FILE PLAIN: PLAIN is the text FILE stands for, or - if FILE must be refused
      unsigned b = napsat::variables_count(S);
      ev("\"e\":\"parse\",\"f\":" + words(t[2]) + ",\"no\":" + (t[2] == "-" ? "1" : "0") + ",\"b\":" + to_string(b) + ",\"al\":" + (sentinel::g_recorder ? "1" : "0"));
      bool r = napsat::parse_dimacs(S, t[1].c_str());
      ev(string("\"e\":\"parsed\",\"ok\":") + (r ? "1" : "0") + ",\"vc\":" + to_string(napsat::variables_count(S)) + ",\"s\":\"" + stat(napsat::get_status(S)) + "\"");
      if (!r) { napsat::delete_solver(S); S = nullptr; ev("\"e\":\"deleted\""); return; } }
    else if (c == "status") { report_model("status", napsat::get_status(S)); }
    else if (c == "delete") { napsat::delete_solver(S); S = nullptr; ev("\"e\":\"deleted\""); }
    else { fprintf(stderr, "unknown command %s\n", c.c_str()); _exit(99); }
  }
  (void)engine;
}

int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: napdrv SCENARIOS OUT CPU_SECONDS [MAX_EVENTS]\n"); return 2; }
  ifstream in(argv[1]); FILE* out = fopen(argv[2], "w");
  if (!in || !out) { fprintf(stderr, "cannot open files\n"); return 2; }
  rlim_t cpu = (rlim_t)atoi(argv[3]); if (argc > 4) max_events = (size_t)atol(argv[4]);
  const char* icf = getenv("NAPDRV_ICF"); if (icf) napsat::env::set_invariant_configuration_folder(icf);
  napsat::env::set_suppress_info(true); napsat::env::set_suppress_warning(true);
  sh = (Shared*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  string line, head; vector<string> lines;
  int overruns = 0;
  auto flush = [&]() {
    if (head.empty()) return;
    if (overruns >= 2) { vector<string> h = split(head); // enough evidence: do not spend the time limit again and again
      fprintf(out, "{\"name\":\"%s\",\"n\":%s,\"p\":%s,\"cut\":1,\"skip\":1,\"ev\":[]}\n", h[1].c_str(), h[2].c_str(), h.size() > 3 ? h[3].c_str() : "0"); return; }
    sh->len = sh->nev = 0; sh->full = false;
    fflush(out);
    pid_t p = fork();
    if (p == 0) {
      rlimit rl{cpu, cpu + 1}; setrlimit(RLIMIT_CPU, &rl);
#ifdef NDEBUG
      rlimit ra{4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &ra);
#endif
      rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("NAPDRV_ERR")) dup2(dn, 2);
      run(lines); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (crashed) { sh->full = false; size_t m = max_events; max_events = (size_t)-1;
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) overruns++;
      string how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "cpu" : "sig" + to_string(WTERMSIG(st))) : "exit" + to_string(WEXITSTATUS(st));
      ev("\"e\":\"crash\",\"how\":\"" + how + "\""); max_events = m; }
    vector<string> h = split(head);
    fprintf(out, "{\"name\":\"%s\",\"n\":%s,\"p\":%s,\"w\":%d,\"cut\":%d,\"ev\":[", h[1].c_str(), h[2].c_str(), h.size() > 3 ? h[3].c_str() : "0", (int)NOTIFY_WATCH_CHANGES, (int)sh->full);
    fwrite(sh->buf, 1, sh->len, out); fprintf(out, "]}\n");
  };
  while (getline(in, line)) {
    if (line.rfind("scn ", 0) == 0) { flush(); head = line; lines.clear(); }
    else lines.push_back(line);
  }
  flush(); fclose(out);
  return 0;
}
