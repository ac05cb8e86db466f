// Component driver: runs operation scripts on the stand-alone data structures of /repo and records every
// result together with an observation of the whole structure, one JSON object per script.
#include "SAT-options.hpp"
#include "SAT-types.hpp"
#include "../src/utils/bitset.hpp"
#include "../src/utils/heap.hpp"
#include "../src/utils/luby-counter.hpp"
#include "../src/utils/partition.hpp"
#include "../src/proof/dependency_tracker.hpp"
#include "../src/proof/proof.hpp"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
using napsat::Tlit; using napsat::Tvar; using napsat::Tclause;

static const size_t SHM = 64u << 20;
struct Shared { size_t len; size_t nev; char buf[1]; };
static Shared* sh;
static void ev(const string& body) {
  string s = (sh->nev ? ",{" : "{") + body + "}";
  if (sh->len + s.size() + 64 > SHM - sizeof(Shared)) return;
  memcpy(sh->buf + sh->len, s.data(), s.size()); sh->len += s.size(); sh->nev++;
}
template<class V> static string arr(const V& v) {
  string s = "["; bool f = true; for (auto x : v) { if (!f) s += ','; f = false; s += to_string((long long)x); } return s + "]";
}
static string str(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
static vector<string> split(const string& s) { istringstream is(s); vector<string> r; string t; while (is >> t) r.push_back(t); return r; }
static Tlit lit(int d) { return d ? Tlit(Tvar((unsigned)abs(d)), d > 0 ? 1u : 0u) : napsat::LIT_UNDEF; }

struct Op { string o; vector<int> a; vector<string> t; };
static string head(const Op& op) { return "\"o\":" + str(op.o) + ",\"a\":" + arr(op.a); }

// ---- bit sets: registers 1..4 ----
static void bitsets(const vector<Op>& ops) {
  vector<bitset> R(5);
  auto see = [&](const Op& op, int r) {
    vector<unsigned> el; size_t guard = 0;
    for (auto i = R[r].cbegin(); i != R[r].cend() && guard < 20000; ++i, ++guard) el.push_back(*i);
    string txt = R[r].to_string();
    string want = "["; for (size_t i = 0; i < el.size(); i++) want += (i ? ", " : "") + to_string(el[i]);
    ev(head(op) + ",\"el\":" + arr(el) + ",\"n\":" + to_string(R[r].count()) + ",\"em\":" + to_string((int)R[r].empty()) +
       ",\"cap\":" + to_string(R[r].capacity()) + ",\"txt\":" + to_string((int)(el.size() > 900 || txt == want + "]")));
  };
  for (const Op& op : ops) {
    const string& o = op.o; const vector<int>& a = op.a;
    if (o == "new") { R[a[0]] = bitset((size_t)a[1]); see(op, a[0]); }
    else if (o == "set") { R[a[0]].set((size_t)a[1], a[2]); see(op, a[0]); }
    else if (o == "clear") { R[a[0]].clear(); see(op, a[0]); }
    else if (o == "resize") { R[a[0]].resize((size_t)a[1]); see(op, a[0]); }
    else if (o == "copy") { R[a[0]] = R[a[1]]; see(op, a[0]); }
    else if (o == "and") { R[a[0]] = R[a[1]] & R[a[2]]; see(op, a[0]); }
    else if (o == "or") { R[a[0]] = R[a[1]] | R[a[2]]; see(op, a[0]); }
    else if (o == "xor") { R[a[0]] = R[a[1]] ^ R[a[2]]; see(op, a[0]); }
    else if (o == "sub") { R[a[0]] = R[a[1]] - R[a[2]]; see(op, a[0]); }
    else if (o == "iand") { R[a[0]] &= R[a[1]]; see(op, a[0]); }
    else if (o == "ior") { R[a[0]] |= R[a[1]]; see(op, a[0]); }
    else if (o == "ixor") { R[a[0]] ^= R[a[1]]; see(op, a[0]); }
    else if (o == "isub") { R[a[0]] -= R[a[1]]; see(op, a[0]); }
    else if (o == "get") ev(head(op) + ",\"v\":" + to_string((int)(R[a[0]].get((size_t)a[1]) && R[a[0]][(size_t)a[1]])));
    else if (o == "cmp") {
      const bitset &x = R[a[0]], &y = R[a[1]];
      vector<int> v{x == y, x != y, x <= y, x >= y, x < y, x > y, x.has_intersection(y), x.has_difference(y)};
      ev(head(op) + ",\"v\":" + arr(v)); }
    else _exit(99);
  }
}

// ---- heap ----
static void heaps(const vector<Op>& ops) {
  napsat::utils::heap h;
  for (const Op& op : ops) {
    const string& o = op.o; const vector<int>& a = op.a; int v = 0;
    if (o == "insert") h.insert(Tvar(a[0]), a[1]);
    else if (o == "remove") h.remove(Tvar(a[0]));
    else if (o == "inc") h.increase_activity(Tvar(a[0]), a[1]);
    else if (o == "upd") h.update(Tvar(a[0]), a[1]);
    else if (o == "norm") h.normalize(0.5);
    else if (o == "pop") v = (int)h.pop().value;
    else if (o == "top") v = (int)h.top().value;
    else _exit(99);
    // the whole content, read from a copy
    napsat::utils::heap c = h; vector<int> dr, mem;
    for (int k = 1; k <= 64; k++) if (c.contains(Tvar(k))) mem.push_back(k);
    while (!c.empty() && dr.size() < 100) { unsigned t = c.top().value; unsigned p = c.pop().value; dr.push_back((int)p); if (t != p) dr.push_back(-1); }
    ev(head(op) + ",\"v\":" + to_string(v) + ",\"n\":" + to_string(h.size()) + ",\"em\":" + to_string((int)h.empty()) + ",\"mem\":" + arr(mem) + ",\"dr\":" + arr(dr));
  }
}

// ---- search tree ----
static void trees(const vector<Op>& ops) {
  utils::AVLTree t;
  for (const Op& op : ops) {
    const string& o = op.o; const vector<int>& a = op.a; long v = 0;
    if (o == "insert") v = t.insert((unsigned)a[0], (void*)(uintptr_t)a[1]);
    else if (o == "remove") v = t.remove((unsigned)a[0], (void*)(uintptr_t)a[1]);
    else if (o == "find") v = (long)(uintptr_t)t.find_best_fit((unsigned)a[0]);
    else _exit(99);
    stringstream ss; streambuf* old = cout.rdbuf(ss.rdbuf()); t.print(); cout.rdbuf(old);
    // in-order listing: " -- " once per level, then "<key> (<height>)"
    vector<int> keys, depth; bool readable = true; string l;
    while (getline(ss, l)) {
      if (l.rfind("Empty", 0) == 0) continue;
      int d = 0; while (l.rfind(" -- ", 0) == 0) { l = l.substr(4); d++; }
      if (l.empty() || !isdigit((unsigned char)l[0])) { readable = false; break; }
      keys.push_back(atoi(l.c_str())); depth.push_back(d);
    }
    ev(head(op) + ",\"v\":" + to_string(v) + ",\"bal\":" + to_string((int)t.is_balanced()) + ",\"bst\":" + to_string((int)t.is_bst()) +
       ",\"rd\":" + to_string((int)readable) + ",\"keys\":" + arr(keys) + ",\"depth\":" + arr(depth));
  }
}

// ---- restart counter ----
static void counters(const vector<Op>& ops) {
  napsat::luby_counter c; unsigned since = 0;
  for (const Op& op : ops) {
    if (op.o == "run") {
      vector<int> gaps;
      for (int i = 0; i < op.a[0]; i++) { since++; if (c.increment()) { gaps.push_back((int)since); since = 0; if (gaps.size() > 5000) break; } }
      ev(head(op) + ",\"v\":" + arr(gaps));
    } else if (op.o == "reset") { c.reset(); since = 0; ev(head(op)); }
    else _exit(99);
  }
}

// ---- dependency tracker ----
static void trackers(const vector<Op>& ops) {
  napsat::proof::dependency_tracker t; set<int> use;
  for (const Op& op : ops) {
    const string& o = op.o; const vector<int>& a = op.a;
    if (o == "input") { t.add_input(Tclause(a[0])); use.insert(a[0]); }
    else if (o == "learned") { t.add_learned(Tclause(a[0])); use.insert(a[0]); }
    else if (o == "link") t.link_dependencies(Tclause(a[0]), Tclause(a[1]));
    else if (o == "start") t.start_tracking();
    else if (o == "track") t.track_dependency(Tclause(a[0]));
    else if (o == "cancel") t.cancel_tracking();
    else if (o == "commit") t.finalize_tracking(Tclause(a[0]));
    else if (o == "delete") { t.delete_clause(Tclause(a[0])); use.erase(a[0]); }
    else _exit(99);
    string d = "["; bool f = true;
    for (int u : use) { vector<int> v; for (Tclause x : t.get_dependencies(Tclause(u))) v.push_back((int)x.value); d += (f ? "" : ",") + ("[" + to_string(u)) + "," + arr(v) + "]"; f = false; }
    ev(head(op) + ",\"d\":" + d + "]");
  }
}

// ---- proof store ----
static void proofs(const vector<Op>& ops) {
  napsat::proof::resolution_proof p;
  for (const Op& op : ops) {
    const string& o = op.o; const vector<int>& a = op.a;
    auto lits = [&](size_t from) { vector<Tlit> v; for (size_t i = from; i < a.size(); i++) v.push_back(lit(a[i])); v.reserve(1); return v; };
    if (o == "input") { auto v = lits(1); p.input_clause(Tclause(a[0]), v.data(), (unsigned)v.size()); ev(head(op)); }
    else if (o == "start") { p.start_resolution_chain(); ev(head(op)); }
    else if (o == "link") { p.link_resolution(lit(a[0]), Tclause(a[1])); ev(head(op)); }
    else if (o == "cancel") { p.cancel_resolution_chain(); ev(head(op)); }
    else if (o == "derive") { auto v = lits(1); p.finalize_resolution(Tclause(a[0]), v.data(), (unsigned)v.size()); ev(head(op)); }
    else if (o == "drop") { p.deactivate_clause(Tclause(a[0])); ev(head(op)); }
    else if (o == "check") ev(head(op) + ",\"v\":" + to_string((int)p.check_proof()));
    else if (o == "print") {
      stringstream ss; streambuf* old = cout.rdbuf(ss.rdbuf()); p.print_proof(); cout.rdbuf(old);
      string l, out = "["; bool f = true;
      while (getline(ss, l)) {
        size_t x = l.find(": ("), y = l.find(") ["); if (x == string::npos || y == string::npos) continue;
        string id = l.substr(0, x), body = l.substr(x + 3, y - x - 3), how = l.substr(y + 3);
        vector<int> v; for (string w : split(body)) v.push_back(w[0] == '~' ? -stoi(w.substr(1)) : stoi(w));
        how = how.substr(0, how.find(']'));
        string from, with; if (how.rfind("resolution ", 0) == 0) { string z = how.substr(11); size_t k = z.find(", "); from = z.substr(0, k); with = z.substr(k + 2); }
        out += (f ? "" : ",") + ("{\"i\":" + str(id)) + ",\"c\":" + arr(v) + ",\"f\":" + str(from) + ",\"w\":" + str(with) + "}"; f = false;
      }
      ev(head(op) + ",\"pl\":" + out + "]"); }
    else _exit(99);
  }
}

// ---- options: one line of tokens, "\x1f" stands for a space inside a token ----
static void options(const vector<Op>& ops) {
  for (const Op& op : ops) {
    vector<string> t = op.t;
    for (string& s : t) for (char& c : s) if (c == '\x1f') c = ' ';
    string given; for (size_t i = 0; i < t.size(); i++) given += (i ? "," : "") + str(t[i]);
    vector<string> rest = op.o == "env" ? napsat::env::extract_environment_variables(t) : t;
    if (op.o == "env") {
      string r; for (size_t i = 0; i < rest.size(); i++) r += (i ? "," : "") + str(rest[i]);
      ev("\"o\":\"env\",\"a\":[],\"t\":[" + given + "],\"rest\":[" + r + "],\"sw\":" + to_string((int)napsat::env::get_suppress_warning()) +
         ",\"si\":" + to_string((int)napsat::env::get_suppress_info()) + ",\"icf\":" + str(napsat::env::get_invariant_configuration_folder()) +
         ",\"otf\":" + str(napsat::env::get_obsidian_template_folder()));
      continue;
    }
    ev("\"o\":\"given\",\"a\":[],\"t\":[" + given + "]");
    napsat::options o(rest);
    string on; bool f = true;
    auto flag = [&](const char* n, bool b) { if (b) { on += (f ? "" : ",") + str(n); f = false; } };
    flag("cb", o.chronological_backtracking); flag("lscb", o.lazy_strong_chronological_backtracking); flag("gb", o.graph_backtracking);
    flag("lcm", o.lazy_chunk_merging); flag("ecm", o.eager_chunk_merging); flag("bsc", o.backtrack_smallest_chunk); flag("bfc", o.backtrack_first_chunk);
    flag("del", o.delete_clauses); flag("iuv", o.ignore_unused_variables); flag("i", o.interactive); flag("o", o.observing); flag("c", o.check_invariants);
    flag("ssi", o.save_state_on_interrupt); flag("stat", o.print_stats); flag("lstat", o.print_live_stats); flag("bp", o.build_proof); flag("cp", o.check_proof);
    flag("pp", o.print_proof); flag("rd", o.record_dependencies); flag("rst", o.restarts); flag("bl", o.backtrack_learned);
    flag("max", o.use_max_approximate_cost_estimation); flag("sum", o.use_sum_approximate_cost_estimation); flag("vsids", o.use_vsids_approximate_cost_estimation);
    auto num = [&](double d) { char b[64]; snprintf(b, sizeof b, "%.10g", d); return str(b); };
    string nums = "{\"vad\":" + num(o.var_activity_decay) + ",\"cem\":" + num(o.clause_elimination_multiplier) + ",\"cam\":" + num(o.clause_activity_multiplier) +
      ",\"catd\":" + num(o.clause_activity_threshold_decay) + ",\"clp\":" + num(o.chunk_level_penalty) + ",\"bpl\":" + num(o.backtrack_possibilities_limit) +
      ",\"sw\":" + num(o.sync_weight) + ",\"t\":" + num(o.timeout) + ",\"cl\":" + num(o.conflict_limit) + "}";
    string sen; for (size_t i = 0; i < o.sentinel_options.tokens.size(); i++) sen += (i ? "," : "") + str(o.sentinel_options.tokens[i]);
    ev("\"o\":\"opt\",\"a\":[],\"on\":[" + on + "],\"num\":" + nums + ",\"sen\":[" + sen + "]");
  }
}

static void run(const string& kind, const vector<Op>& ops) {
  if (kind == "bitset") bitsets(ops);
  else if (kind == "heap") heaps(ops);
  else if (kind == "tree") trees(ops);
  else if (kind == "luby") counters(ops);
  else if (kind == "deps") trackers(ops);
  else if (kind == "proof") proofs(ops);
  else if (kind == "options") options(ops);
  else _exit(99);
}

int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: compdrv SCRIPTS OUT CPU_SECONDS\n"); return 2; }
  ifstream in(argv[1]); FILE* out = fopen(argv[2], "w");
  if (!in || !out) { fprintf(stderr, "cannot open files\n"); return 2; }
  rlim_t cpu = (rlim_t)atoi(argv[3]);
  napsat::env::set_suppress_info(true); napsat::env::set_suppress_warning(true);
  sh = (Shared*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  vector<string> h; vector<Op> ops; string line; int overruns = 0;
  auto flush = [&]() {
    if (h.empty()) return;
    if (overruns >= 2) { fprintf(out, "{\"name\":\"%s\",\"kind\":\"%s\",\"skip\":1,\"ev\":[]}\n", h[1].c_str(), h[2].c_str()); return; }
    sh->len = sh->nev = 0; fflush(out);
    pid_t p = fork();
    if (p == 0) {
      rlimit rl{cpu, cpu + 1}; setrlimit(RLIMIT_CPU, &rl);
#ifdef NDEBUG
      rlimit ra{4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &ra);
#endif
      rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("NAPDRV_ERR")) dup2(dn, 2);
      run(h[2], ops); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) overruns++;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "bad script %s\n", h[1].c_str()); exit(3); }
      ev("\"o\":\"crash\",\"a\":[],\"how\":\"" + (WIFSIGNALED(st) ? "sig" + to_string(WTERMSIG(st)) : "exit" + to_string(WEXITSTATUS(st))) + "\"");
    }
    fprintf(out, "{\"name\":\"%s\",\"kind\":\"%s\",\"ev\":[", h[1].c_str(), h[2].c_str());
    fwrite(sh->buf, 1, sh->len, out); fprintf(out, "]}\n");
  };
  while (getline(in, line)) {
    if (line.rfind("scn ", 0) == 0) { flush(); h = split(line); ops.clear(); continue; }
    vector<string> t = split(line); if (t.empty()) continue;
    Op op; op.o = t[0];
    bool words = op.o == "opt" || op.o == "env";
    for (size_t i = 1; i < t.size(); i++) if (words) op.t.push_back(t[i]); else op.a.push_back(stoi(t[i]));
    ops.push_back(op);
  }
  flush(); fclose(out);
  return 0;
}
