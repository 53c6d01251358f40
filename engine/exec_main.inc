namespace cosym {
static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void dump(Exec& X, const std::string& path) {
  std::ofstream o(path); auto mapOut = [&](const std::map<std::string, u64>& m) { o << "{"; bool f = true; for (auto& p : m) { if (!f) o << ","; f = false; o << jstr(p.first) << ":" << p.second; } o << "}"; };
  o << "{\"paths\":" << X.paths << ",\"truncated\":" << X.truncated << ",\"forks\":" << X.forks << ",\"instructions\":" << X.instrs << ",\"checks\":" << X.checks << ",\"symbolic_checks\":" << X.symChecks << ",\"memory_checks\":" << X.memChecks << ",\"unsupported\":" << X.unsupported << ",\"assume_killed\":" << X.assumeKilled << ",\"time_up\":" << (X.timeUp ? 1 : 0) << ",\"violations_total\":" << X.violTotal;
  o << ",\"queries\":" << g_sstats.queries << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat << ",\"unknown\":" << g_sstats.unknown << ",\"cache_hits\":" << g_sstats.cacheHits << ",\"model_hits\":" << g_sstats.modelHits << ",\"solver_ms\":" << (u64)(g_sstats.secs * 1000) << ",\"exprs\":" << exprCount();
  o << ",\"weak_instances\":" << g_wstats.instances << ",\"weak_rounds\":" << g_wstats.rounds << ",\"weak_nodes\":" << g_wstats.nodes << ",\"weak_events\":" << g_wstats.events << ",\"weak_rf\":" << g_wstats.rfs << ",\"weak_constraints\":" << g_wstats.clauses << ",\"weak_complete\":" << g_wstats.endable;
  o << ",\"reach\":"; mapOut(X.reach); o << ",\"unsup\":"; mapOut(X.unsup); o << ",\"check_msgs\":"; mapOut(X.checkMsgs);
  o << ",\"functions\":["; bool f = true; for (auto& p : X.fns) if (p.second->entered && p.second->repo) { if (!f) o << ","; f = false; o << jstr(demangle(p.second->name)); } o << "]";
  o << ",\"samples\":["; f = true; for (auto& v : X.samples) { if (!f) o << ","; f = false; o << "["; bool g = true; for (auto& p : v) { if (!g) o << ","; g = false; o << "[" << jstr(p.first) << "," << p.second << "]"; } o << "]"; } o << "]";
  o << ",\"violations\":["; f = true; for (auto& v : X.viols) { if (!f) o << ","; f = false; o << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where) << ",\"inputs\":["; bool g = true; for (auto& p : v.inputs) { if (!g) o << ","; g = false; o << "[" << jstr(p.first) << "," << p.second << "]"; } o << "],\"schedule\":["; g = true; for (int x : v.schedule) { if (!g) o << ","; g = false; o << x; } o << "],\"stack\":["; g = true; for (auto& x : v.stack) { if (!g) o << ","; g = false; o << jstr(x); } o << "]"; if (!v.witness.empty()) o << ",\"witness\":" << v.witness; o << "}"; } o << "]}\n"; }
}
using namespace cosym;
int main(int argc, char** argv) {
  Exec X; std::string bc; Options& o = X.opt;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") o.entry = nx(); else if (a == "--out") o.out = nx(); else if (a == "--max-secs") o.maxSecs = std::stod(nx()); else if (a == "--max-steps") o.maxSteps = std::stoull(nx()); else if (a == "--jobs") o.jobs = std::stoi(nx()); else if (a == "--preempt") o.preempt = std::stoi(nx()); else if (a == "--max-enum") o.maxEnum = std::stoi(nx()); else if (a == "--max-viol") o.maxViol = std::stoi(nx()); else if (a == "--solver-ms") g_solverTimeoutMs = std::stoi(nx()); else if (a == "--atexit") o.runAtexit = true;
    else if (a == "--param") { std::string p = nx(); auto e = p.find('='); o.params[p.substr(0, e)] = std::stoull(p.substr(e + 1)); } else bc = a; }
  X.t0 = std::chrono::steady_clock::now(); X.load(bc); X.setup(); g_deadline = X.t0 + std::chrono::milliseconds((u64)(o.maxSecs * 1000));
  // worker processes share the work: a busy worker hands half of its pending states to a forked copy while a job slot is free
  struct Shared { std::atomic<int> free, live, next; std::atomic<double> limit; }; auto* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared; sh->free = o.jobs - 1; sh->live = 1; sh->next = 1; sh->limit = o.maxSecs; X.limit = &sh->limit;
  prctl(PR_SET_CHILD_SUBREAPER, 1); fflush(nullptr);
  setpgid(0, 0);
  pid_t first = fork();
  if (first != 0) { // supervisor
    bool bad = false, killed = false; int left = 1;
    while (true) { int w = 0; pid_t p = waitpid(-1, &w, WNOHANG); if (p > 0) { if (!WIFEXITED(w) || WEXITSTATUS(w)) bad = true; continue; } if (p < 0) break; if (X.elapsed() > X.maxSecs() + 20 && !killed) { killed = true; signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); X.timeUp = true; X.truncated++; } usleep(5000); } (void)left;
    dump(X, o.out + ".main"); fflush(nullptr); if (bad && !killed) { std::cerr << "cosym: a worker process failed\n"; _exit(4); } _exit(0); }
  int me = 0; auto fresh = [&] { X.paths = X.truncated = X.forks = X.instrs = X.checks = X.symChecks = X.unsupported = X.assumeKilled = X.violTotal = X.memChecks = 0; X.reach.clear(); X.unsup.clear(); X.viols.clear(); X.samples.clear(); X.checkMsgs.clear(); g_sstats = SolverStats{}; g_wstats = WStats{}; };
  X.onReport = [&] { dump(X, o.out + "." + std::to_string(me)); };
  auto st = std::unique_ptr<State>(X.init); X.pushFrame(*st, X.getFn(X.phases[0]), {}); st->f().dropRet = true; X.work.push_back(std::move(st));
  auto lastShare = X.t0;
  while (!X.work.empty()) {
    if (X.elapsed() > X.maxSecs()) { X.timeUp = true; X.truncated += X.work.size(); X.work.clear(); break; }
    if (X.work.size() >= 2 && sh->free.load() > 0 && X.elapsed() > 0.3 && std::chrono::steady_clock::now() - lastShare > std::chrono::milliseconds(20)) { int f = sh->free.fetch_sub(1); if (f <= 0) sh->free.fetch_add(1); else { lastShare = std::chrono::steady_clock::now(); int idx = sh->next.fetch_add(1); fflush(nullptr); pid_t p = fork();
        std::vector<std::unique_ptr<State>> mine; size_t n = X.work.size(); for (size_t k = 0; k < n; k++) if ((k % 2 == 0) == (p == 0)) mine.push_back(std::move(X.work[k]));
        if (p == 0) { me = idx; fresh(); }
        if (p < 0) sh->free.fetch_add(1); else X.work = std::move(mine); continue; } }
    auto s = std::move(X.work.back()); X.work.pop_back(); X.runState(std::move(s)); }
  dump(X, o.out + "." + std::to_string(me)); sh->free.fetch_add(1); fflush(nullptr); _exit(0);
}
