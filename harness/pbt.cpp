#include "pbt.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>

namespace pbt {
std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }

namespace {
std::string g_root;    // scratch root of this run
std::string g_mine;    // scratch of this process
bool g_thorough = false;

double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void rmTree(const std::string& p) {
  if (p.compare(0, g_root.size(), g_root) != 0 || g_root.size() < 8) return;
  DIR* d = opendir(p.c_str());
  if (d) {
    while (struct dirent* e = readdir(d)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string q = p + "/" + n; struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(q); else unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}

struct Slot {          // shared memory, one per worker
  volatile int active; // a case is running
  volatile int outcome;// 0 pass 1 fail 2 inconclusive
  volatile u64 unit;
  char msg[4096];
  char desc[4096];
  Tape tape;
};
struct Shared { volatile u64 next; volatile int stop; volatile u64 done; };

void* shm(size_t n) {
  void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return p;
}

void onVt(int) { _exit(99); }

void armTimer(int secs) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = secs ? onVt : SIG_IGN;
  if (secs) sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &it, 0);
}

void redirect(const std::string& log) {
  int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
  int nul = open("/dev/null", O_RDONLY);
  if (fd < 0 || nul < 0) _exit(98);
  dup2(nul, 0); dup2(fd, 1); dup2(fd, 2);
  if (fd > 2) close(fd);
  if (nul > 2) close(nul);
}

// Runs one case; result in slot.
void runCase(const Prop& p, Src& src, Slot* sl, Case& c) {
  sl->outcome = 0; sl->msg[0] = 0; sl->desc[0] = 0; c.m_shared = sl->desc; c.m_sharedSize = sizeof sl->desc; sl->active = 1;
  armTimer(p.cpuLimit);
  try { p.fn(c); }
  catch (const Fail& f) { sl->outcome = 1; snprintf(sl->msg, sizeof sl->msg, "%s", f.what()); }
  catch (const Inconclusive& f) { sl->outcome = 2; snprintf(sl->msg, sizeof sl->msg, "%s", f.what()); }
  catch (const std::bad_alloc& e) { sl->outcome = 1; snprintf(sl->msg, sizeof sl->msg, "std::bad_alloc escaped"); }
  catch (const std::exception& e) { sl->outcome = 1; snprintf(sl->msg, sizeof sl->msg, "exception escaped: %s", e.what()); }
  armTimer(0);
  sl->active = 0;
  (void)src;
}

std::string logTail(const std::string& f) {
  std::ifstream in(f.c_str(), std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  // prefer the first sanitizer / assertion line
  const char* keys[] = {"ERROR: AddressSanitizer", "runtime error:", "Assertion `", "SUMMARY:", "terminate called"};
  for (size_t k = 0; k < 5; ++k) {
    size_t p = s.find(keys[k]);
    if (p != std::string::npos) {
      size_t b = s.rfind('\n', p); b = (b == std::string::npos) ? 0 : b + 1;
      return s.substr(b, 1200);
    }
  }
  return s.size() > 800 ? s.substr(s.size() - 800) : s;
}

std::string describeStatus(int st, const std::string& log) {
  std::string r;
  if (WIFSIGNALED(st)) r = strf("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return "no result within the CPU limit of the case (hang)";
  else r = strf("process ended by itself with exit status %d during the case", WEXITSTATUS(st));
  return r + "; " + logTail(log);
}

struct Result { int outcome; std::string msg; std::string desc; std::vector<u64> tape; };

// Run one tape in a fresh child.
Result runTape(const Prop& p, const std::vector<u64>& tape, Slot* sl) {
  static int serial = 0;
  std::string dir = g_root + strf("/r%d", serial++);
  mkdir(dir.c_str(), 0700);
  std::string log = dir + "/log";
  sl->active = 0; sl->outcome = 0; sl->tape.n = 0; sl->desc[0] = 0;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    g_mine = dir + "/s"; mkdir(g_mine.c_str(), 0700);
    redirect(log);
    Src src(&sl->tape, tape);
    Case c(src, g_thorough);
    runCase(p, src, sl, c);
    _exit(97);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  kill(-pid, SIGKILL);
  Result r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { r.outcome = sl->outcome; r.msg = sl->msg; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { r.outcome = 2; r.msg = "cannot redirect"; }
  else if (!sl->active) { r.outcome = 2; r.msg = "child ended outside the case: " + describeStatus(st, log); }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.outcome = 2; r.msg = "killed (SIGKILL, out of memory?)"; }
  else { r.outcome = 1; r.msg = describeStatus(st, log); }
  r.tape.assign(sl->tape.v, sl->tape.v + sl->tape.n);
  r.desc = sl->desc;
  rmTree(dir);
  return r;
}

std::string jsonEsc(const std::string& s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char ch = s[i];
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) o += strf("\\u%04x", ch);
    else o += ch;
  }
  return o + "\"";
}

bool smaller(const std::vector<u64>& a, const std::vector<u64>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

std::vector<u64> shrink(const Prop& p, std::vector<u64> best, Slot* sl, double budget, std::string& msg, std::string& desc, u64& tries) {
  double end = now() + budget;
  bool progress = true;
  auto attempt = [&](const std::vector<u64>& cand) -> bool {
    if (now() > end) return false;
    ++tries;
    Result r = runTape(p, cand, sl);
    if (r.outcome != 1) return false;
    if (r.msg.find("(hang)") != std::string::npos && msg.find("(hang)") == std::string::npos) return false;
    const std::vector<u64>& t = r.tape.size() < cand.size() ? r.tape : cand;
    std::vector<u64> use = smaller(t, cand) ? t : cand;
    if (!smaller(use, best)) return false;
    best = use; msg = r.msg; desc = r.desc; return true;
  };
  while (progress && now() < end) {
    progress = false;
    for (size_t len = best.size() / 2; len >= 1 && now() < end; len /= 2) {
      for (size_t i = best.size(); i >= len && now() < end;) {
        i -= std::min(i, len);
        if (i + len > best.size()) { if (i == 0) break; continue; }
        std::vector<u64> c(best); c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) progress = true;
        if (i == 0) break;
      }
      if (len > 1) for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
        std::vector<u64> c(best); bool nz = false;
        for (size_t j = i; j < i + len; ++j) { nz |= c[j] != 0; c[j] = 0; }
        if (nz && attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.size() && now() < end; ++i) {
      u64 v = best[i]; if (!v) continue;
      std::vector<u64> c(best); c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      u64 lo = 0;  // lo fails to fail
      while (i < best.size() && best[i] - lo > 1 && now() < end) {
        u64 mid = lo + (best[i] - lo) / 2; c = best; c[i] = mid;
        if (attempt(c)) progress = true; else lo = mid;
      }
    }
  }
  return best;
}

}  // namespace

std::string scratchDir() { return g_mine; }

// Modes:
//   --run --seed N --tier quick|thorough --out FILE --replay-out FILE [--jobs N] [--scale F] [--flavour NAME] [--only P]
//   --replay FILE    (exit 1 if the property fails on that tape)
int pbtMain(int argc, char** argv) {
  u64 seed = 1; std::string out, replayOut, replay, only, flavour = "default", tmp = "/tmp"; int jobs = 8; double scale = 1, wall = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; std::string v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed") seed = strtoull(v.c_str(), 0, 10), ++i;
    else if (a == "--tier") g_thorough = v == "thorough", ++i;
    else if (a == "--out") out = v, ++i;
    else if (a == "--replay-out") replayOut = v, ++i;
    else if (a == "--replay") replay = v, ++i;
    else if (a == "--jobs") jobs = atoi(v.c_str()), ++i;
    else if (a == "--scale") scale = atof(v.c_str()), ++i;
    else if (a == "--wall") wall = atof(v.c_str()), ++i;
    else if (a == "--flavour") flavour = v, ++i;
    else if (a == "--only") only = v, ++i;
    else if (a == "--tmp") tmp = v, ++i;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  signal(SIGPIPE, SIG_IGN);
  struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
  std::vector<char> tmpl; { std::string t = tmp + "/bwtc-pbt-XXXXXX"; tmpl.assign(t.begin(), t.end()); tmpl.push_back(0); }
  if (!mkdtemp(&tmpl[0])) { perror("mkdtemp"); return 2; }
  g_root = &tmpl[0];
  Slot* shr = (Slot*)shm(sizeof(Slot));

  if (!replay.empty()) {
    std::ifstream in(replay.c_str()); std::string line, pname; std::vector<u64> tape;
    while (std::getline(in, line)) {
      if (line.compare(0, 5, "prop ") == 0) pname = line.substr(5);
      else if (line.compare(0, 5, "tape ") == 0) { std::stringstream ss(line.substr(5)); u64 x; while (ss >> x) tape.push_back(x); }
    }
    int rc = 2;
    for (size_t i = 0; i < registry().size(); ++i) if (registry()[i].name == pname) {
      Result r = runTape(registry()[i], tape, shr);
      printf("%s: %s\n%s\n", pname.c_str(), r.outcome == 0 ? "holds" : r.outcome == 1 ? "FAILS" : "inconclusive", r.msg.c_str());
      printf("case: %s\n", r.desc.c_str());
      rc = r.outcome == 0 ? 0 : r.outcome == 1 ? 1 : 2;
    }
    rmTree(g_root); return rc;
  }

  // Build the unit list: interleave the properties proportionally.
  std::vector<Prop>& props = registry();
  struct Unit { u64 prop, idx; double key; };
  std::vector<Unit> units;
  std::vector<u64> counts(props.size());
  for (size_t p = 0; p < props.size(); ++p) {
    if (!only.empty() && props[p].name.find(only) == std::string::npos) continue;
    u64 n = (u64)((g_thorough ? props[p].thoroughCases : props[p].quickCases) * scale + 0.5);
    if (n == 0) n = 1;
    counts[p] = n;
    for (u64 i = 0; i < n; ++i) { Unit u = {p, i, (i + 0.5) / n}; units.push_back(u); }
  }
  std::stable_sort(units.begin(), units.end(), [](const Unit& a, const Unit& b) { return a.key < b.key; });

  Shared* sh = (Shared*)shm(sizeof(Shared));
  std::vector<Slot*> slots; for (int i = 0; i < jobs; ++i) slots.push_back((Slot*)shm(sizeof(Slot)));
  u64* keys = (u64*)shm(sizeof(u64) * (units.size() + 1));   // 0 not run, 1 run trivial, else hash
  double t0 = now();
  std::vector<pid_t> pids(jobs, 0); std::vector<int> gen(jobs, 0);
  u64 inconclusive = 0, flaky = 0; std::string notes;

  auto spawn = [&](int w) {
    int g = gen[w]++;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setpgid(0, 0);
      g_mine = g_root + strf("/w%d_%d", w, g); mkdir(g_mine.c_str(), 0700);
      std::string log = g_root + strf("/log%d", w);
      redirect(log);
      std::map<std::string, u64> labels; std::string samples;
      Slot* sl = slots[w]; sl->active = 0;
      while (!sh->stop) {
        if (wall > 0 && now() - t0 > wall) break;
        u64 u = __sync_fetch_and_add(&sh->next, 1);
        if (u >= units.size()) break;
        sl->unit = u;
        if (ftruncate(1, 0) != 0) {}
        const Prop& p = props[units[u].prop];
        Src src(&sl->tape, mix(mix(seed) ^ hashBytes(p.name.data(), p.name.size()) ^ mix(hashBytes(flavour.data(), flavour.size())) ^ mix(units[u].idx)));
        Case c(src, g_thorough);
        runCase(p, src, sl, c);
        if (sl->outcome == 1) _exit(96);
        if (sl->outcome == 2) { sl->active = 2; _exit(95); }
        u64 h = c.m_key ? c.m_key : hashBytes(sl->tape.v, sl->tape.n * sizeof(u64));
        h = mix(h ^ units[u].prop); if (h < 2) h = 2;
        keys[u] = c.m_nontrivial ? h : 1;
        __sync_fetch_and_add(&sh->done, 1);
        for (std::map<std::string, u64>::iterator it = c.m_labels.begin(); it != c.m_labels.end(); ++it)
          labels[p.name + ":" + it->first] += it->second;
        u64 step = std::max<u64>(1, counts[units[u].prop] / 3);
        if (c.m_nontrivial && units[u].idx % step == step / 2)
          samples += p.name + "\t" + c.m_desc.substr(0, 700) + "\n";
      }
      std::ofstream r((g_root + strf("/res%d_%d", w, g)).c_str());
      for (std::map<std::string, u64>::iterator it = labels.begin(); it != labels.end(); ++it) r << "L\t" << it->second << "\t" << it->first << "\n";
      std::stringstream ss(samples); std::string l; while (std::getline(ss, l)) r << "S\t" << l << "\n";
      r.close();
      _exit(97);
    }
    pids[w] = pid;
  };
  for (int w = 0; w < jobs; ++w) spawn(w);

  bool violated = false; Result fin; std::string failProp; u64 tries = 0;
  int live = jobs; u64 crashBudget = 20;
  std::vector<std::string> seenFlaky;
  while (live > 0) {
    int st; pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int i = 0; i < jobs; ++i) if (pids[i] == pid) w = i;
    if (w < 0) continue;
    kill(-pid, SIGKILL);
    pids[w] = 0;
    rmTree(g_root + strf("/w%d_%d", w, gen[w] - 1));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { --live; continue; }
    Slot* sl = slots[w];
    Result r; std::string log = g_root + strf("/log%d", w);
    r.tape.assign(sl->tape.v, sl->tape.v + sl->tape.n);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 96) { r.outcome = 1; r.msg = sl->msg; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 95) { r.outcome = 2; r.msg = sl->msg; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.outcome = 2; r.msg = "worker killed (out of memory?)"; }
    else if (sl->active != 1) { r.outcome = 2; r.msg = "worker ended outside a case: " + describeStatus(st, log); }
    else { r.outcome = 1; r.msg = describeStatus(st, log); }
    if (violated) { --live; continue; }
    if (r.outcome == 2) {
      ++inconclusive; notes = r.msg;
      fprintf(stderr, "inconclusive case: %s\n", r.msg.c_str());
      if (inconclusive > 5) { sh->stop = 1; --live; continue; }
      spawn(w); continue;
    }
    const Prop& p = props[units[sl->unit].prop];
    fprintf(stderr, "candidate failure in %s case %llu: %s\n", p.name.c_str(), (unsigned long long)units[sl->unit].idx, r.msg.c_str());
    int again = 0; Result last = r;
    double r0 = now(); int runs = 0;
    for (int k = 0; k < 3 && again < 2; ++k) { Result q = runTape(p, r.tape, shr); ++runs; if (q.outcome == 1) { ++again; last = q; } }
    bool slow = (now() - r0) / runs > 15;   // too long to shrink by re-running
    if (again < 2) {
      ++flaky; fprintf(stderr, "not reproduced (%d of 3), ignored\n", again);
      if (--crashBudget == 0) { sh->stop = 1; --live; continue; }
      spawn(w); continue;
    }
    violated = true; sh->stop = 1; --live; failProp = p.name;
    for (int i = 0; i < jobs; ++i) if (pids[i]) kill(-pids[i], SIGKILL);
    std::string msg = last.msg, desc = last.desc;
    std::vector<u64> best = slow ? r.tape : shrink(p, r.tape, shr, g_thorough ? 180 : 60, msg, desc, tries);
    int fails = slow ? 2 : 0; for (int k = 0; k < 3 && !slow; ++k) { Result q = runTape(p, best, shr); if (q.outcome == 1) { ++fails; msg = q.msg; desc = q.desc; } }
    if (fails < 2) { best = r.tape; msg = last.msg; desc = last.desc; }
    fin.tape = best; fin.msg = msg; fin.desc = desc;
    std::ofstream f(replayOut.c_str());
    f << "prop " << p.name << "\nflavour " << flavour << "\nmessage ";
    std::string one = msg; std::replace(one.begin(), one.end(), '\n', ' '); f << one << "\ncase " << desc << "\ntape";
    for (size_t i = 0; i < best.size(); ++i) f << " " << best[i];
    f << "\n";
  }

  // Merge.
  std::map<std::string, u64> labels; std::vector<std::string> samples;
  for (int w = 0; w < jobs; ++w) for (int g = 0; g < gen[w]; ++g) {
    std::ifstream in((g_root + strf("/res%d_%d", w, g)).c_str()); std::string l;
    while (std::getline(in, l)) {
      if (l[0] == 'L') { size_t a = l.find('\t', 2); labels[l.substr(a + 1)] += strtoull(l.c_str() + 2, 0, 10); }
      else if (l[0] == 'S') samples.push_back(l.substr(2));
    }
  }
  std::set<u64> distinct; u64 evals = 0; std::map<std::string, u64> perProp;
  for (u64 u = 0; u < units.size(); ++u) if (keys[u]) { ++evals; ++perProp[props[units[u].prop].name]; if (keys[u] > 1) distinct.insert(keys[u]); }
  std::ofstream o(out.c_str());
  o << "{\"flavour\":" << jsonEsc(flavour) << ",\"planned\":" << units.size() << ",\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct.size()
    << ",\"inconclusive\":" << inconclusive << ",\"not_reproduced\":" << flaky << ",\"shrink_attempts\":" << tries
    << ",\"wall_s\":" << now() - t0 << ",\"violated\":" << (violated ? "true" : "false");
  if (violated) o << ",\"prop\":" << jsonEsc(failProp) << ",\"message\":" << jsonEsc(fin.msg) << ",\"case\":" << jsonEsc(fin.desc);
  if (!notes.empty()) o << ",\"note\":" << jsonEsc(notes);
  o << ",\"per_property\":{"; bool first = true;
  for (std::map<std::string, u64>::iterator it = perProp.begin(); it != perProp.end(); ++it) { o << (first ? "" : ",") << jsonEsc(it->first) << ":" << it->second; first = false; }
  o << "},\"labels\":{"; first = true;
  for (std::map<std::string, u64>::iterator it = labels.begin(); it != labels.end(); ++it) { o << (first ? "" : ",") << jsonEsc(it->first) << ":" << it->second; first = false; }
  o << "},\"samples\":["; first = true;
  std::sort(samples.begin(), samples.end());
  for (size_t i = 0; i < samples.size(); ++i) { o << (first ? "" : ",") << jsonEsc(samples[i]); first = false; }
  o << "]}\n"; o.close();
  rmTree(g_root);
  if (violated) return 1;
  if (inconclusive > 5) return 2;
  return 0;
}
}  // namespace pbt
int main(int argc, char** argv) { return pbt::pbtMain(argc, argv); }
