// The programs change nothing but their output file, whatever was there before.
#include "cli.hpp"
#include <dirent.h>
#include <map>
using namespace cli;
struct Snap { Bytes data; mode_t mode; long mt, mtn; ino_t ino; };
static std::map<std::string, Snap> snap(const std::string& d) {
  std::map<std::string, Snap> m; DIR* p = opendir(d.c_str()); if (!p) throw pbt::Inconclusive("opendir"); while (struct dirent* e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue; Snap s; s.mode = st.st_mode; s.mt = st.st_mtim.tv_sec; s.mtn = st.st_mtim.tv_nsec; s.ino = st.st_ino; if (S_ISREG(st.st_mode)) get(f, s.data); m[n] = s; } closedir(p); return m;
}
static void wipe(const std::string& d) { DIR* p = opendir(d.c_str()); if (!p) return; while (struct dirent* e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((d + "/" + n).c_str()); } closedir(p); }
static std::string name(pbt::Src& s) {
  static const char* n[] = {"in", "a file with spaces", ".hidden", "x.bwtc", "\xc3\xa4\xe2\x82\xac", "in.tmp", "*", "a'b\"c$d", "%s%n", "out~", "e=mc2", "tab\there"};
  if (s.chance(1, 8)) return std::string(1 + s.choice(200), 'n'); return n[s.choice(12)];
}
PROPERTY(files, 1500, 20000) {
  char real[4096]; if (!realpath(dir().c_str(), real)) throw pbt::Inconclusive("realpath"); std::string D = std::string(real) + "/w"; mkdir(D.c_str(), 0700); wipe(D);
  std::string prog = kProgs[c.s.choice(4)], a = name(c.s), z = name(c.s); if (z == a) z += ".2"; std::string d; Bytes raw = c.s.chance(1, 8) ? gen::pairRich(c.s, 60000, &d) : gen::bytes(c.s, gen::length(c.s, c.s.chance(1, 6) ? 300000 : 4000), &d), in = raw;
  std::string tmp = std::string(real) + "/t1", tmp2 = std::string(real) + "/t2"; std::vector<std::string> ar(1, prog); bool cut = false;
  if (prog == "uncompress" || prog == "postprocess") { put(tmp, raw); Fmt f = genFmt(c.s); Res r = run(args((prog[0] == 'u' ? "compress " + opts(f) : std::string("preprocess --prepr pp")) + " " + tmp + " " + tmp2)); if (!r.ok() || !get(tmp2, in)) throw pbt::Fail("cannot make an archive: " + r.show()); if (!in.empty() && c.s.chance(1, 8)) { in.resize(c.s.choice(in.size())); cut = true; } }
  else if (prog == "compress") { Fmt f = genFmt(c.s); std::vector<std::string> o = args(opts(f)); ar.insert(ar.end(), o.begin(), o.end()); } else { ar.push_back("--prepr"); ar.push_back(std::string(c.s.choice(3), 'p')); if (ar.back().empty()) { ar.pop_back(); ar.pop_back(); } }
  if (c.s.chance(1, 4)) { ar.push_back("-v"); ar.push_back(strf("%u", (unsigned)c.s.choice(3))); }
  bool ro = c.s.chance(1, 3); put(D + "/" + a, in); chmod((D + "/" + a).c_str(), ro ? 0444 : 0644);
  unsigned by = (unsigned)c.s.choice(4); for (unsigned i = 0; i < by; ++i) { std::string n = name(c.s); if (n != a && n != z) put(D + "/" + n, Bytes(c.s.choice(100), 'b')); }
  // what the output is without any history
  std::string fresh = std::string(real) + "/fresh"; unlink(fresh.c_str()); std::vector<std::string> plain(ar); plain.push_back(D + "/" + a); plain.push_back(fresh); Res r0 = run(plain); Bytes want; bool made = get(fresh, want); PBT_CHECK(c, cut || r0.ok(), "%s failed: %s", prog.c_str(), r0.show().c_str());
  // the output may exist already: shorter, equal, longer, larger than any buffer, or read by others through a second link
  unsigned pre = (unsigned)c.s.choice(6); size_t pl = pre == 0 ? 0 : pre == 1 ? c.s.choice(50) : pre == 2 ? want.size() : pre == 3 ? want.size() + 1 + c.s.choice(10000) : pre == 4 ? 200000 + c.s.choice(100000) : want.size() / 2; if (pre) put(D + "/" + z, Bytes(pl, 'P'));
  static const mode_t kModes[] = {0644, 0600, 0640, 0666, 0755, 0660}; mode_t um = c.s.chance(1, 3) ? 077 : 022, had = 0; bool link = false; std::string target = "target of the link"; if (pre) { had = kModes[c.s.choice(6)]; chmod((D + "/" + z).c_str(), had); c.label("output-has-permissions"); }
  if (c.s.chance(1, 6)) { link = true; c.label("output-is-a-link"); if (pre) { if (rename((D + "/" + z).c_str(), (D + "/" + target).c_str())) throw pbt::Inconclusive("rename"); } if (symlink(target.c_str(), (D + "/" + z).c_str())) throw pbt::Inconclusive("symlink"); }
  bool rel = c.s.chance(1, 2); bool si = c.s.chance(1, 6), so = c.s.chance(1, 4); std::string line; for (size_t i = 0; i < ar.size(); ++i) line += ar[i] + " "; if (si) line += "-i "; if (so) line += "-c ";
  std::string pa = rel ? "./" + a : D + "/" + a, pz = rel ? "./" + z : D + "/" + z; if (si) ar.push_back("-i"); else ar.push_back(pa); if (so) ar.push_back("-c"); else { if (si) ar.push_back("--output-file"); ar.push_back(pz); } if (si) c.label("stdin"); if (so) c.label("stdout");
  c.describe(strf("%s '%s' '%s' (%s%s%s), input of %zu bytes (%s), output file %s", line.c_str(), a.c_str(), z.c_str(), rel ? "relative" : "absolute", ro ? ", read-only input" : "", cut ? ", truncated" : "", in.size(), d.c_str(), pre ? strf("had %zu bytes", pl).c_str() : "absent")); c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = line + a + z; c.key(pbt::hashBytes(k.data(), k.size())); } c.key(pre * 10 + by); c.nontrivial(in.size() > 1); c.label(prog); if (pre) c.label("output-existed");
  std::map<std::string, Snap> before = snap(D); char old[4096]; if (!getcwd(old, sizeof old)) throw pbt::Inconclusive("getcwd"); if (chdir(D.c_str())) throw pbt::Inconclusive("chdir"); Res r; mode_t um0 = umask(um); try { r = run(ar, si ? In::fromFile(pa) : In()); } catch (...) { umask(um0); if (chdir(old)) {} wipe(D); throw; } umask(um0); if (chdir(old)) throw pbt::Inconclusive("chdir"); std::map<std::string, Snap> after = snap(D); wipe(D); unlink(fresh.c_str()); unlink(tmp.c_str()); unlink(tmp2.c_str());
  PBT_CHECK(c, cut || r.ok(), "%s failed: %s", prog.c_str(), r.show().c_str());
  for (std::map<std::string, Snap>::iterator i = before.begin(); i != before.end(); ++i) { if ((i->first == z || (link && i->first == target)) && !so) continue; PBT_CHECK(c, after.count(i->first), "%s removed '%s'", prog.c_str(), i->first.c_str()); const Snap& x = i->second; const Snap& y = after[i->first]; PBT_CHECK(c, x.data == y.data && x.mode == y.mode && x.mt == y.mt && x.mtn == y.mtn && x.ino == y.ino, "%s changed '%s'%s", prog.c_str(), i->first.c_str(), i->first == a ? " (its input)" : ""); }
  for (std::map<std::string, Snap>::iterator i = after.begin(); i != after.end(); ++i) PBT_CHECK(c, ((i->first == z || (link && i->first == target)) && !so) || before.count(i->first), "%s created '%s'", prog.c_str(), i->first.c_str());
  if (so) PBT_CHECK(c, cut || r.out == want, "standard output differs from the file: %s", gen::firstDiff(want, r.out).c_str());
  else if (!cut) { PBT_CHECK(c, made && after.count(z), "%s wrote no output file", prog.c_str()); PBT_CHECK(c, after[link ? target : z].data == want, "with an output file that %s the output is another one: %s", pre ? strf("had %zu bytes before", pl).c_str() : "was absent", gen::firstDiff(want, after[z].data).c_str()); }
  if (!so) {   // an output file that is there is written in place: it keeps its permissions, its links and what links to it
    std::string w = link ? target : z; if (link) PBT_CHECK(c, after.count(z) && S_ISLNK(after[z].mode) && after[z].ino == before[z].ino, "%s replaced the symbolic link that the output name is", prog.c_str());
    if (after.count(w)) { if (pre) { PBT_CHECK(c, (after[w].mode & 07777) == had, "%s changed the permissions of the output file from %o to %o", prog.c_str(), (unsigned)had, (unsigned)(after[w].mode & 07777)); PBT_CHECK(c, after[w].ino == before[w].ino, "%s replaced the output file by another one instead of writing to it", prog.c_str()); } else PBT_CHECK(c, (after[w].mode & 07777) == (0666 & ~um), "%s created its output with permissions %o under umask %o", prog.c_str(), (unsigned)(after[w].mode & 07777), (unsigned)um); }
  }
}
