#define MAIN
// Grammars built by random histories, written and read back.
#include "bw.hpp"
#include "preprocessors/Grammar.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "preprocessors/PairReplacer.hpp"
#include <set>
using namespace bw;
typedef bwtc::byte B;

static std::set<std::pair<unsigned, unsigned> > freed(const bwtc::Grammar& g) { std::vector<std::pair<bwtc::uint16, B> > v; g.freedSymbols(v); std::set<std::pair<unsigned, unsigned> > s; for (size_t i = 0; i < v.size(); ++i) s.insert(std::make_pair((unsigned)v[i].first, (unsigned)v[i].second)); return s; }
static Bytes expand(const bwtc::Grammar& g, Bytes t) { Bytes o; MemOut mo(&o); bwtc::Postprocessor p(false, g); size_t n = t.size(); t.push_back(0); size_t r = p.uncompress(&t[0], n, &mo); if (r != o.size()) throw pbt::Fail(strf("expansion reported %zu bytes, wrote %zu", r, o.size())); return o; }
// Writes g, reads it back and compares; also expands text with both.
static void store(pbt::Case& c, const bwtc::Grammar& g, const Bytes& text, const Bytes& original, unsigned round, bool stray) {
  Bytes out; size_t pre = c.s.choice(4); out.assign(pre, 0x77); MemOut mo(&out); size_t n = g.writeGrammar(&mo);
  PBT_CHECK(c, n == out.size() - pre, "round %u: the writer reported %zu bytes and wrote %zu", round, n, out.size() - pre);
  unsigned sent = (unsigned)c.s.choice(256); out.push_back((unsigned char)sent); out.push_back(0x33); MemIn in(&out); Bytes skip(pre + 1); in.readBlock(&skip[0], pre); bwtc::Grammar h; h.readGrammar(&in);
  PBT_CHECK(c, in.pos() == pre + n, "round %u: the reader consumed %zu of %zu bytes", round, in.pos() - pre, n); PBT_CHECK(c, in.readByte() == sent, "round %u: the byte after the grammar is read wrongly", round);
  PBT_CHECK(c, g.numOfRules() == h.numOfRules(), "round %u: %zu rules became %zu", round, g.numOfRules(), h.numOfRules());
  for (size_t i = 0; i < g.numOfRules(); ++i) { bwtc::Grammar::Rule a = g.getRule(i), b = h.getRule(i); PBT_CHECK(c, a.variable() == b.variable() && a.isLarge() == b.isLarge() && a.length() == b.length() && std::equal(a.begin(), a.end(), b.begin()), "round %u: rule %zu of %zu differs", round, i, g.numOfRules()); }
  for (unsigned s = 0; s < 256; ++s) PBT_CHECK(c, g.isSpecial(s) == h.isSpecial(s), "round %u: symbol %u is special only on one side", round, s);
  PBT_CHECK(c, g.numberOfSpecialSymbols() == h.numberOfSpecialSymbols(), "round %u: number of special symbols differs", round);
  PBT_CHECK(c, g.numberOfFreedSymbols() == h.numberOfFreedSymbols() && freed(g) == freed(h), "round %u: freed symbols differ", round);
  Bytes again; MemOut ma(&again); h.writeGrammar(&ma); PBT_CHECK(c, again == Bytes(out.begin() + pre, out.begin() + pre + n), "round %u: writing the grammar that was read gives other bytes", round);
  Bytes e1 = expand(g, text); PBT_CHECK(c, e1 == original, "round %u: the grammar expands the text wrongly: %s", round, gen::firstDiff(original, e1).c_str());
  Bytes e2 = expand(h, text); PBT_CHECK(c, e2 == original, "round %u: the grammar read back expands the text wrongly: %s", round, gen::firstDiff(original, e2).c_str());
  if (stray && g.numOfRules()) {   // any other text over the grammar's symbols
    pbt::Rng r(c.s.choice(1 << 20)); std::vector<std::pair<bwtc::uint16, B> > v; g.freedSymbols(v); Bytes t; for (unsigned i = 0; i < 60; ++i) { unsigned x = (unsigned)r.below(256); if (!g.isSpecial(x)) t.push_back(x); else if (!v.empty()) { unsigned p = v[r.below(v.size())].first; t.push_back(p >> 8); t.push_back(p & 255); } }
    PBT_CHECK(c, expand(g, t) == expand(h, t), "round %u: the two grammars expand another text differently", round);
  }
}
// The harness plays the replacer: it picks any pairs, any symbols to free and any new special symbols (within
// the rules PairReplacer keeps to), rewrites the text itself, and the grammar must follow.
static void history(pbt::Case& c, size_t textLen, unsigned maxRounds, unsigned maxRules) {
  pbt::Src& s = c.s; pbt::Rng r(s.choice(1 << 24)); static const unsigned al[] = {256, 256, 256, 255, 254, 200, 60, 8}; unsigned a = s.pick(al), rot = (unsigned)s.choice(256); Bytes text; unsigned zipf = 1 + (unsigned)s.choice(3);
  for (size_t i = 0; i < textLen; ++i) { u64 v = r.below(a); for (unsigned z = 1; z < zipf; ++z) v = std::min<u64>(v, r.below(a)); text.push_back((unsigned char)(rot + v)); }
  if (a == 256) for (unsigned i = 0; i < 256; ++i) text.push_back((unsigned char)i);
  Bytes original = text; bwtc::Grammar g; unsigned rounds = 1 + (unsigned)s.choice(maxRounds); std::set<unsigned> special, inGrammar; size_t S = 0, R = 0; std::string d; size_t totF = 0, totV = 0, totS = 0;
  std::set<unsigned> vars; std::vector<size_t> len(256, 1);   // length of each symbol's expansion: kept small, as the length of a real text keeps it
  for (unsigned round = 0; round < rounds; ++round) {
    std::set<unsigned> occ(inGrammar); for (size_t i = 0; i < text.size(); ++i) occ.insert(text[i]);
    std::vector<unsigned> freeSyms, used; for (unsigned x = 0; x < 256; ++x) if (!special.count(x)) (occ.count(x) ? used : freeSyms).push_back(x);
    for (size_t i = used.size(); i > 1; --i) std::swap(used[i - 1], used[r.below(i)]);
    for (size_t i = freeSyms.size(); i > 1; --i) std::swap(freeSyms[i - 1], freeSyms[r.below(i)]);
    if (s.chance(1, 3)) std::stable_sort(used.begin(), used.end(), [&](unsigned x, unsigned y) { return vars.count(x) > vars.count(y); });   // prefer variables
    // PairReplacer takes all free symbols before it frees any
    size_t want = 1 + (size_t)(maxRounds > 100 && s.chance(2, 3) ? s.choice(maxRules / 2) : s.logRange(0, maxRules - 1)), nf = std::min(want, freeSyms.size()), k = want - nf; freeSyms.resize(nf);
    size_t left = S * S - R, S2 = S, R2 = R, ns = 0; { size_t kk = k; size_t l = left; while (true) { if (kk == 0) break; if (l == 0) { ++S2; ++R2; ++ns; l = S2 * S2 - R2; } else { --l; --kk; ++R2; } } }
    while (k && ns + k + 2 > used.size()) { --k; S2 = S; R2 = R; ns = 0; size_t kk = k, l = left; while (kk) { if (l == 0) { ++S2; ++R2; ++ns; l = S2 * S2 - R2; } else { --l; --kk; ++R2; } } }
    if (k == 0) ns = 0;
    std::vector<B> news(used.begin(), used.begin() + ns), fr(used.begin() + ns, used.begin() + ns + k), repl(fr); repl.insert(repl.end(), freeSyms.begin(), freeSyms.end());
    // pairs of the text (or any pairs) over symbols that are not special now
    std::set<unsigned> ps; std::vector<unsigned> pv; for (unsigned t = 0; t < 40 * repl.size() && pv.size() < repl.size(); ++t) { unsigned x, y; if (text.size() > 1 && r.below(4)) { size_t p = r.below(text.size() - 1); x = text[p]; y = text[p + 1]; } else { x = used.empty() ? 0 : used[r.below(used.size())]; y = used.empty() ? 0 : used[r.below(used.size())]; if (maxRounds > 100 && !used.empty()) for (int q = 0; q < 6; ++q) { unsigned x2 = used[r.below(used.size())], y2 = used[r.below(used.size())]; if (len[x2] < len[x]) x = x2; if (len[y2] < len[y]) y = y2; } } if (special.count(x) || special.count(y) || !occ.count(x) || !occ.count(y) || len[x] + len[y] > (maxRounds > 100 ? 50000 : 5000)) continue; if (ps.insert(x << 8 | y).second) pv.push_back(x << 8 | y); }
    if (pv.size() < repl.size()) { if (maxRounds > 100) continue; break; }   // not enough material left
    { std::vector<size_t> l2(len); for (size_t i = 0; i < repl.size(); ++i) l2[repl[i]] = len[pv[i] >> 8] + len[pv[i] & 255]; len = l2; }
    g.beginUpdatingRules(); for (size_t i = 0; i < repl.size(); ++i) g.addRule(repl[i], pv[i] >> 8, pv[i] & 255);
    std::vector<bwtc::uint16> next; g.expandAlphabet(fr, news, next); g.endUpdatingRules(repl);
    PBT_CHECK(c, next.size() == fr.size(), "%zu symbols freed, %zu special pairs given", fr.size(), next.size());
    // rewrite the text
    std::map<unsigned, unsigned> rule; for (size_t i = 0; i < pv.size(); ++i) rule[pv[i]] = repl[i]; std::map<unsigned, unsigned> esc; for (size_t i = 0; i < fr.size(); ++i) esc[fr[i]] = next[i]; for (size_t i = 0; i < news.size(); ++i) esc[news[i]] = news[i] << 8 | news[i];
    Bytes t2; for (size_t i = 0; i < text.size(); ++i) { unsigned x = text[i]; if (i + 1 < text.size() && rule.count(x << 8 | text[i + 1])) { t2.push_back((unsigned char)rule[x << 8 | text[i + 1]]); ++i; } else if (esc.count(x)) { t2.push_back(esc[x] >> 8); t2.push_back(esc[x] & 255); } else t2.push_back(x); }
    text.swap(t2); S = S2; R = R2; for (size_t i = 0; i < news.size(); ++i) { special.insert(news[i]); vars.erase(news[i]); } for (size_t i = 0; i < repl.size(); ++i) { inGrammar.insert(repl[i]); vars.insert(repl[i]); } for (size_t i = 0; i < pv.size(); ++i) { inGrammar.insert(pv[i] >> 8); inGrammar.insert(pv[i] & 255); }
    d += strf(" [%zu rules, %zu freed, %zu specials]", repl.size(), fr.size(), news.size()); totF += fr.size(); totV += repl.size(); totS += news.size(); c.describe(strf("round %u: %zu rules, %zu freed, %zu new specials", round, repl.size(), fr.size(), news.size()));
    for (unsigned x = 0; x < 256; ++x) PBT_CHECK(c, g.isSpecial(x) == (special.count(x) > 0), "symbol %u: special symbols are not those requested", x);
    if (round + 1 == rounds || s.chance(1, 3)) store(c, g, text, original, round, true);
  }
  if (totV == 0) store(c, g, text, original, 0, false);
  c.key(pbt::hashBytes(d.data(), d.size())); c.key(pbt::hashBytes(text.data(), text.size())); c.nontrivial(totV > 0); if (totF) c.label("freed"); if (totS > 2) c.label("several-specials"); if (totS > 16) c.label("over-16-specials"); if (totS > 64) c.label("over-64-specials"); if (totV > 4096) c.label("over-4096-rules"); if (rounds > 1) c.label("several-rounds"); if (totV > 127) c.label("over-127-rules"); if (totS == 0 && totV) c.label("free-symbols-only");
}
PROPERTY(tiny, 25000, 500000) { history(c, c.s.choice(20), 3, 3); }
PROPERTY(small, 20000, 400000) { history(c, c.s.choice(300), 5, 12); }
PROPERTY(wide, 10000, 200000) { history(c, c.s.choice(1500), 6, 254); }
PROPERTY(longhist, 1500, 30000) { history(c, c.s.choice(2000), 40, 60); }
PROPERTY(manyRounds, 300, 6000) { history(c, c.s.choice(300), 150, 254); }   // thousands of rules, tens of special symbols
PROPERTY(replacer, 400, 8000) {   // the real replacer as the source of histories
  std::string d; Bytes in = c.s.chance(1, 6) ? gen::freedFront(c.s, &d) : c.s.chance(1, 8) ? gen::longRules(c.s, 300000, &d) : gen::pairRich(c.s, 40000 + c.s.choice(100000), &d); c.describe(d); c.key(pbt::hashBytes(in.data(), in.size())); bwtc::Grammar g; Bytes t = in; unsigned rounds = 1 + (unsigned)c.s.choice(d[0] == 'l' ? 22 : 5), done = 0;
  for (unsigned i = 0; i < rounds && t.size() > 2; ++i) { bwtc::PairReplacer pr(g); pr.analyseData(&t[0], t.size()); pr.finishAnalysation(); size_t n = pr.decideReplacements(); if (n == 0) break; t.push_back(0); size_t l = pr.writeReplacedVersion(&t[0], t.size() - 1); t.resize(l); ++done; store(c, g, t, in, i, false); }
  c.nontrivial(done > 0); if (g.numberOfSpecialSymbols()) c.label("special-symbols"); if (done > 1) c.label("replacer-rounds");
}
