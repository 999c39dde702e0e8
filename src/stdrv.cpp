// C14: one storage structure under random operations, checked against a map after every operation.
// usage: stdrv KIND DIR SEED OPS CACHE KEYS VALUES [LOSE]     (KIND si | is | iv; KEYS, VALUES: numbers that choose the distributions)
// Prints one line "OK {counts}" or "MISMATCH what"; the process's exit status tells the same.
#include <map>
#include <random>
#include "KVstore/SITree/SITree.h"
#include "KVstore/ISArray/ISArray.h"
#include "KVstore/IVArray/IVArray.h"
using namespace std;

static mt19937_64 R;
static unsigned rnd(unsigned n) { return n ? (unsigned)(R() % n) : 0; }
static map<string, unsigned> counts;
static string trace_;
static FILE* out;

static void bad(const string& what) {
  fprintf(out, "MISMATCH %s after: %s\n", what.c_str(), trace_.size() > 400 ? trace_.substr(trace_.size() - 400).c_str() : trace_.c_str());
  fflush(out);
  _exit(3);
}
static void op(const char* name, const string& arg = "") {
  counts[name]++;
  trace_ += string(name) + (arg.empty() ? "" : "(" + arg + ")") + " ";
  if (trace_.size() > 4000) trace_ = trace_.substr(2000);
}
static char* dup(const string& s) { char* p = new char[s.size() + 1]; memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }
static string bytes(unsigned n) {
  string s(n, 0);
  unsigned mode = rnd(3);
  for (auto& c : s) c = mode == 0 ? (char)('a' + rnd(26)) : mode == 1 ? (char)(1 + rnd(255)) : "ab"[rnd(2)];
  return s;
}
static string shorten(const string& s) {
  string t;
  for (unsigned char c : s.substr(0, 24)) { char b[8]; snprintf(b, 8, c > 32 && c < 127 ? "%c" : "\\x%02x", c); t += b; }
  return t + (s.size() > 24 ? "...[" + to_string(s.size()) + "]" : "");
}

// ---------------------------------------------------------------- the tree from strings to identifiers
struct SI {
  string dir; unsigned long long cache; unsigned keys;
  SITree* t;
  map<string, unsigned> m;
  vector<string> ever;
  SI(string d, unsigned long long c, unsigned k) : dir(d), cache(c), keys(k) { t = new SITree(dir, "t", "build", cache); }
  string newkey() {
    switch (keys % 5) {
      case 0: return bytes(1 + rnd(12));
      case 1: { string p = rnd(2) ? "<http://example.org/resource/" : "\"";  return p + to_string(rnd(60000)) + (rnd(4) ? ">" : ""); }
      case 2: return bytes(rnd(20) ? 1 + rnd(40) : 1 + rnd(20000));
      case 3: { if (ever.empty() || !rnd(8)) return bytes(1 + rnd(300)); string s = ever[rnd(ever.size())]; if (rnd(3) || s.size() < 2) s += bytes(1 + rnd(4)); else s.resize(1 + rnd(s.size())); return s; }
      default: return bytes(3900 + rnd(300));
    }
  }
  string pick(bool present) {
    if (present && !m.empty()) {
      auto it = m.lower_bound(ever[rnd(ever.size())]);
      if (it == m.end()) it = m.begin();
      return it->first;
    }
    return rnd(3) && !ever.empty() ? ever[rnd(ever.size())] : newkey();
  }
  void insert(const string& k, unsigned v) {
    op("insert", shorten(k));
    char* p = dup(k);
    bool ret = t->Insert(p, k.size(), v), want = !m.count(k);
    if (!ret) delete[] p;
    if (ret != want) bad("Insert returned " + to_string(ret));
    if (want) { m[k] = v; ever.push_back(k); }
  }
  void search(const string& k) {
    counts["search"]++;
    unsigned v = 4242424242u;
    bool ret = t->Search(k.data(), k.size(), &v);
    auto it = m.find(k);
    if (ret != (it != m.end())) bad("Search of " + shorten(k) + " returned " + to_string(ret));
    if (ret && v != it->second) bad("Search of " + shorten(k) + " gave " + to_string(v) + " instead of " + to_string(it->second));
  }
  void remove(const string& k) {
    op("remove", shorten(k));
    bool ret = t->Remove(k.data(), k.size()), want = m.erase(k);
    if (ret != want) bad("Remove returned " + to_string(ret));
  }
  void modify(const string& k) {
    op("modify", shorten(k));
    unsigned v = R();
    bool ret = t->Modify(k.data(), k.size(), v), want = m.count(k);
    if (ret != want) bad("Modify returned " + to_string(ret));
    if (want) m[k] = v;
  }
  void all() {
    op("all");
    for (auto& x : m) search(x.first);
    for (auto& k : ever) if (!rnd(4)) search(k);
  }
  void save() { op("save"); if (!t->Save()) bad("Save returned false"); }
  void reopen() { save(); op("reopen"); delete t; t = new SITree(dir, "t", "open", cache); }
  void lost() { op("lost"); delete t; t = new SITree(dir, "t", "open", cache); }
  void phase(unsigned n) {
    unsigned w = rnd(6), goal = rnd(3) ? 300 : 6000;
    for (unsigned i = 0; i < n; i++) {
      unsigned x = rnd(100), ins = w == 0 ? 80 : w == 1 ? 10 : w == 2 ? 0 : m.size() > goal ? 25 : 45;
      if (x < ins) insert(!rnd(10) && !ever.empty() ? ever[rnd(ever.size())] : newkey(), R());
      else if (x < 75) remove(pick(rnd(20)));
      else if (x < 85) modify(pick(rnd(4)));
      else search(pick(rnd(2)));
      if (ever.size() > 20000) { ever.clear(); for (auto& x : m) ever.push_back(x.first); if (ever.empty()) ever.push_back("x"); }
    }
    if (w == 3) {   // in order, upwards or downwards, so that nodes split or merge at one side
      vector<string> ks; for (auto& x : m) ks.push_back(x.first);
      if (rnd(2)) reverse(ks.begin(), ks.end());
      unsigned keep = rnd(3) ? rnd(ks.size() + 1) : 0;
      for (unsigned i = 0; i + keep < ks.size(); i++) { remove(ks[i]); if (i % 64 == 0) search(pick(true)); }
    }
    if (w == 4) {
      vector<string> ks; for (unsigned i = 0; i < 700; i++) ks.push_back(newkey());
      sort(ks.begin(), ks.end()); if (rnd(2)) reverse(ks.begin(), ks.end());
      for (auto& k : ks) if (!m.count(k)) insert(k, R());
    }
    counts["largest"] = max(counts["largest"], (unsigned)m.size());
  }
};

// ---------------------------------------------------------------- the arrays from identifiers to bytes
template <class A, class L> struct AR {
  string dir; unsigned long long cache; unsigned keys, vals;
  A* t; bool iv;
  map<unsigned, string> m;
  unsigned top = 0;
  AR(string d, unsigned long long c, unsigned k, unsigned v, bool iv_) : dir(d), cache(c), keys(k), vals(v), iv(iv_) { t = new A(dir, "t", "build", cache, rnd(2) ? 0 : rnd(5000)); }
  string value() {
    static const unsigned edge[] = {1, 2, 243, 244, 245, 247, 248, 249, 251, 252, 253, 255, 256, 257, 487, 488, 489, 495, 496, 497, 503, 504, 505, 511, 512, 513, 744, 756, 1000};
    unsigned n;
    switch (vals % 4) {
      case 0: n = 1 + rnd(60); break;
      case 1: n = edge[rnd(sizeof edge / sizeof *edge)]; break;
      case 2: n = rnd(10) ? 1 + rnd(700) : 1 + rnd(30000); break;
      default: n = iv && !rnd(25) ? 999900 + rnd(300) : 1 + rnd(3000);
    }
    if (n > cache / 3) n = 1 + n % (cache / 3);
    return bytes(n);
  }
  unsigned freekey() {
    unsigned k;
    do {
      switch (keys % 3) {
        case 0: k = rnd(2) ? top : rnd(top + 3); break;
        case 1: k = !rnd(12) ? (1u << (8 + rnd(7))) + rnd(3) - 1 : rnd(3000); break;
        default: k = rnd(top * 2 + 10) % 40000;
      }
      if (m.count(k) && m.size() * 2 > top) k = top;
    } while (m.count(k));
    return k;
  }
  unsigned pick(bool present) {
    if (present && !m.empty()) { auto it = m.lower_bound(rnd(top)); return it == m.end() ? m.begin()->first : it->first; }
    return rnd(top + 40);
  }
  void insert(unsigned k) {
    string v = value();
    op("insert", to_string(k) + ":" + to_string(v.size()));
    char* p = dup(v);
    bool ret = t->insert(k, p, v.size()), want = !m.count(k);
    if (!ret || (iv && v.size() > 1000000)) delete[] p;
    if (ret != want) bad("insert returned " + to_string(ret));
    if (want) m[k] = v, top = max(top, k + 1);
  }
  void search(unsigned k) {
    counts["search"]++;
    char* s = NULL; L n = 0;
    bool ret = t->search(k, s, n);
    auto it = m.find(k);
    if (ret != (it != m.end())) bad("search of " + to_string(k) + " returned " + to_string(ret));
    if (ret) {
      if (n != it->second.size() || memcmp(s, it->second.data(), n)) bad("search of " + to_string(k) + " gave other bytes: " + to_string(n) + " of them, " + to_string(it->second.size()) + " written");
      delete[] s;
    }
  }
  void remove(unsigned k) {
    op("remove", to_string(k));
    bool ret = t->remove(k), want = m.erase(k);
    if (ret != want) bad("remove returned " + to_string(ret));
  }
  void modify(unsigned k) {
    string v = value();
    op("modify", to_string(k) + ":" + to_string(v.size()));
    char* p = dup(v);
    bool ret = t->modify(k, p, v.size()), want = m.count(k);
    if (!ret) delete[] p;
    if (ret != want) bad("modify returned " + to_string(ret));
    if (want) m[k] = v;
  }
  void all() {
    op("all");
    for (auto& x : m) search(x.first);
    for (int i = 0; i < 60; i++) search(pick(false));
  }
  void save() { op("save"); if (!t->save()) bad("save returned false"); }
  void reopen() {
    save(); op("reopen"); delete t; t = new A(dir, "t", "open", cache, 0);
    if (iv) for (int i = rnd(4); i > 0; i--) pin(pick(true));     // as loading a database pins its long lists
  }
  void lost() { op("lost"); delete t; t = new A(dir, "t", "open", cache, 0); }
  void pin(unsigned k);
  void phase(unsigned n) {
    unsigned w = rnd(4), goal = cache < 100000 || vals % 4 == 3 ? 60 : rnd(3) ? 200 : 3000;
    if (keys % 3 == 1) goal = 200;
    for (unsigned i = 0; i < n; i++) {
      unsigned x = rnd(100), ins = w == 0 ? 60 : w == 1 ? 5 : m.size() > goal ? 15 : 35;
      if (m.size() > 4 * goal) ins = 0;
      if (x < ins) insert(rnd(10) || m.empty() ? freekey() : pick(true));
      else if (x < 60) remove(rnd(30) && !m.empty() ? pick(true) : freekey() % (top + 1));
      else if (x < 80) modify(pick(rnd(20)));
      else search(pick(rnd(10)));
    }
    counts["largest"] = max(counts["largest"], (unsigned)m.size());
  }
};
template <> void AR<IVArray, unsigned long>::pin(unsigned k) {
  if (m.count(k) && m[k].size() < cache / 12) { op("pin", to_string(k)); t->PinCache(k); }
}
template <> void AR<ISArray, unsigned>::pin(unsigned) {}

template <class X> void work(X& x, unsigned ops, bool lose) {
  x.save();
  auto saved = x.m;
  for (unsigned done = 0; done < ops;) {
    unsigned n = 20 + rnd(rnd(3) ? 300 : 3000);
    x.phase(n);
    done += n;
    switch (rnd(lose ? 8 : 6)) {
      case 0: x.all(); break;
      case 1: x.save(); saved = x.m; break;
      case 2: x.save(); saved = x.m; x.all(); break;
      case 6: case 7: x.lost(); x.m = saved; x.all(); break;
      default: x.reopen(); saved = x.m; if (rnd(3)) x.all(); break;
    }
  }
  x.all(); x.reopen(); x.all(); x.reopen(); x.all();
}

int main(int argc, char** argv) {
  string kind = argv[1], dir = argv[2];
  R.seed(atoll(argv[3]));
  unsigned ops = atoi(argv[4]), keys = atoi(argv[6]), vals = atoi(argv[7]);
  unsigned long long cache = atoll(argv[5]);
  bool lose = argc > 8 && atoi(argv[8]);    // also drop what was done since the last save, as a crash does
  out = fdopen(::dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 9;    // what the structures print themselves
  if (kind == "si") { SI x(dir, cache, keys); work(x, ops, lose); }
  else if (kind == "is") { AR<ISArray, unsigned> x(dir, cache, keys, vals, false); work(x, ops, lose); }
  else { AR<IVArray, unsigned long> x(dir, cache, keys, vals, true); work(x, ops, lose); }
  fprintf(out, "OK {");
  const char* sep = "";
  for (auto& c : counts) { fprintf(out, "%s\"%s\": %u", sep, c.first.c_str(), c.second); sep = ", "; }
  fprintf(out, "}\n");
  fflush(out);
  _exit(0);
}
