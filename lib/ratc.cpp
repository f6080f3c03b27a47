// Antichain inclusion / token-contract search over byte NFAs (see lib/rat.py).
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <vector>
using std::vector;

namespace {
struct Nfa {
  int n = 0, start = -1;
  vector<int> off, label, next;   // arcs sorted by (state, label), epsilon first
  vector<char> fin;
  vector<vector<int>> clo;        // relevant epsilon closure, sorted, lazily
  vector<char> have;
  const vector<int>& closure(int q) {
    if (have[q]) return clo[q];
    vector<int> st{q}, seen{q};
    std::unordered_map<int, char> in;
    in[q] = 1;
    while (!st.empty()) {
      int x = st.back();
      st.pop_back();
      for (int i = off[x]; i < off[x + 1] && label[i] == 0; ++i)
        if (!in.count(next[i])) { in[next[i]] = 1; st.push_back(next[i]); seen.push_back(next[i]); }
    }
    vector<int> out;
    for (int x : seen)
      if (fin[x] || (off[x] < off[x + 1] && label[off[x + 1] - 1] != 0)) out.push_back(x);
    std::sort(out.begin(), out.end());
    clo[q] = out;
    have[q] = 1;
    return clo[q];
  }
};

struct VecHash {
  size_t operator()(const vector<int>& v) const {
    uint64_t h = 1469598103934665603ull;
    for (int x : v) { h ^= (uint32_t)x; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
  }
};

struct Sets {
  Nfa* B;
  std::unordered_map<vector<int>, int, VecHash> ids;
  vector<vector<int>> sets;
  vector<char> accepting;
  std::unordered_map<uint64_t, int> memo;
  int intern(vector<int> v) {
    auto it = ids.find(v);
    if (it != ids.end()) return it->second;
    int id = sets.size();
    bool f = false;
    for (int x : v) if (B->fin[x]) { f = true; break; }
    ids.emplace(v, id);
    sets.push_back(std::move(v));
    accepting.push_back(f);
    return id;
  }
  int step(int s, int lab) {
    uint64_t key = ((uint64_t)s << 9) | (unsigned)lab;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    vector<int> out;
    for (size_t k = 0; k < sets[s].size(); ++k) {
      int q = sets[s][k];
      const int* b = B->label.data() + B->off[q];
      const int* e = B->label.data() + B->off[q + 1];
      auto r = std::equal_range(b, e, lab);
      for (const int* p = r.first; p != r.second; ++p) {
        const auto& c = B->closure(B->next[p - B->label.data()]);
        out.insert(out.end(), c.begin(), c.end());
      }
    }
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    int id = intern(std::move(out));
    memo[key] = id;
    return id;
  }
  bool subset(int a, int b) const {
    if (a == b) return true;
    const auto &x = sets[a], &y = sets[b];
    if (x.size() > y.size()) return false;
    return std::includes(y.begin(), y.end(), x.begin(), x.end());
  }
};
struct Node { int parent; int lab; };
struct Item { int p, s, node; };
}  // namespace

extern "C" {
// arcs come as parallel arrays with per-state offsets
void* nfa_new(int n, int start, const int64_t* off, const int32_t* lab, const int32_t* nxt, const uint8_t* fin) {
  Nfa* a = new Nfa;
  a->n = n; a->start = start;
  a->off.assign(off, off + n + 1);
  int64_t m = off[n];
  a->label.resize(m); a->next.resize(m);
  vector<std::pair<int, int>> tmp;
  for (int q = 0; q < n; ++q) {
    tmp.clear();
    for (int64_t i = off[q]; i < off[q + 1]; ++i) tmp.emplace_back(lab[i], nxt[i]);
    std::sort(tmp.begin(), tmp.end());
    for (size_t k = 0; k < tmp.size(); ++k) { a->label[off[q] + k] = tmp[k].first; a->next[off[q] + k] = tmp[k].second; }
  }
  a->fin.assign(fin, fin + n);
  a->clo.resize(n); a->have.assign(n, 0);
  return a;
}
void nfa_free(void* p) { delete (Nfa*)p; }

struct Result {
  int64_t pairs;
  int found;             // 1: a word of A is not accepted
  vector<uint8_t> word;
  vector<vector<int>> ends;
  vector<vector<uint8_t>> endwords;
};

// start config: array of B states, or nstart < 0 for the initial one
void* search(void* pa, void* pb, const int32_t* startcfg, int nstart, int sep) {
  Nfa& A = *(Nfa*)pa; Nfa& B = *(Nfa*)pb;
  Result* R = new Result{0, 0, {}, {}, {}};
  if (A.start < 0) return R;
  Sets S; S.B = &B;
  vector<int> s0;
  if (nstart >= 0) { s0.assign(startcfg, startcfg + nstart); std::sort(s0.begin(), s0.end()); }
  else if (B.start >= 0) s0 = B.closure(B.start);
  int init = S.intern(s0);
  vector<vector<int>> anti(A.n);
  vector<Node> nodes;
  std::deque<Item> queue;
  std::unordered_map<int, int> ends;
  auto word = [&](int node) {
    vector<uint8_t> w;
    while (node >= 0) { w.push_back((uint8_t)nodes[node].lab); node = nodes[node].parent; }
    std::reverse(w.begin(), w.end());
    return w;
  };
  auto add = [&](int p, int s, int node) {
    auto& v = anti[p];
    for (int t : v) if (S.subset(t, s)) return;
    size_t k = 0;
    for (size_t i = 0; i < v.size(); ++i) if (!S.subset(s, v[i])) v[k++] = v[i];
    v.resize(k);
    v.push_back(s);
    queue.push_back({p, s, node});
  };
  for (int p : A.closure(A.start)) add(p, init, -1);
  while (!queue.empty()) {
    Item it = queue.front();
    queue.pop_front();
    auto& v = anti[it.p];
    if (std::find(v.begin(), v.end(), it.s) == v.end()) continue;
    R->pairs++;
    if (A.fin[it.p]) {
      if (!S.accepting[it.s]) { R->found = 1; R->word = word(it.node); return R; }
      if (sep >= 0) { int t = S.step(it.s, sep); ends.emplace(t, it.node); }
    }
    int i = A.off[it.p], e = A.off[it.p + 1];
    while (i < e && A.label[i] == 0) ++i;
    while (i < e) {
      int lab = A.label[i];
      int t = S.step(it.s, lab);
      nodes.push_back({it.node, lab});
      int node = nodes.size() - 1;
      for (; i < e && A.label[i] == lab; ++i)
        for (int u : A.closure(A.next[i])) add(u, t, node);
    }
  }
  vector<int> ids;
  for (auto& kv : ends) ids.push_back(kv.first);
  for (int a : ids) {
    bool min = true;
    for (int b : ids) if (a != b && S.subset(b, a)) { min = false; break; }
    if (min) { R->ends.push_back(S.sets[a]); R->endwords.push_back(word(ends[a])); }
  }
  return R;
}
int64_t res_pairs(void* r) { return ((Result*)r)->pairs; }
int res_found(void* r) { return ((Result*)r)->found; }
int res_len(void* r) { return ((Result*)r)->word.size(); }
const uint8_t* res_word(void* r) { return ((Result*)r)->word.data(); }
int res_ends(void* r) { return ((Result*)r)->ends.size(); }
int end_len(void* r, int i) { return ((Result*)r)->ends[i].size(); }
const int32_t* end_data(void* r, int i) { return ((Result*)r)->ends[i].data(); }
int endw_len(void* r, int i) { return ((Result*)r)->endwords[i].size(); }
const uint8_t* endw_data(void* r, int i) { return ((Result*)r)->endwords[i].data(); }
void res_free(void* r) { delete (Result*)r; }
}
