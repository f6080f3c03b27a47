// Ownership of bytes along every accepting path of a transducer between a
// text and a token stream (see lib/trace.py for the rules that are decided).
#include <cstdint>
#include <deque>
#include <unordered_map>
#include <vector>
using std::vector;

namespace {
enum Mode { B0 = 0, B = 1, N = 2, V = 3, E = 4 };  // before the first token, between, in a token, in a value, after a backslash
struct St {
  int q;
  uint8_t m, pend, d, c, w, own, bad;
  uint64_t key() const {
    return ((uint64_t)q << 24) | ((uint64_t)m << 21) | ((uint64_t)pend << 19) | ((uint64_t)d << 18) | ((uint64_t)c << 12) | ((uint64_t)w << 11) |
           ((uint64_t)own << 9) | ((uint64_t)bad << 5);
  }
};
struct Back { int64_t parent; uint8_t il, ol; };

// stream machine: the mode after one byte
int step(int m, int byte) {
  switch (m) {
    case B0: case B: return byte == ' ' ? m : N;
    case N: return byte == '"' ? V : (byte == '}' ? B : N);
    case V: return byte == '\\' ? E : (byte == '"' ? N : V);
    default: return V;
  }
}
struct Run {
  int n, start;
  const int64_t* off; const int32_t *il, *ol, *nx; const uint8_t* fin;
  const int16_t* utf;   // [64][256] next utf-8 state, -1 invalid
  const uint8_t* done;  // [64][256] 0: inside, 1: ends a character, 2: ends whitespace
  vector<St> states; vector<Back> back; std::unordered_map<uint64_t, int64_t> id; std::deque<int64_t> queue;
  void add(const St& s, int64_t parent, int a, int b) {
    auto r = id.emplace(s.key(), (int64_t)states.size());
    if (!r.second) return;
    states.push_back(s); back.push_back({parent, (uint8_t)a, (uint8_t)b}); queue.push_back(r.first->second);
  }
  // one byte of the traced text: char state, guess of whitespace, owner
  bool byte(St& s, int b, int w, int ow) {
    if (s.c == 0) { s.w = w; s.own = ow; }
    else if (!s.bad && (s.own == 2 || s.own != ow)) s.bad = 1;
    int nc = utf[s.c * 256 + b];
    if (nc < 0) return false;
    int kind = done[s.c * 256 + b];
    if (kind) {
      if ((kind == 2) != (s.w == 1)) return false;
      if (!s.bad && !s.w && s.own == 0) s.bad = 2;
      s.w = 0; s.own = 0;
    }
    s.c = nc;
    return true;
  }
};
}  // namespace

extern "C" {
struct Out { int64_t states; int bad; vector<uint8_t> in, out; };

// side 0: the text is the input and the stream is the output (tagger)
// side 1: the stream is the input and the text is the output (verbalizer)
void* trace(int n, int start, const int64_t* off, const int32_t* il, const int32_t* ol, const int32_t* nx, const uint8_t* fin, const int16_t* utf,
            const uint8_t* done, int side, int ignore) {
  Run R{n, start, off, il, ol, nx, fin, utf, done};
  Out* out = new Out{0, 0, {}, {}};
  if (start < 0) return out;
  R.add(St{start, B0, 0, 0, 0, 0, 0, 0}, -1, 0, 0);
  while (!R.queue.empty()) {
    int64_t k = R.queue.front();
    R.queue.pop_front();
    St s = R.states[k];
    if (fin[s.q] && s.bad && s.c == 0 && s.m <= B && s.pend != 1) {
      out->bad = s.bad;
      for (int64_t x = k; x >= 0; x = R.back[x].parent) {
        if (R.back[x].il) out->in.insert(out->in.begin(), R.back[x].il);
        if (R.back[x].ol) out->out.insert(out->out.begin(), R.back[x].ol);
      }
      break;
    }
    for (int64_t a = off[s.q]; a < off[s.q + 1]; ++a) {
      int text = side == 0 ? il[a] : ol[a], str = side == 0 ? ol[a] : il[a];
      for (int w = 0; w < 2; ++w) {
        if (w == 1 && !(text && s.c == 0)) break;
        int ws = s.c == 0 ? w : s.w;
        for (int g = 0; g < 3; ++g) {
          St t = s;
          t.q = nx[a];
          bool between = s.m <= B, starts = between && str && str != ' ';
          if (str && s.pend) {
            if ((s.pend == 1) != starts) break;
            t.pend = 0;
          }
          int ow = 0;
          if (side == 0) {
            // a separator aligned with input may stand just before a token
            bool front = text && str == ' ' && between;
            if (front ? g == 0 : g != 0) continue;
            if (front) t.pend = g;
            bool inside = !between || starts;
            if (text) ow = (inside && (str || !ws || s.d)) || (front && g == 1 && !ws);
            if (text && !R.byte(t, text, ws, ow)) continue;
            if (ow && !t.bad) t.d = 1;
            if (str) {
              t.m = step(s.m, str);
              if (s.m == N && t.m == B) {
                if (!t.bad && !t.d) t.bad = 3;
                t.d = 0;
                if (t.c && t.own == 1) t.own = 2;
              }
            }
          } else {
            if (g) continue;
            if (starts) {
              if (s.c && !t.bad) t.bad = 4;
              if (s.m == B && t.c && t.own == 1) t.own = 2;
            }
            if (str) ow = !between || starts;
            else ow = s.m == B ? !ws : 1;
            if (text && !R.byte(t, text, ws, ow)) continue;
            if (str) t.m = step(s.m, str);
          }
          if (t.bad && ((ignore >> t.bad) & 1)) t.bad = 0;
          if (t.bad) { t.d = 0; t.own = 0; }
          R.add(t, k, il[a], ol[a]);
        }
      }
    }
  }
  out->states = R.states.size();
  return out;
}
int64_t out_states(void* p) { return ((Out*)p)->states; }
int out_bad(void* p) { return ((Out*)p)->bad; }
int out_len(void* p, int i) { return (i ? ((Out*)p)->out : ((Out*)p)->in).size(); }
const uint8_t* out_data(void* p, int i) { return (i ? ((Out*)p)->out : ((Out*)p)->in).data(); }
void out_free(void* p) { delete (Out*)p; }
}
