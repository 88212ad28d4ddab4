// Hand made XML documents: an element tree of its own (independent of the library's DOM) and a renderer
// with random but equivalent formatting.
#ifndef XMLTEXT_H
#define XMLTEXT_H
#include "mon.h"
#include <algorithm>

namespace xt {
using namespace mon;
struct X {
  std::string tag; std::vector<std::pair<std::string, std::string>> a; std::vector<X> c; std::string text;
  X(const std::string& t = "") : tag(t) {}
  X& at(const std::string& n, const std::string& v) { a.push_back({n, v}); return *this; }
  X& at(const std::string& n, int v) { return at(n, fmt("%d", v)); }
  X& at(const std::string& n, double v) { return at(n, fmt("%.17g", v)); }
  X& add(const X& x) { c.push_back(x); return *this; }
  X& val(const std::string& t, double v) { return add(X(t).at("value", v)); }
};
static bool utf8Declared = false;     // characters outside ASCII may be written as references
inline std::string esc(const std::string& s, Rng* r, char quote) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i]; unsigned char c = ch;
    int n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0;
    if (n && i + n < s.size() && r && utf8Declared && r->chance(.4)) {
      unsigned u = c & (0x3F >> n); for (int k = 1; k <= n; ++k) u = u << 6 | ((unsigned char)s[i + k] & 0x3F);
      i += n; static const char* const f[] = {"&#x%X;", "&#x%x;", "&#%u;", "&#x0%X;"}; o += fmt(f[r->range(0, 3)], u); continue;
    }
    if (c == '&') o += "&amp;";
    else if (c == '<') o += "&lt;";
    else if (c == '>') o += r && r->chance(.5) ? ">" : "&gt;";
    else if (c == '"') o += quote == '"' || (r && r->chance(.5)) ? "&quot;" : "\"";
    else if (c == '\'') o += quote == '\'' || (r && r->chance(.5)) ? "&apos;" : "'";
    else if (c < 32) o += fmt("&#x%02X;", c);
    else if (r && c < 127 && r->chance(.01)) o += r->chance(.5) ? fmt("&#x%02X;", c) : fmt("&#%d;", c);
    else o += ch;
  }
  return o;
}
static bool extraElements = true;     // insert unknown elements now and then
inline std::string ws(Rng& r, bool need) {
  std::string s; int n = r.range(need ? 1 : 0, 3);
  for (int i = 0; i < n; ++i) s += " \n\t\r"[r.range(0, 3)];
  return s;
}
inline std::string comment(Rng& r) {
  static const std::vector<std::string> t = {" a comment ", "<layer repeat=\"5\"/>", " & < > \" ' ", "", " <!- - ", " ]]> "};
  return "<!--" + r.pick(t) + "-->";
}
// children keep their order among equal tags, different tags are interleaved at random
inline std::vector<const X*> order(Rng& r, const X& x) {
  std::map<std::string, std::vector<const X*>> by;
  for (auto& k : x.c) by[k.tag].push_back(&k);
  std::vector<std::string> seq;
  for (auto& k : by) for (size_t i = 0; i < k.second.size(); ++i) seq.push_back(k.first);
  for (size_t i = seq.size(); i > 1; --i) std::swap(seq[i - 1], seq[r.range(0, i - 1)]);
  std::map<std::string, size_t> pos; std::vector<const X*> out;
  for (auto& s : seq) out.push_back(by[s][pos[s]++]);
  return out;
}
// r == 0: plain formatting
inline void render(std::string& o, const X& x, Rng* r, int depth = 0) {
  bool wild = r != 0;
  if (!wild) o += std::string(depth * 2, ' ');
  o += "<" + x.tag;
  auto at = x.a;
  if (wild) for (size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[r->range(0, i - 1)]);
  for (auto& k : at) {
    char q = wild && r->chance(.3) ? '\'' : '"';
    o += (wild ? ws(*r, true) : " ") + k.first + (wild ? ws(*r, false) : "") + "=" + (wild ? ws(*r, false) : "") + q + esc(k.second, r, q) + q;
  }
  if (wild) o += ws(*r, false);
  if (x.c.empty() && x.text.empty() && (!wild || r->chance(.7))) { o += "/>"; if (!wild) o += "\n"; return; }
  o += ">";
  if (!x.text.empty()) {      // comments may stand before, in and after the text
    std::string t = x.text; size_t cut = std::string::npos; if (wild && r->chance(.15)) cut = t.find(' ', r->range(0, (int)t.size() - 1));
    o += wild ? ws(*r, false) + (r->chance(.1) ? comment(*r) + ws(*r, false) : "") : "";
    if (cut == std::string::npos) o += esc(t, r, 0); else o += esc(t.substr(0, cut), r, 0) + ws(*r, false) + comment(*r) + ws(*r, false) + esc(t.substr(cut + 1), r, 0);
    o += wild ? ws(*r, false) + (r->chance(.1) ? comment(*r) + ws(*r, false) : "") : "";
  }
  else if (!wild) o += "\n";
  std::vector<const X*> ch;
  if (wild) ch = order(*r, x); else for (auto& k : x.c) ch.push_back(&k);
  for (auto* k : ch) {
    if (wild) { o += ws(*r, false); if (r->chance(.06)) o += comment(*r) + ws(*r, false); if (r->chance(.02) && extraElements) o += "<somethingElse note=\"ignored\" ID=\"3\"><layer/></somethingElse>"; }
    render(o, *k, r, depth + 1);
  }
  if (wild && x.text.empty()) { o += ws(*r, false); if (r->chance(.04)) o += comment(*r); }
  if (!wild && x.text.empty()) o += std::string(depth * 2, ' ');
  o += "</" + x.tag + (wild && r->chance(.1) ? " >" : ">");
  if (!wild) o += "\n";
}
inline std::string document(const X& root, Rng* r) {
  std::string o;
  utf8Declared = false;
  if (r) {
    if (r->chance(.1)) o += "\xEF\xBB\xBF";
    if (r->chance(.6)) { utf8Declared = true; o += r->chance(.5) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "<?xml version='1.0' standalone='no' ?>"; }
    if (r->chance(.3)) o += comment(*r) + ws(*r, false);
    if (r->chance(.1)) o += "<!DOCTYPE gear>\n";
  }
  render(o, root, r);
  if (r && r->chance(.3)) o += ws(*r, false) + comment(*r) + ws(*r, false);
  return o;
}
inline void writeFile(const std::string& path, const std::string& s) {
  FILE* f = fopen(path.c_str(), "wb"); if (!f) abort();
  fwrite(s.data(), 1, s.size(), f); fclose(f);
}
inline std::string readFile(const std::string& path) {
  std::string s; FILE* f = fopen(path.c_str(), "rb"); if (!f) return s;
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}
}  // namespace xt
#endif
