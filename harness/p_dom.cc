// P12: the document object model against an independent model, and parse(print(document)).
#include "xmltext.h"
#include "gearxml/tinyxml.h"
#include <memory>
#include <sstream>
#include <unistd.h>
#include <climits>
using namespace mon;
using namespace gear;

struct N {
  int type; std::string v; std::vector<std::pair<std::string, std::string>> a; std::vector<std::unique_ptr<N>> c; N* up = 0;
  std::string ver, enc, sta;
  TiXmlNode* t = 0;      // the real node
  N(int ty, const std::string& val) : type(ty), v(val) {}
  size_t count() const { size_t n = 1; for (auto& k : c) n += k->count(); return n; }
};
typedef std::unique_ptr<N> NP;
enum { DOC = TiXmlNode::DOCUMENT, ELE = TiXmlNode::ELEMENT, COM = TiXmlNode::COMMENT, UNK = TiXmlNode::UNKNOWN, TXT = TiXmlNode::TEXT, DEC = TiXmlNode::DECLARATION };

static NP copy(const N& n) {
  NP o(new N(n.type, n.v)); o->a = n.a; o->ver = n.ver; o->enc = n.enc; o->sta = n.sta;
  for (auto& k : n.c) { o->c.push_back(copy(*k)); o->c.back()->up = o.get(); }
  return o;
}
static std::string str(Ctx& c, bool trimmed) {
  static const std::vector<std::string> part = {"a", "B", "7", "&", "<", ">", "\"", "'", "\xC3\xA4", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xEA\xAF\x8D", "\xF3\xAB\xBF\x8D", "\xDF\xBF", "\xC2\x80", "\xE0\xA0\x80", "\xEF\xBF\xBD", "\xEF\xBC\x81", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF", ";", "#", "%s", "]]>", "\\", "=", "/", " ", "-", ".", "lt;", "amp;"};
  std::string s; int n = c.rng.range(0, 8);
  for (int i = 0; i < n; ++i) {
    if (!trimmed && c.rng.chance(.08)) s += "\t\n\r\x01\x1f"[c.rng.range(0, 4)];
    s += c.rng.pick(part);
  }
  size_t p; while ((p = s.find("&#x")) != std::string::npos) s.erase(p, 1);   // passed through on purpose by the library
  if (trimmed) {
    std::string o; for (char ch : s) if (ch != ' ' || (!o.empty() && o.back() != ' ')) o += ch;
    while (!o.empty() && o.back() == ' ') o.pop_back();
    if (o.empty()) o = "t";
    return o;
  }
  return s;
}
static std::string tag(Ctx& c) { static const std::vector<std::string> t = {"a", "b", "layer", "x-y", "n.s", "_u", "q1", "ns:t", "L\xC3\xA4nge"}; return c.rng.pick(t); }
static std::string aname(Ctx& c) { static const std::vector<std::string> t = {"name", "type", "value", "x", "y-z", "_q", "ns:a", "k1", "k2", "k3"}; return c.rng.pick(t); }
static std::string cmt(Ctx& c) { std::string s = str(c, false); size_t p; while ((p = s.find("-")) != std::string::npos) s.erase(p, 1); if (!s.empty() && s[0] == 0x3e) s = "c" + s; return s; }

static NP tree(Ctx& c, int depth, int type = -1) {
  int ty = type >= 0 ? type : c.rng.chance(.65) ? (int)ELE : c.rng.chance(.5) ? (int)TXT : c.rng.chance(.7) ? (int)COM : (int)UNK;
  NP n(new N(ty, ""));
  if (ty == ELE) {
    n->v = tag(c);
    for (int i = c.rng.range(0, 3); i > 0; --i) { std::string k = aname(c); bool dup = false; for (auto& j : n->a) dup |= j.first == k; if (!dup) n->a.push_back({k, str(c, false)}); }
    if (depth > 0) for (int i = c.rng.range(0, 3); i > 0; --i) { n->c.push_back(tree(c, depth - 1)); n->c.back()->up = n.get(); }
  } else if (ty == TXT) n->v = str(c, true);
  else if (ty == COM) n->v = cmt(c);
  else n->v = c.rng.chance(.5) ? "!ENTITY foo" : "!ELEMENT bar (a|b)";
  return n;
}
static TiXmlNode* build(Ctx& c, const N& n) {
  TiXmlNode* t = 0;
  switch (n.type) {
    case ELE: { TiXmlElement* e = c.rng.chance(.5) ? new TiXmlElement(n.v) : new TiXmlElement(n.v.c_str()); for (auto& k : n.a) { if (c.rng.chance(.5)) e->SetAttribute(k.first, k.second); else e->SetAttribute(k.first.c_str(), k.second.c_str()); } t = e; break; }
    case TXT: t = c.rng.chance(.5) ? new TiXmlText(n.v) : new TiXmlText(n.v.c_str()); break;
    case COM: t = new TiXmlComment; t->SetValue(n.v); break;
    case UNK: t = new TiXmlUnknown; t->SetValue(n.v.c_str()); break;
    case DEC: t = new TiXmlDeclaration(n.ver, n.enc, n.sta); break;
    default: abort();
  }
  for (auto& k : n.c) { if (c.rng.chance(.5)) t->LinkEndChild(build(c, *k)); else { std::unique_ptr<TiXmlNode> x(build(c, *k)); t->InsertEndChild(*x); } }
  return t;
}
static void bind(N& n, TiXmlNode* t) { n.t = t; TiXmlNode* k = t ? t->FirstChild() : 0; for (auto& j : n.c) { bind(*j, k); if (k) k = k->NextSibling(); } }
static void flat(N& n, std::vector<N*>& o) { o.push_back(&n); for (auto& k : n.c) flat(*k, o); }

// structural comparison through every navigation function
static bool verify(Ctx& c, const N& n, TiXmlNode* t, const char* what, const TiXmlDocument* doc, bool full = true) {
  std::string w = what;
  if (!c.chk(t != 0, w + ".missing", "%s", n.v.c_str())) return false;
  if (!c.eqi(t->Type(), n.type, w + ".type")) return false;
  if (n.type != DOC && n.type != DEC && !c.eq(t->Value(), n.v, w + ".value")) return false;
  if (full) {
    c.chk(t->GetDocument() == doc, w + ".GetDocument");
    c.chk((t->ToElement() != 0) == (n.type == ELE) && (t->ToText() != 0) == (n.type == TXT) && (t->ToComment() != 0) == (n.type == COM) && (t->ToUnknown() != 0) == (n.type == UNK) &&
          (t->ToDocument() != 0) == (n.type == DOC) && (t->ToDeclaration() != 0) == (n.type == DEC), w + ".casts");
  }
  if (n.type == DEC) { TiXmlDeclaration* d = t->ToDeclaration(); c.eq(d->Version(), n.ver, w + ".decl"); c.eq(d->Encoding(), n.enc, w + ".decl"); c.eq(d->Standalone(), n.sta, w + ".decl"); }
  if (n.type == ELE) {
    TiXmlElement* e = t->ToElement(); std::vector<std::pair<std::string, std::string>> got;
    for (TiXmlAttribute* a = e->FirstAttribute(); a && got.size() < 100; a = a->Next()) got.push_back({a->Name(), a->Value()});
    bool ok = got == n.a;
    if (!c.chk(ok, w + ".attributes", "%zu instead of %zu attributes or different values", got.size(), n.a.size())) return false;
    if (full) {
      std::vector<std::pair<std::string, std::string>> rev; const TiXmlElement* ce = e;
      for (TiXmlAttribute* a = e->LastAttribute(); a && rev.size() < 100; a = a->Previous()) rev.insert(rev.begin(), {a->Name(), a->Value()});
      c.chk(rev == n.a, w + ".attributes-backwards");
      for (auto& k : n.a) {
        const char* v = ce->Attribute(k.first); c.chk(v && v == k.second, w + ".Attribute", "%s", k.first.c_str());
        int i = -7; double d = -7; const char* s = k.second.c_str();
        int q = ce->QueryIntAttribute(k.first, &i), wi = -7, wq = sscanf(s, "%d", &wi) == 1 ? TIXML_SUCCESS : TIXML_WRONG_TYPE;
        c.chk(q == wq && (q != TIXML_SUCCESS || i == wi), w + ".QueryInt", "'%s' -> %d %d", s, q, i);
        double wd = -7; q = ce->QueryDoubleAttribute(k.first, &d); wq = sscanf(s, "%lf", &wd) == 1 ? TIXML_SUCCESS : TIXML_WRONG_TYPE;
        c.chk(q == wq && (q != TIXML_SUCCESS || d == wd || (d != d && wd != wd)), w + ".QueryDouble", "'%s' -> %d %g", s, q, d);
      }
      int i = 5; c.chk(ce->Attribute("no such name") == 0 && ce->QueryIntAttribute("no such name", &i) == TIXML_NO_ATTRIBUTE && i == 5, w + ".no-attribute");
    }
  }
  std::vector<TiXmlNode*> ch; for (TiXmlNode* k = t->FirstChild(); k && ch.size() <= n.c.size() + 2; k = k->NextSibling()) ch.push_back(k);
  if (!c.eqi(ch.size(), n.c.size(), w + ".children")) return false;
  if (full) {
    c.chk(t->NoChildren() == n.c.empty(), w + ".NoChildren");
    size_t i = ch.size(); for (TiXmlNode* k = t->LastChild(); k; k = k->PreviousSibling()) { if (!c.chk(i > 0 && ch[i - 1] == k, w + ".backwards")) break; --i; }
    c.chk(i == 0, w + ".backwards-count");
    TiXmlNode* it = 0; i = 0; while ((it = t->IterateChildren(it))) { if (!c.chk(i < ch.size() && it == ch[i], w + ".IterateChildren")) break; ++i; }
    c.chk(i == ch.size(), w + ".IterateChildren");
    std::vector<TiXmlNode*> el; for (size_t q = 0; q < ch.size(); ++q) if (n.c[q]->type == ELE) el.push_back(ch[q]);
    i = 0; for (TiXmlElement* k = t->FirstChildElement(); k; k = k->NextSiblingElement()) { if (!c.chk(i < el.size() && k == el[i], w + ".elements")) break; ++i; }
    c.chk(i == el.size(), w + ".elements");
    if (!ch.empty()) {
      const std::string name = n.c[c.rng.range(0, ch.size() - 1)]->v; std::vector<TiXmlNode*> s, se;
      for (size_t q = 0; q < ch.size(); ++q) if (n.c[q]->v == name && n.c[q]->type != DEC) { s.push_back(ch[q]); if (n.c[q]->type == ELE) se.push_back(ch[q]); }
      std::vector<TiXmlNode*> g; for (TiXmlNode* k = t->FirstChild(name.c_str()); k; k = k->NextSibling(name.c_str())) g.push_back(k);
      c.chk(g == s || name.empty(), w + ".named-forward");
      g.clear(); for (TiXmlNode* k = t->LastChild(name.c_str()); k; k = k->PreviousSibling(name.c_str())) g.insert(g.begin(), k);
      c.chk(g == s || name.empty(), w + ".named-backward");
      g.clear(); it = 0; while ((it = t->IterateChildren(name, it))) g.push_back(it);
      c.chk(g == s || name.empty(), w + ".named-iterate");
      g.clear(); for (TiXmlElement* k = t->FirstChildElement(name); k; k = k->NextSiblingElement(name)) g.push_back(k);
      c.chk(g == se || name.empty(), w + ".named-elements");
      int q = c.rng.range(0, ch.size()); TiXmlHandle h(t);
      c.chk(h.Child(q).Node() == (q < (int)ch.size() ? ch[q] : 0), w + ".handle-child");
      c.chk(h.ChildElement(q).Element() == (q < (int)el.size() ? el[q]->ToElement() : 0), w + ".handle-element");
      if (!name.empty()) c.chk(h.Child(name, q).Node() == (q < (int)s.size() ? s[q] : 0), w + ".handle-named");
      if (!name.empty()) c.chk(h.ChildElement(name, q).Element() == (q < (int)se.size() ? se[q]->ToElement() : 0), w + ".handle-named-element");
      if (!name.empty()) c.chk(h.FirstChild(name).Node() == (s.empty() ? 0 : s[0]) && h.FirstChildElement(name).Node() == (se.empty() ? 0 : se[0]) && h.FirstChild().Node() == ch[0], w + ".handle-first");
      c.chk(t->FirstChild("no such child") == 0 && TiXmlHandle(t).FirstChild("no such child").Child(0).Node() == 0, w + ".no-child");
    }
  }
  for (size_t i = 0; i < ch.size(); ++i) { if (full) c.chk(ch[i]->Parent() == t, w + ".Parent"); if (!verify(c, *n.c[i], ch[i], what, doc, full)) return false; }
  return true;
}
static bool adjacentText(const N& n) {
  for (size_t i = 0; i < n.c.size(); ++i) { if (i && n.c[i]->type == TXT && n.c[i - 1]->type == TXT) return true; if (adjacentText(*n.c[i])) return true; }
  return false;
}
static NP document(Ctx& c, TiXmlDocument& d) {
  NP m(new N(DOC, ""));
  if (c.rng.chance(.5)) { NP k(new N(DEC, "")); k->ver = "1.0"; if (c.rng.chance(.7)) k->enc = c.rng.chance(.5) ? "UTF-8" : "utf8"; if (c.rng.chance(.3)) k->sta = "yes"; m->c.push_back(std::move(k)); }
  int n = c.rng.range(1, 3); for (int i = 0; i < n; ++i) m->c.push_back(tree(c, 4, i == 0 || c.rng.chance(.5) ? (int)ELE : c.rng.chance(.5) ? (int)COM : (int)UNK));
  for (auto& k : m->c) { k->up = m.get(); d.LinkEndChild(build(c, *k)); }
  bind(*m, &d);
  return m;
}
static void roundtrip(Ctx& c, const N& m, TiXmlDocument& d) {
  if (adjacentText(m)) { c.ev("roundtrip_skipped_adjacent_text"); return; }
  std::string p = c.scratch + fmt("/dom_%ld.xml", c.idx);
  struct Del { std::string p; ~Del() { unlink(p.c_str()); } } del{p};
  if (!c.chk(c.rng.chance(.5) ? d.SaveFile(p) : d.SaveFile(p.c_str()), "save")) return;
  { TiXmlDocument e(p); bool ok = c.rng.chance(.5) ? e.LoadFile() : e.LoadFile(p);
    if (c.chk(ok && !e.Error(), "load", "%s at row %d", e.ErrorDesc(), e.ErrorRow())) verify(c, m, &e, "file", &e, false); }
  { TiXmlDocument e; e.Parse(xt::readFile(p).c_str(), 0, TIXML_ENCODING_UTF8);
    if (c.chk(!e.Error(), "parse", "%s", e.ErrorDesc())) verify(c, m, &e, "parse", &e, false); }
  // the stream operators write up to the first element
  size_t cut = 0; while (cut < m.c.size() && m.c[cut]->type != ELE) ++cut;
  if (cut < m.c.size()) {
    std::string s; s << d; std::ostringstream os; os << d; c.eq(s, os.str(), "stream-string");
    NP part = copy(m); part->c.resize(cut + 1);
    TiXmlDocument e; e.Parse(s.c_str(), 0, TIXML_ENCODING_UTF8);
    if (c.chk(!e.Error(), "stream-parse", "%s", e.ErrorDesc())) verify(c, *part, &e, "stream", &e, false);
    bool simple = true;     // the reading stream operator only knows a single root element
    if (simple && cut == 0) {
      std::istringstream is(s + " trailing"); TiXmlDocument f; is >> f;
      if (c.chk(!f.Error(), "istream", "%s: %s", f.ErrorDesc(), s.c_str())) verify(c, *part, &f, "istream", &f, false);
    }
  }
  c.ev("roundtrips");
}
static void edit(Ctx& c) {
  TiXmlDocument d; NP m = document(c, d);
  if (!verify(c, *m, &d, "built", &d)) return;
  int ops = c.rng.range(5, 40); std::string sig;
  for (int o = 0; o < ops; ++o) {
    std::vector<N*> all; flat(*m, all); if (all.size() > 200) break;
    N* n = c.rng.pick(all); std::vector<N*> par; for (auto* k : all) if (k->type == ELE) par.push_back(k);
    N* q = par.empty() ? 0 : c.rng.pick(par);
    int op = c.rng.range(0, 13); sig += char('a' + op);
    auto adopt = [&](N* p, size_t pos, NP x, TiXmlNode* real) { x->up = p; bind(*x, real); p->c.insert(p->c.begin() + pos, std::move(x)); };
    auto indexOf = [](N* x) { for (size_t i = 0; i < x->up->c.size(); ++i) if (x->up->c[i].get() == x) return i; abort(); };
    switch (op) {
      case 0: case 1: if (q) { NP x = tree(c, 2); TiXmlNode* r;
        if (op == 0) { std::unique_ptr<TiXmlNode> t(build(c, *x)); r = q->t->InsertEndChild(*t); c.chk(r != t.get(), "insert-clones"); } else { TiXmlNode* t = build(c, *x); r = q->t->LinkEndChild(t); c.chk(r == t, "LinkEndChild-result"); }
        if (!c.chk(r, "insert-result")) return; adopt(q, q->c.size(), std::move(x), r); } break;
      case 2: case 3: if (n->up && n->up->type == ELE) { N* p = n->up; size_t i = indexOf(n); NP x = c.rng.chance(.3) ? copy(*n) : tree(c, 2); std::unique_ptr<TiXmlNode> t(build(c, *x));
        TiXmlNode* r = op == 2 ? p->t->InsertBeforeChild(n->t, *t) : p->t->InsertAfterChild(n->t, *t);
        if (!c.chk(r != 0, "insert-sibling")) return; adopt(p, op == 2 ? i : i + 1, std::move(x), r); } break;
      case 4: if (n->up && n->up->type == ELE) { N* p = n->up; size_t i = indexOf(n); NP x = c.rng.chance(.2) ? copy(*n) : tree(c, 2); std::unique_ptr<TiXmlNode> t(build(c, *x));
        TiXmlNode* r = p->t->ReplaceChild(n->t, *t); if (!c.chk(r != 0, "replace")) return; p->c.erase(p->c.begin() + i); adopt(p, i, std::move(x), r); } break;
      case 5: if (n->up && n->up->type == ELE) { N* p = n->up; size_t i = indexOf(n); if (!c.chk(p->t->RemoveChild(n->t), "remove")) return; p->c.erase(p->c.begin() + i); } break;
      case 6: if (q && c.rng.chance(.3)) { q->t->Clear(); q->c.clear(); } break;
      case 7: case 8: if (q) { std::string k = aname(c), v; TiXmlElement* e = q->t->ToElement(); double dv = 0; bool isd = false;
        switch (c.rng.range(0, 3)) {
          case 0: { int i = c.rng.range(0, 9) ? c.rng.range(-100000, 100000) : c.rng.chance(.5) ? INT_MAX : INT_MIN; v = std::to_string(i); if (c.rng.chance(.5)) e->SetAttribute(k, i); else e->SetAttribute(k.c_str(), i); int g = 1; c.chk(e->QueryIntAttribute(k, &g) == TIXML_SUCCESS && g == i, "int-attribute", "%d", i); break; }
          case 1: dv = c.rng.gauss() * c.rng.logu(1e-9, 1e9); isd = true; e->SetDoubleAttribute(k.c_str(), dv); v = e->Attribute(k) ? e->Attribute(k) : "?"; break;
          default: v = str(c, false); e->SetAttribute(k, v); }
        if (isd) { double g = 0; c.chk(e->QueryDoubleAttribute(k, &g) == TIXML_SUCCESS && std::fabs(g - dv) <= 1e-9 * std::fabs(dv), "double-attribute", "%.17g -> %s", dv, v.c_str()); }
        bool f = false; for (auto& j : q->a) if (j.first == k) { j.second = v; f = true; } if (!f) q->a.push_back({k, v}); } break;
      case 9: if (q) { std::string k = q->a.empty() || c.rng.chance(.2) ? aname(c) : c.rng.pick(q->a).first; q->t->ToElement()->RemoveAttribute(k); for (size_t i = 0; i < q->a.size(); ++i) if (q->a[i].first == k) { q->a.erase(q->a.begin() + i); break; } } break;
      case 10: { std::string v = n->type == ELE ? tag(c) : n->type == TXT ? str(c, true) : n->type == COM ? cmt(c) : ""; if (!v.empty()) { n->t->SetValue(v); n->v = v; } } break;
      case 11: { std::unique_ptr<TiXmlNode> k(n->t->Clone()); verify(c, *n, k.get(), "clone", n->type == DOC ? k->ToDocument() : 0); c.chk(!k->Parent() && !k->NextSibling() && !k->PreviousSibling(), "clone-detached"); c.ev("clones"); } break;
      case 12: if (q) { TiXmlElement* e = q->t->ToElement();
        if (c.rng.chance(.2)) { TiXmlElement& r = *e; *e = r; }
        else { NP x = tree(c, 2, ELE); std::unique_ptr<TiXmlNode> t(build(c, *x)); *e = *t->ToElement(); q->v = x->v; q->a = x->a; q->c = std::move(x->c); for (auto& k : q->c) k->up = q; bind(*q, q->t); }
        TiXmlElement k(*e); verify(c, *q, &k, "copy", 0); } break;
      case 13: { TiXmlDocument k(d); verify(c, *m, &k, "document-copy", &k); TiXmlDocument l; l = d; verify(c, *m, &l, "document-assign", &l); TiXmlDocument& r = d; if (c.rng.chance(.2)) d = r; bind(*m, &d); } break;
    }
    c.ev("edits");
    if (!verify(c, *m, &d, "edited", &d)) return;
    // wrong parents are refused
    all.clear(); flat(*m, all); n = c.rng.pick(all); par.clear(); for (auto* k : all) if (k->type == ELE) par.push_back(k);
    q = par.empty() ? 0 : c.rng.pick(par);
    if (q && n->up && n->up != q && c.rng.chance(.2)) {
      NP x = tree(c, 0); std::unique_ptr<TiXmlNode> t(build(c, *x));
      c.chk(!q->t->InsertBeforeChild(n->t, *t) && !q->t->InsertAfterChild(n->t, *t) && !q->t->ReplaceChild(n->t, *t), "foreign-child");
      if (!verify(c, *m, &d, "refused", &d)) return;
    }
  }
  roundtrip(c, *m, d);
  c.state(sig + fmt("/%zu", m->count())); c.ev("nodes", m->count());
}
MON_WORKLOAD_F("P12", "edit", edit, 4000, 60000, LEAKCHECK)

// parsing a rendered text: content, and the row and column of every element
static void where(const std::string& text, std::vector<std::pair<int, int>>& pos, int tab) {   // positions of start tags in the text
  int row = 1, col = 0; size_t i = 0;
  auto step = [&] {
    char ch = text[i++];
    if (ch == '\n' || ch == '\r') { ++row; col = 0; if (i < text.size() && text[i] != ch && (text[i] == '\n' || text[i] == '\r')) ++i; }   // both ends of line in either order are one
    else if (ch == '\t') col = (col / tab + 1) * tab;
    else if ((ch & 0xC0) != 0x80) ++col;
  };
  while (i < text.size()) {
    if (text[i] == '<' && text.compare(i, 4, "<!--") == 0) { size_t e = text.find("-->", i); while (i < e + 3) step(); continue; }
    if (text[i] == '<' && text[i + 1] != '/' && text[i + 1] != '!' && text[i + 1] != '?') pos.push_back({row, col + 1});
    step();
  }
}
static void collect(TiXmlNode* n, std::vector<TiXmlElement*>& e) { for (TiXmlNode* k = n->FirstChild(); k; k = k->NextSibling()) { if (k->ToElement()) e.push_back(k->ToElement()); collect(k, e); } }
static xt::X toX(const N& n) { xt::X x(n.v); x.a = n.a; for (auto& k : n.c) if (k->type == ELE) x.c.push_back(toX(*k)); else if (k->type == TXT && n.c.size() == 1) x.text = k->v; return x; }
static bool sameX(Ctx& c, const xt::X& x, const TiXmlElement* e) {
  bool ok = c.eq(e->Value(), x.tag, "content.tag");
  std::map<std::string, std::string> a(x.a.begin(), x.a.end()), b; for (const TiXmlAttribute* k = e->FirstAttribute(); k; k = k->Next()) b[k->Name()] = k->Value();
  ok &= c.chk(a == b, "content.attributes", "%s", x.tag.c_str());
  std::string text; std::map<std::string, std::vector<const TiXmlElement*>> by;
  for (const TiXmlNode* k = e->FirstChild(); k; k = k->NextSibling()) { if (k->ToText()) text += (text.empty() ? "" : " ") + std::string(k->Value()); else if (k->ToElement() && std::string(k->Value()) != "somethingElse") by[k->Value()].push_back(k->ToElement()); }
  ok &= c.eq(text, x.text, "content.text");
  std::map<std::string, size_t> i;
  for (auto& k : x.c) { auto& v = by[k.tag]; size_t j = i[k.tag]++; if (!c.chk(j < v.size(), "content.child", "%s", k.tag.c_str())) return false; ok &= sameX(c, k, v[j]); }
  for (auto& k : by) ok &= c.eqi(k.second.size(), i[k.first], "content.extra-child");
  return ok;
}
static void text(Ctx& c) {
  NP m = tree(c, 4, ELE); xt::X x = toX(*m);
  std::string s = xt::document(x, &c.rng);
  bool loc = c.rng.chance(.5); int tab = c.rng.chance(.5) ? 4 : c.rng.range(1, 12); bool off = loc && c.rng.chance(.05);
  if (loc) { if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) s = s.substr(3); }
  TiXmlDocument d; if (tab != 4 || off) d.SetTabSize(off ? 0 : tab); c.eqi(d.TabSize(), off ? 0 : tab, "tab-size"); d.Parse(s.c_str(), 0, c.rng.chance(.5) ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_UNKNOWN);
  if (s.compare(0, 3, "\xEF\xBB\xBF") && s.find("encoding=") == std::string::npos) { d.Clear(); d.ClearError(); d.Parse(s.c_str(), 0, TIXML_ENCODING_UTF8); }
  if (!c.chk(!d.Error(), "text-parse", "%s row %d col %d", d.ErrorDesc(), d.ErrorRow(), d.ErrorCol())) { if (c.verbose) fprintf(stderr, "%s\n", s.c_str()); return; }
  const TiXmlElement* e = d.RootElement(); if (!c.chk(e, "text-root")) return;
  sameX(c, x, e); c.ev("texts");
  if (loc) {
    std::vector<std::pair<int, int>> pos; where(s, pos, tab); std::vector<TiXmlElement*> el; collect(&d, el);
    if (c.eqi(el.size(), pos.size(), "element-count"))
      for (size_t i = 0; i < el.size(); ++i) if (off) c.chk(el[i]->Row() <= 1 && el[i]->Column() <= 1, "location-off", "element %zu reported at %d,%d", i, el[i]->Row(), el[i]->Column()); else c.chk(el[i]->Row() == pos[i].first && el[i]->Column() == pos[i].second, "location", "element %zu at %d,%d reported at %d,%d", i, pos[i].first, pos[i].second, el[i]->Row(), el[i]->Column());
    c.ev("locations", el.size());
  }
  c.state(fmt("%zu/%zu/%d", m->count() / 3, s.size() / 64, loc));
}
MON_WORKLOAD_F("P12", "text", text, 3000, 50000, LEAKCHECK)

// documents that are not well formed are reported as such, with a place inside the document
static void broken(Ctx& c) {
  NP m = tree(c, 3, ELE); xt::X x = toX(*m); std::string s; xt::render(s, x, c.rng.chance(.5) ? &c.rng : 0);
  std::string what; size_t p;
  switch (c.rng.range(0, 4)) {
    case 0: p = s.rfind("</"); if (p == std::string::npos) { p = s.rfind("/>"); s = s.substr(0, p); } else s = s.substr(0, c.rng.range(p / 2 + 1, p)); what = "cut"; break;   // cut off before the root is closed
    case 1: p = s.rfind("</"); if (p == std::string::npos) return; s.insert(p + 2, "z"); what = "wrong end tag"; break;
    case 2: p = s.find_first_of(" />\t\n\r", 1); s.insert(p, " attr=\"unterminated"); if (s.find('"', p + 8) != std::string::npos) return; what = "unterminated attribute"; break;
    case 3: s = c.rng.chance(.5) ? "" : " \n\t"; what = "empty"; break;
    case 4: p = s.find_first_of(" />\t\n\r", 1); s.insert(p, " attr "); what = "attribute without value"; break;
  }
  TiXmlDocument d; d.Parse(s.c_str(), 0, TIXML_ENCODING_UTF8);
  if (!c.chk(d.Error(), "not-reported", "%s", what.c_str())) { if (c.verbose) fprintf(stderr, "%s\n", s.c_str()); return; }
  int rows = 1; for (char ch : s) rows += ch == '\n' || ch == '\r';
  c.chk(d.ErrorId() != 0 && d.ErrorDesc() && *d.ErrorDesc(), "error-text", "%s", what.c_str());
  c.chk(d.ErrorRow() <= rows + 1, "error-row", "%d of %d", d.ErrorRow(), rows);
  TiXmlDocument k(d); c.chk(k.Error() && k.ErrorId() == d.ErrorId() && k.ErrorRow() == d.ErrorRow() && k.ErrorCol() == d.ErrorCol() && k.TabSize() == d.TabSize(), "copied-error");
  std::string pth = c.scratch + fmt("/bad_%ld.xml", c.idx); xt::writeFile(pth, s);
  TiXmlDocument f; c.chk(!f.LoadFile(pth), "load-result", "%s", what.c_str()); unlink(pth.c_str());
  c.chk(!f.LoadFile(pth) && f.Error(), "load-missing-file");
  c.ev("broken_documents"); c.state(what + fmt("%zu", s.size() / 16));
}
MON_WORKLOAD_F("P12", "broken", broken, 2000, 30000, LEAKCHECK)

// texts with white space kept or condensed (a global setting of the library)
static void white(Ctx& c) {
  struct Cond { bool old; Cond(bool b) : old(TiXmlBase::IsWhiteSpaceCondensed()) { TiXmlBase::SetCondenseWhiteSpace(b); } ~Cond() { TiXmlBase::SetCondenseWhiteSpace(old); } };
  bool cond = c.rng.chance(.4); Cond g(cond);
  std::string s = "<r>"; std::vector<std::string> want; std::vector<bool> isText; int n = c.rng.range(1, 6);
  for (int i = 0; i < n; ++i) {
    if (c.rng.chance(.6)) {
      std::string t, w; int k = c.rng.range(1, 4); bool any = false;
      for (int j = 0; j < k; ++j) { for (int q = c.rng.range(0, 3); q > 0; --q) t += " \n\t"[c.rng.range(0, 2)]; t += char('a' + c.rng.range(0, 25)); any = true; }
      for (int q = c.rng.range(0, 3); q > 0; --q) t += " \n\t"[c.rng.range(0, 2)];
      if (cond) { for (char ch : t) { bool sp = ch == ' ' || ch == '\n' || ch == '\t'; if (!sp) w += ch; else if (!w.empty() && w.back() != ' ') w += ' '; } while (!w.empty() && w.back() == ' ') w.pop_back(); } else w = t;
      if (any && (isText.empty() || !isText.back())) { s += t; want.push_back(w); isText.push_back(true); continue; }
    }
    s += c.rng.chance(.5) ? "<e/>" : "<e k=\"1\"></e>"; want.push_back("e"); isText.push_back(false);
  }
  s += "</r>";
  TiXmlDocument d; d.Parse(s.c_str(), 0, TIXML_ENCODING_UTF8);
  if (!c.chk(!d.Error() && d.RootElement(), "white-parse", "%s", d.ErrorDesc())) return;
  size_t i = 0; for (TiXmlNode* k = d.RootElement()->FirstChild(); k; k = k->NextSibling(), ++i) { if (!c.chk(i < want.size(), "white-count")) break; c.chk((k->ToText() != 0) == isText[i], "white-kind"); c.eq(k->Value(), want[i], cond ? "white-condensed" : "white-kept"); }
  c.eqi(i, want.size(), "white-count"); c.ev("white_texts"); c.state(fmt("%d/%zu", cond, s.size() / 4) + s.substr(0, 12));
}
MON_WORKLOAD_F("P12", "white", white, 2000, 20000, LEAKCHECK)
