// X01-X04: the XML parser, printer and document tree on their own.
#include "vh.hpp"
#include <algorithm>
#include <fstream>
#include <list>
#include <locale>
#include <dirent.h>
#include <errno.h>
#include <memory>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <tinyfk.hpp>
#include <urdf_parser/urdf_parser.h>
#include <sanitizer/lsan_interface.h>
#include <tinyxml.h>
#include <unistd.h>
using namespace vh;

namespace {
// ------------------------------------------------------------------ model of a document
enum Kind { ELEM, TEXT, CDATA, COMMENT, DECL, UNKN };
struct M {
  Kind kind = ELEM;
  std::string value;                                       // name, text, comment
  std::vector<std::pair<std::string, std::string>> attrs;  // also version, encoding, standalone of a declaration
  std::vector<std::shared_ptr<M>> kids;
  std::string raw;   // how it is spelled (generator of X01)
  size_t off = 0;    // where it begins, in the parent's spelling or in the document
  std::vector<size_t> aoff; // where its attributes begin in its spelling
  TiXmlNode *node = nullptr;
  M *parent = nullptr;
  void *user = nullptr; // user data of the node (X03)
};
using P = std::shared_ptr<M>;

std::string show(const M &m, int depth = 0) {
  std::string s(size_t(depth), ' ');
  static const char *k[] = {"E ", "T ", "CD ", "C ", "D ", "U "};
  s += k[m.kind] + m.value;
  for (auto &a : m.attrs)
    s += " [" + a.first + "]=[" + a.second + "]";
  s += "\n";
  for (auto &c : m.kids)
    s += show(*c, depth + 1);
  return s;
}
std::string printable(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    char b[8];
    if (c < 32 || c == 127) {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else
      o += char(c);
  }
  return o;
}
// The tree as it is, read through the public navigation.
P read_tree(const TiXmlNode *n) {
  P m(new M);
  m->value = n->ValueStr();
  if (auto e = n->ToElement()) {
    m->kind = ELEM;
    for (auto a = e->FirstAttribute(); a; a = a->Next())
      m->attrs.push_back({a->NameTStr(), a->ValueStr()});
  } else if (auto t = n->ToText())
    m->kind = t->CDATA() ? CDATA : TEXT;
  else if (n->ToComment())
    m->kind = COMMENT;
  else if (auto d = n->ToDeclaration()) {
    m->kind = DECL;
    m->value.clear();
    m->attrs = {{"version", d->Version()}, {"encoding", d->Encoding()}, {"standalone", d->Standalone()}};
  } else if (n->ToUnknown())
    m->kind = UNKN;
  for (auto c = n->FirstChild(); c; c = c->NextSibling())
    m->kids.push_back(read_tree(c));
  return m;
}
std::vector<P> read_doc(const TiXmlDocument &d) {
  std::vector<P> r;
  for (auto c = d.FirstChild(); c; c = c->NextSibling())
    r.push_back(read_tree(c));
  return r;
}
std::string show_all(const std::vector<P> &v) {
  std::string s;
  for (auto &p : v)
    s += show(*p);
  return s;
}
std::string first_difference(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b);
  std::string l, r;
  for (int n = 1;; ++n) {
    bool p = bool(std::getline(x, l)), q = bool(std::getline(y, r));
    if (!p && !q)
      return "";
    if (!p)
      l = "(end)";
    if (!q)
      r = "(end)";
    if (l != r)
      return cat("line ", n, ": expected ", printable(l), " found ", printable(r));
  }
}

// ------------------------------------------------------------------ characters and names
std::string utf8(unsigned long c) {
  std::string s;
  if (c < 0x80)
    s += char(c);
  else if (c < 0x800)
    s += char(0xc0 | c >> 6), s += char(0x80 | (c & 63));
  else if (c < 0x10000)
    s += char(0xe0 | c >> 12), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
  else
    s += char(0xf0 | c >> 18), s += char(0x80 | (c >> 12 & 63)), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
  return s;
}
// Characters XML allows, without the ones the parser takes as byte-order marks.
unsigned long pick_char(Rng &g) {
  switch (g.below(12)) {
  case 0: return (unsigned char)"<>&\"'"[g.below(5)];
  case 1: { static const unsigned long c[] = {9, 10, 13, 32}; return c[g.below(4)]; }
  case 2: { static const unsigned long c[] = {0x7e, 0x7f, 0x80, 0xa0, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000, 0xf000, 0xfeef, 0xff00, 0xfffd, 0x10000, 0x1ffff, 0x100000, 0x10ffff}; return c[g.below(19)]; }
  case 3: return 0x80 + g.below(0x780);
  case 4: return g.chance(0.5) ? 0x800 + g.below(0xd000) : 0xe000 + g.below(0x1e00);
  case 5: return 0x10000 + g.below(0x100000);
  case 6: { static const char s[] = "]-[/!?#;x%=()"; return (unsigned char)s[g.below(sizeof s - 1)]; }
  default: return 0x21 + g.below(0x5e);
  }
}
// A length around the sizes buffers have.
size_t long_length(Rng &g) { return (size_t(1) << g.range(5, g.chance(0.9) ? 12 : 16)) + size_t(g.range(-2, 2)); }
const char *const NAMES[] = {"a", "b", "c", "A", "link", "joint", "x-y", "a.b", "_u", "n:s", "xmlish", "a1", "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "aa", "ab"};
std::string pick_name(Rng &g);
// A name that is nearly another one.
std::string near_name(Rng &g, const std::string &o) {
  static const char c[] = "abz019_-.:";
  const std::string x(1, c[g.below(sizeof c - 1)]);
  switch (g.below(6)) {
  case 0: return o + x;
  case 1: return o + "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz";
  case 2: return (unsigned char)o.back() < 128 && o.size() > 1 ? o.substr(0, o.size() - 1) + x : o + x;
  case 3: return (unsigned char)o.back() < 128 && o.size() > 1 ? o.substr(0, o.size() - 1) : x == "-" || x == "." || x == ":" || isdigit((unsigned char)x[0]) ? "a" + o : x + o;
  case 4: {
    std::string n = o;
    for (size_t i = 0; i < n.size(); ++i)
      if (isalpha((unsigned char)n[i]) && g.chance(0.5))
        n[i] = char(n[i] ^ 32);
    return n;
  }
  default: return o + o;
  }
}
// Some name, now and then one that is nearly another.
template <class List> std::string pick_name(Rng &g, const List &others) {
  if (others.empty() || !g.chance(0.2))
    return pick_name(g);
  auto i = others.begin();
  std::advance(i, long(g.below(others.size())));
  return i->size() > 200 ? pick_name(g) : near_name(g, *i);
}
std::string pick_name(Rng &g) {
  if (g.chance(0.85))
    return NAMES[g.below(sizeof NAMES / sizeof *NAMES)];
  if (g.chance(0.02))
    return std::string(long_length(g), 'n');
  if (g.chance(0.2))
    return std::string("the-quick-brown-fox_jumps.over.the.lazy.dog.and-further-on-and-on-and-on-to-the-end-of-it").substr(0, size_t(g.range(6, 85)));
  std::string s(1, "abzAZ_"[g.below(6)]);
  int n = g.range(0, 12);
  static const char c[] = "abcXYZ019_-.:";
  for (int i = 0; i < n; ++i)
    s += c[g.below(sizeof c - 1)];
  return s;
}
// A node of another kind whose text has no references.
std::string plain_text(Rng &g, const char *forbidden, int max = 20, bool cr = false) {
  std::string s;
  if (g.chance(0.003))
    s.assign(long_length(g), 'c');
  int n = g.range(0, max);
  for (int i = 0; i < n; ++i) {
    if (g.chance(0.05)) { // delimiters of other places
      static const char *const bits[] = {"]>", "</a>", "<!--", "-->", "]]", "<a>", "/>", "<![CDATA[", "?>", "--", "'>", "\">", "<?xml", "&lt;", "<a b='", "</"};
      std::string b = bits[g.below(16)];
      if (b.find_first_of(forbidden) == std::string::npos)
        s += b;
      continue;
    }
    unsigned long c = pick_char(g);
    if ((c == 13 && !cr) || (c < 128 && strchr(forbidden, int(c))))
      continue;
    s += utf8(c);
  }
  return s;
}

// ------------------------------------------------------------------ X01: spelled documents
struct Spell {
  Rng *g;
  bool utf8 = true;      // the parser will take the document as UTF-8
  bool condense = true;
  bool file = false;     // line ends are normalised while loading
  bool crlf = true;      // carriage returns may appear as line ends
  std::string ws(bool need) {
    std::string s;
    int n = g->chance(0.6) ? 0 : g->range(1, 4);
    if (need && !n)
      n = 1;
    for (int i = 0; i < n; ++i) {
      int k = int(g->below(crlf ? 5 : 3));
      s += k == 0 ? "\n" : k == 1 ? "\t" : k == 2 ? " " : k == 3 ? "\r\n" : "\r";
    }
    return s;
  }
  std::string ref(unsigned long c) {
    char b[40];
    if (c < 128 && strchr("<>&\"'", int(c)) && g->chance(0.5))
      return c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : "&apos;";
    int zeros = g->chance(0.3) ? g->range(1, 9) : 0;
    const char *f = g->chance(0.5) ? "&#%0*lu;" : g->chance(0.5) ? "&#x%0*lx;" : "&#x%0*lX;";
    snprintf(b, sizeof b, f, zeros, c);
    return b;
  }
  bool may_ref(unsigned long c) const { return utf8 || c < 128; }
};
std::string norm(const std::string &s) { // line ends as LoadFile normalises them
  std::string o;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '\r') {
      o += '\n';
      if (i + 1 < s.size() && s[i + 1] == '\n')
        ++i;
    } else
      o += s[i];
  return o;
}
bool is_ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
bool blank(const std::string &s) {
  for (char c : s)
    if (!is_ws(c))
      return false;
  return true;
}

const char *const AFTER_AMP[] = {"lt;", "gt;", "amp;", "quot;", "apos;", "#65;", "#x41;", "#38;", "amp;lt;", "#38;#60;", "lt", "#", ";"};
// Text between two pieces of markup: how it is spelled and what it means.
void make_text(Spell &sp, std::string &raw, std::string &value) {
  Rng &g = *sp.g;
  do {
    raw.clear();
    value.clear();
    std::string pending;   // white space not yet known to be inside
    bool any = false;
    int n = g.range(1, 14);
    bool bracket = false;
    if (g.chance(0.003)) {
      raw.assign(long_length(g), 't');
      value = raw;
      any = true;
    }
    for (int i = 0; i < n; ++i) {
      if (g.chance(0.25)) {
        std::string w = sp.ws(true);
        raw += w;
        pending += sp.file ? norm(w) : w;
        bracket = false;
        continue;
      }
      unsigned long c = pick_char(g);
      if (g.chance(0.03)) { // what looks like a reference once the ampersand is decoded
        const char *b = AFTER_AMP[g.below(sizeof AFTER_AMP / sizeof *AFTER_AMP)];
        if (!pending.empty() && (any || !sp.condense))
          value += sp.condense ? " " : pending;
        pending.clear();
        any = true;
        bracket = false;
        raw += sp.ref('&') + b;
        value += std::string("&") + b;
        continue;
      }
      bool must = c == '<' || c == '&' || c == 9 || c == 10 || c == 13 || c == 32 || (c == '>' && bracket);
      std::string t;
      if (must || (sp.may_ref(c) && g.chance(0.2)))
        t = sp.ref(c);
      else
        t = utf8(c);
      bracket = t == "]";
      if (sp.condense) {
        if (!pending.empty() && any)
          value += ' ';
      } else
        value += pending;
      pending.clear();
      any = true;
      raw += t;
      value += utf8(c);
    }
    if (!sp.condense)
      value += pending;
    // CR LF that came together from two pieces would count as one line end
  } while (blank(value) || (sp.file && norm(raw) != raw && raw.find('\r') != std::string::npos && !sp.condense));
}
std::string make_attr_value(Spell &sp, std::string &value, char q) {
  Rng &g = *sp.g;
  std::string raw;
  value.clear();
  int n = g.range(0, 10);
  if (g.chance(0.003)) {
    raw.assign(long_length(g), 'v');
    value = raw;
  }
  for (int i = 0; i < n; ++i) {
    if (g.chance(0.05)) {
      static const char *const bits[] = {">", "/>", "-->", "]]>", "?>", "]>", "/"};
      const char *b = bits[g.below(7)];
      raw += b;
      value += b;
      continue;
    }
    if (g.chance(0.03)) {
      const char *b = AFTER_AMP[g.below(sizeof AFTER_AMP / sizeof *AFTER_AMP)];
      raw += sp.ref('&') + b;
      value += std::string("&") + b;
      continue;
    }
    unsigned long c = g.chance(0.1) ? 32 : pick_char(g);
    bool must = c == '<' || c == '&' || c == (unsigned char)q || c == 9 || c == 10 || c == 13;
    raw += must || (sp.may_ref(c) && g.chance(0.2)) ? sp.ref(c) : utf8(c);
    value += utf8(c);
  }
  return raw;
}
P make_element(Spell &sp, int depth, int &budget) {
  Rng &g = *sp.g;
  P m(new M);
  m->kind = ELEM;
  m->value = pick_name(g);
  int na = g.chance(0.5) ? 0 : g.range(1, 5);
  std::set<std::string> used;
  std::string tag = "<" + m->value;
  for (int i = 0; i < na; ++i) {
    std::string n = pick_name(g, used);
    if (!used.insert(n).second)
      continue;
    std::string v;
    char q = g.chance(0.5) ? '"' : '\'';
    std::string r = make_attr_value(sp, v, q);
    tag += sp.ws(true);
    m->aoff.push_back(tag.size());
    tag += n + sp.ws(false) + "=" + sp.ws(false) + q + r + q;
    m->attrs.push_back({n, v});
  }
  tag += sp.ws(false);
  std::string body;
  int nk = depth > 6 ? 0 : g.chance(0.3) ? 0 : g.range(1, 5);
  bool text_before = false;
  bool empty_element = true;
  for (int i = 0; i < nk && budget > 0; ++i) {
    --budget;
    empty_element = false;
    int k = int(g.below(10));
    P c(new M);
    if (k < 3 && !text_before) {
      c->kind = TEXT;
      make_text(sp, c->raw, c->value);
      c->off = tag.size() + 1 + body.size();
      for (size_t j = 0; sp.condense && is_ws(c->raw[j]); ++j)
        ++c->off;
      body += c->raw;
      m->kids.push_back(c);
      text_before = true;
      continue;
    }
    if (!text_before)
      body += sp.ws(false);
    text_before = false;
    size_t at_body = body.size();
    if (k < 4) {
      c->kind = CDATA;
      c->value = plain_text(g, "", 20, !sp.file);
      size_t at;
      while ((at = c->value.find("]]>")) != std::string::npos)
        c->value.erase(at, 1);
      body += "<![CDATA[" + c->value + "]]>";
    } else if (k < 5) {
      c->kind = COMMENT;
      c->value = plain_text(g, "-", 20, !sp.file);
      if (g.chance(0.3))
        c->value += "-x";
      body += "<!--" + c->value + "-->";
    } else {
      c = make_element(sp, depth + 1, budget);
      body += c->raw;
    }
    c->off = tag.size() + 1 + at_body;
    m->kids.push_back(c);
  }
  if (!text_before)
    body += sp.ws(false);
  if (body.empty() && empty_element && g.chance(0.5))
    m->raw = tag + "/>";
  else
    m->raw = tag + ">" + body + "</" + m->value + sp.ws(false) + ">";
  return m;
}
struct Doc {
  std::string text;
  std::vector<P> nodes;
  size_t root_begin = 0, root_end = 0; // extent of the root element in the text
  P root;
  bool bom = false;
};
Doc make_doc(Spell &sp, int mode /*0 bare, 1 argument says UTF-8, 2 declaration, 3 byte-order mark*/) {
  Rng &g = *sp.g;
  Doc d;
  if (mode == 3) {
    d.text = "\xef\xbb\xbf";
    d.bom = true;
  }
  if (mode == 2 || (mode == 1 && g.chance(0.3)) || (mode == 3 && g.chance(0.3))) {
    P c(new M);
    c->kind = DECL;
    std::string enc = g.chance(0.4) ? "" : g.chance(0.5) ? "UTF-8" : "utf-8", sa = g.chance(0.7) ? "" : g.chance(0.5) ? "yes" : "no";
    char q = g.chance(0.5) ? '"' : '\'';
    c->off = d.text.size();
    d.text += "<?xml" + sp.ws(true) + "version=" + q + "1.0" + q;
    if (!enc.empty())
      d.text += sp.ws(true) + "encoding" + sp.ws(false) + "=" + sp.ws(false) + q + enc + q;
    if (!sa.empty())
      d.text += sp.ws(true) + "standalone=" + q + sa + q;
    d.text += sp.ws(false) + "?>";
    c->attrs = {{"version", "1.0"}, {"encoding", enc}, {"standalone", sa}};
    d.nodes.push_back(c);
  }
  auto misc = [&]() {
    d.text += sp.ws(false);
    while (g.chance(0.25)) {
      P c(new M);
      c->kind = COMMENT;
      c->value = plain_text(g, "-", 20, !sp.file);
      c->off = d.text.size();
      d.text += "<!--" + c->value + "-->" + sp.ws(false);
      d.nodes.push_back(c);
    }
  };
  misc();
  if (g.chance(0.1)) {
    P c(new M);
    c->kind = UNKN;
    c->value = "!DOCTYPE" + sp.ws(true) + pick_name(g) + (g.chance(0.5) ? "" : g.chance(0.5) ? " SYSTEM 'r.dtd'" : " PUBLIC \"-//R//D it's\" \"r.dtd\"") + sp.ws(false);
    c->off = d.text.size();
    d.text += "<" + c->value + ">";
    if (sp.file)
      c->value = norm(c->value);
    d.nodes.push_back(c);
    misc();
  }
  int budget = g.chance(0.1) ? 200 : g.range(1, 25);
  d.root = make_element(sp, 0, budget);
  d.root_begin = d.root->off = d.text.size();
  d.text += d.root->raw;
  d.root_end = d.text.size();
  d.nodes.push_back(d.root);
  misc();
  return d;
}
void spit(const std::string &f, const std::string &s) {
  std::ofstream o(f, std::ios::binary);
  o << s;
}
std::string slurp(const std::string &f) {
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
long count_nodes(const M &m) {
  long n = 1;
  for (auto &c : m.kids)
    n += count_nodes(*c);
  return n;
}
struct Condense {
  explicit Condense(bool on) { TiXmlBase::SetCondenseWhiteSpace(on); }
  ~Condense() { TiXmlBase::SetCondenseWhiteSpace(true); }
};

// Lookups by name in a parsed document: the first, last, next and previous of exactly that name.
void look_up(Ctx &c, Rng &g, const TiXmlNode &n) {
  const TiXmlElement *e = n.ToElement();
  if (e && e->FirstAttribute()) {
    std::vector<std::pair<std::string, std::string>> at;
    std::set<std::string> names;
    for (auto a = e->FirstAttribute(); a; a = a->Next())
      at.push_back({a->NameTStr(), a->ValueStr()}), names.insert(a->NameTStr());
    for (auto &a : at) {
      std::string who = "attribute " + printable(a.first) + " of " + printable(e->ValueStr());
      const char *v = e->Attribute(a.first.c_str());
      const std::string *w = e->Attribute(a.first);
      std::string q, r;
      c.check(v && w && !strcmp(v, a.second.c_str()) && *w == a.second, "attribute-lookup", who + " is not found by its name");
      c.check(e->QueryStringAttribute(a.first.c_str(), &q) == TIXML_SUCCESS && q == a.second.c_str() && e->QueryValueAttribute(a.first, &r) == TIXML_SUCCESS && r == a.second, "attribute-lookup", who + " is not found by a query");
      std::string o = near_name(g, a.first);
      if (!names.count(o))
        c.check(!e->Attribute(o.c_str()) && !e->Attribute(o) && e->QueryStringAttribute(o.c_str(), &q) == TIXML_NO_ATTRIBUTE, "attribute-lookup", "attribute " + printable(o) + " is found, which is not there; there is the " + who);
      c.count("attributes_looked_up");
    }
  }
  std::vector<const TiXmlNode *> kids;
  std::set<std::string> names;
  for (auto k = n.FirstChild(); k; k = k->NextSibling())
    kids.push_back(k), names.insert(k->ValueStr());
  size_t all = kids.size();
  for (size_t t = 0; t < std::min<size_t>(all, 4); ++t) {
    std::string v = kids[g.below(all)]->ValueStr();
    if (g.chance(0.25) && v.size() && v.size() < 200)
      v = near_name(g, v);
    if (v.find('\0') != std::string::npos)
      continue;
    std::vector<size_t> is;
    for (size_t i = 0; i < all; ++i)
      if (kids[i]->ValueStr() == v)
        is.push_back(i);
    auto elem = [&](size_t from) -> const TiXmlElement * {
      for (size_t i : is)
        if (i >= from && kids[i]->ToElement())
          return kids[i]->ToElement();
      return nullptr;
    };
    std::string who = "children called " + printable(v) + " of " + printable(n.ValueStr());
    const TiXmlNode *first = is.empty() ? nullptr : kids[is[0]], *last = is.empty() ? nullptr : kids[is.back()];
    c.check(n.FirstChild(v.c_str()) == first && n.FirstChild(v) == first, "child-lookup", who + ": not the first one is found");
    c.check(n.LastChild(v.c_str()) == last && n.LastChild(v) == last, "child-lookup", who + ": not the last one is found");
    c.check(n.FirstChildElement(v.c_str()) == elem(0) && n.FirstChildElement(v) == elem(0), "child-lookup", who + ": not the first element is found");
    size_t from = g.below(all);
    const TiXmlNode *next = nullptr, *prev = nullptr;
    for (size_t i : is) {
      if (i > from && !next)
        next = kids[i];
      if (i < from)
        prev = kids[i];
    }
    c.check(kids[from]->NextSibling(v.c_str()) == next && kids[from]->NextSibling(v) == next, "child-lookup", who + ": not the next one is found");
    c.check(kids[from]->PreviousSibling(v.c_str()) == prev && kids[from]->PreviousSibling(v) == prev, "child-lookup", who + ": not the previous one is found");
    c.check(kids[from]->NextSiblingElement(v.c_str()) == elem(from + 1) && kids[from]->NextSiblingElement(v) == elem(from + 1), "child-lookup", who + ": not the next element is found");
    c.count("children_looked_up");
  }
  for (auto k : kids)
    look_up(c, g, *k);
}
void x01(Ctx &c) {
  Rng g(c.case_seed);
  Spell sp;
  sp.g = &g;
  int mode = int(g.below(4));
  sp.utf8 = mode != 0;
  sp.condense = g.chance(0.7);
  sp.file = g.chance(0.3);
  Condense w(sp.condense);
  Doc d = make_doc(sp, mode);
  TiXmlDocument doc;
  if (g.chance(0.2))
    doc.SetTabSize(g.range(0, 8));
  TiXmlEncoding enc = mode == 1 ? TIXML_ENCODING_UTF8 : mode == 0 && g.chance(0.2) ? TIXML_ENCODING_LEGACY : TIXML_ENCODING_UNKNOWN;
  c.log(d.text);
  bool ok = true;
  if (sp.file) {
    std::string f = c.scratch + "/x01.xml";
    spit(f, d.text);
    ok = doc.LoadFile(f, enc);
  } else
    doc.Parse(d.text.c_str(), 0, enc);
  c.check(ok && !doc.Error(), "well-formed-rejected", cat("error ", doc.ErrorDesc(), " at ", doc.ErrorRow(), ":", doc.ErrorCol(), " for ", printable(d.text)));
  std::string want = show_all(d.nodes), got = show_all(read_doc(doc));
  c.check(want == got, "content", first_difference(want, got) + " in " + printable(d.text));
  c.check(doc.RootElement() && doc.RootElement()->ValueStr() == d.root->value, "root-element", "wrong root element");
  if (g.chance(0.5))
    look_up(c, g, doc);
  long n = 0;
  for (auto &p : d.nodes)
    n += count_nodes(*p);
  c.evaluations += n;
  c.count("nodes_compared", n);
  c.count(cat("encoding_mode_", mode));
  c.count(sp.condense ? "condensed" : "white_space_kept");
  c.count(sp.file ? "from_file" : "from_text");
  c.maxi("nodes_in_document", n);
  c.nontrivial(hash_str(d.text));
  c.sample(printable(d.text));
  if (g.chance(0.2)) { // any mixture of line ends: loading is parsing with each of them as one LF
    std::string t = d.text;
    for (int i = g.range(1, 12); i > 0; --i) {
      static const char *const e[] = {"\r", "\n", "\r\n", "\r\r\n", "\n\r", "\r\r", "\r\n\r\n", "\r\n\n", "\n\n"};
      size_t at = g.below(t.size() + 1);
      if (g.chance(0.8)) { // where it does not break the markup
        size_t q = t.find_first_of(g.chance(0.5) ? ">[" : " \r\n>-", at);
        if (q != std::string::npos)
          at = q + 1;
      }
      t.insert(at, e[g.below(9)]);
    }
    c.log("---- with line ends\n" + t);
    std::string f = c.scratch + "/x01l.xml";
    spit(f, t);
    TiXmlDocument a, b(f);
    bool ok = true;
    int how = int(g.below(4));
    if (how == 0)
      ok = b.LoadFile(enc);
    else if (how == 1)
      ok = b.LoadFile(f.c_str(), enc);
    else if (how == 2)
      ok = b.LoadFile(f, enc);
    else {
      FILE *fp = fopen(f.c_str(), "rb");
      ok = b.LoadFile(fp, enc);
      fclose(fp);
    }
    a.Parse(norm(t).c_str(), 0, enc);
    c.check(ok == !b.Error() && a.Error() == b.Error() && a.ErrorId() == b.ErrorId() && a.ErrorRow() == b.ErrorRow() && a.ErrorCol() == b.ErrorCol(), "file-line-ends",
            cat("loading gives error ", b.ErrorId(), " at ", b.ErrorRow(), ":", b.ErrorCol(), ", parsing the text with LF line ends ", a.ErrorId(), " at ", a.ErrorRow(), ":", a.ErrorCol(), " for ", printable(t)));
    want = show_all(read_doc(a)), got = show_all(read_doc(b));
    c.check(want == got, "file-line-ends", first_difference(want, got) + " in " + printable(t));
    c.count(a.Error() ? "line_end_mixtures_rejected" : "line_end_mixtures");
  }
}

// ------------------------------------------------------------------ documents built through the node interface
std::string any_value(Rng &g, int max) {
  std::string s;
  if (g.chance(0.003))
    s.assign(long_length(g), 'v');
  int n = g.range(0, max);
  for (int i = 0; i < n; ++i) {
    if (g.chance(0.06)) {
      static const char *w[] = {"&amp;", "&lt;", "]]>", "<!--", "-->", "</a>", "&#65;", "&", "&#", "&;", "'\"", "<?xml", "/>", "&quot", "&apos;"};
      s += w[g.below(15)];
    } else
      s += utf8(pick_char(g));
  }
  size_t at;
  while ((at = s.find("&#x")) != std::string::npos) // passed through when printing
    s.erase(at, 1);
  return s;
}
std::string any_text(Rng &g) {
  for (;;) {
    std::string s = any_value(g, 16), t;
    // spaces at the ends and in a row do not survive condensing
    for (char ch : s)
      if (!(ch == ' ' && (t.empty() || t.back() == ' ')))
        t += ch;
    while (!t.empty() && t.back() == ' ')
      t.pop_back();
    if (!blank(t) && t.find("&#x") == std::string::npos)
      return t;
  }
}
P build_random(Rng &g, int depth, int &budget) {
  P m(new M);
  m->value = pick_name(g);
  int na = g.chance(0.4) ? 0 : g.range(1, 5);
  std::set<std::string> used;
  for (int i = 0; i < na; ++i) {
    std::string n = pick_name(g, used);
    if (used.insert(n).second)
      m->attrs.push_back({n, any_value(g, 12)});
  }
  int nk = depth > 7 ? 0 : g.chance(0.3) ? 0 : g.range(1, 5);
  for (int i = 0; i < nk && budget > 0; ++i) {
    --budget;
    P c(new M);
    int k = int(g.below(11));
    if (k < 3) {
      if (!m->kids.empty() && m->kids.back()->kind == TEXT)
        continue;
      c->kind = TEXT;
      c->value = any_text(g);
    } else if (k < 4) {
      c->kind = CDATA;
      c->value = plain_text(g, ">", 20);
    } else if (k < 5) {
      c->kind = COMMENT;
      c->value = plain_text(g, "-", 20);
    } else if (k < 6) {
      c->kind = UNKN;
      c->value = (g.chance(0.5) ? "!DOCTYPE" : "?target") + plain_text(g, ">", 10);
    } else
      c = build_random(g, depth + 1, budget);
    m->kids.push_back(c);
  }
  return m;
}
TiXmlNode *build(const M &m, Rng &g) {
  switch (m.kind) {
  case TEXT:
  case CDATA: {
    auto t = new TiXmlText(m.value);
    t->SetCDATA(m.kind == CDATA);
    return t;
  }
  case COMMENT: return new TiXmlComment(m.value.c_str());
  case DECL: return new TiXmlDeclaration(m.attrs[0].second, m.attrs[1].second, m.attrs[2].second);
  case UNKN: {
    auto u = new TiXmlUnknown;
    u->SetValue(m.value);
    return u;
  }
  default: break;
  }
  auto e = new TiXmlElement(m.value);
  for (auto &a : m.attrs)
    if (g.chance(0.5))
      e->SetAttribute(a.first, a.second);
    else
      e->SetAttribute(a.first.c_str(), a.second.c_str());
  for (auto &k : m.kids) {
    TiXmlNode *n = build(*k, g);
    if (g.chance(0.7))
      e->LinkEndChild(n);
    else {
      e->InsertEndChild(*n);
      delete n;
    }
  }
  return e;
}
std::string printed(const TiXmlNode &n, const char *indent, const char *brk, bool stream) {
  TiXmlPrinter p;
  if (stream)
    p.SetStreamPrinting();
  else {
    p.SetIndent(indent);
    p.SetLineBreak(brk);
  }
  if (std::string(p.Indent()) != (stream ? "" : indent) || std::string(p.LineBreak()) != (stream ? "" : brk))
    throw std::runtime_error("the printer's settings read differently");
  n.Accept(&p);
  if (p.Size() != p.Str().size() || p.Str() != std::string(p.CStr(), p.Size()))
    throw std::runtime_error("the printer's text and its size disagree");
  return p.Str();
}
void x02(Ctx &c) {
  Rng g(c.case_seed);
  std::vector<P> want;
  if (g.chance(0.4)) {
    P d(new M);
    d->kind = DECL;
    d->attrs = {{"version", "1.0"}, {"encoding", g.chance(0.5) ? "" : "UTF-8"}, {"standalone", g.chance(0.5) ? "" : g.chance(0.5) ? "no" : "yes"}};
    want.push_back(d);
  }
  auto misc = [&]() {
    while (g.chance(0.2)) {
      P m(new M);
      m->kind = g.chance(0.7) ? COMMENT : UNKN;
      m->value = (m->kind == UNKN ? "!DOCTYPE " : "") + plain_text(g, m->kind == UNKN ? ">" : "-", 12);
      want.push_back(m);
    }
  };
  misc();
  int budget = g.chance(0.1) ? 200 : g.range(0, 25);
  P top = build_random(g, 0, budget);
  if (g.chance(0.03)) { // deep, with names of all lengths on the way down
    int depth = g.chance(0.8) ? g.range(10, 120) : g.range(120, 900);
    for (int i = 0; i < depth; ++i) {
      P o(new M);
      o->value = g.chance(0.2) ? std::string(size_t(g.range(1, 300)), 'd') : pick_name(g);
      if (g.chance(0.2))
        o->attrs.push_back({"a", any_value(g, 5)});
      if (depth < 200 && g.chance(0.1)) {
        P t(new M);
        t->kind = TEXT;
        t->value = any_text(g);
        o->kids.push_back(t);
      }
      o->kids.push_back(top);
      top = o;
    }
    c.count("deep_documents");
  }
  want.push_back(top);
  misc();
  TiXmlDocument doc;
  for (auto &m : want)
    doc.LinkEndChild(build(*m, g));
  std::string expect = show_all(want);
  c.log(expect);
  c.check(show_all(read_doc(doc)) == expect, "built-document", first_difference(expect, show_all(read_doc(doc))));
  std::vector<std::string> spaces = {"    ", "", "\t", " \t "}, lines = {"\n", "\r\n", " ", "\n\n"};
  long n = 0;
  for (auto &p : want)
    n += count_nodes(*p);
  struct Way {
    std::string name, text;
  };
  std::vector<Way> ways;
  ways.push_back({"printer", printed(doc, g.pick(spaces).c_str(), g.pick(lines).c_str(), false)});
  ways.push_back({"printer_stream", printed(doc, "", "", true)});
  {
    std::ostringstream o;
    o << doc;
    ways.push_back({"ostream", o.str()});
    c.check(o.str() == ways[1].text, "stream-forms-differ", "operator<< and the stream printer disagree");
  }
  {
    std::string s;
    s << doc;
    ways.push_back({"string", s});
  }
  std::string file = c.scratch + "/x02.xml";
  bool saved = doc.SaveFile(file);
  c.check(saved, "save-failed", "SaveFile failed");
  ways.push_back({"file", slurp(file)});
  for (auto &wy : ways) {
    TiXmlDocument again;
    TiXmlEncoding enc = g.chance(0.5) ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_UNKNOWN;
    if (wy.name == "file" && g.chance(0.5))
      again.LoadFile(file, enc);
    else
      again.Parse(wy.text.c_str(), 0, enc);
    c.log("---- " + wy.name + "\n" + wy.text);
    c.check(!again.Error(), "printed-not-parsed", cat(wy.name, ": ", again.ErrorDesc(), " at ", again.ErrorRow(), ":", again.ErrorCol(), " in ", printable(wy.text)));
    std::string got = show_all(read_doc(again));
    c.check(got == expect, "round-trip", wy.name + ": " + first_difference(expect, got) + " in " + printable(wy.text));
    // and printing it again gives the same text
    std::string p1 = printed(doc, "  ", "\n", false), p2 = printed(again, "  ", "\n", false);
    c.check(p1 == p2, "print-again", wy.name + ": " + first_difference(p1, p2));
    std::string f2 = c.scratch + "/x02b.xml";
    FILE *fp = fopen(f2.c_str(), "w");
    again.Print(fp, 0);
    fclose(fp);
    c.check(slurp(f2) == slurp(file), "print-again", wy.name + ": printing the parsed document to a file gives another text");
    c.evaluations += n;
    c.count("printed_" + wy.name);
  }
  c.maxi("nodes_in_document", n);
  c.nontrivial(hash_str(expect));
  c.sample(printable(ways[1].text));
}

// ------------------------------------------------------------------ X03: edits
long g_made = 0, g_died = 0;
struct CElem : TiXmlElement {
  explicit CElem(const std::string &n) : TiXmlElement(n) { ++g_made; }
  ~CElem() { ++g_died; }
};
struct CText : TiXmlText {
  explicit CText(const std::string &n) : TiXmlText(n) { ++g_made; }
  ~CText() { ++g_died; }
};
struct CComment : TiXmlComment {
  explicit CComment(const std::string &n) : TiXmlComment(n.c_str()) { ++g_made; }
  ~CComment() { ++g_died; }
};
struct Counted { // which of our own nodes are still alive, by address
  std::set<const TiXmlNode *> live;
};
std::string small_value(Rng &g) {
  static const char *v[] = {"", "1", "-7", "2.5", "x", "true", "no", "a b", "1e3", "0", "007", "12abc", "<&>", "2147483647", "yes", "FALSE", "value", " 5", "010", "0x10", "-010", "+5", "08", "00", "-0", "  -12", "\t7", ".5", "1.5e-3abc", "-x", "Yes", "tRuE", "nO", "truex", "1 ", "-2147483648"};
  return v[g.below(sizeof v / sizeof *v)];
}
const char *const ATTR[] = {"p", "q", "r", "s", "pp"};
const char *const VAL[] = {"a", "b", "c", "aa"};

struct Tree {
  std::unique_ptr<TiXmlDocument> doc;
  P root; // stands for the document
};
P clone_model(const M &m) {
  P r(new M(m));
  r->node = nullptr;
  r->parent = nullptr;
  r->kids.clear();
  for (auto &k : m.kids) {
    P c = clone_model(*k);
    c->parent = r.get();
    r->kids.push_back(c);
  }
  return r;
}
void bind(M &m, TiXmlNode *n) {
  m.node = n;
  TiXmlNode *k = n->FirstChild();
  for (auto &c : m.kids) {
    if (!k)
      return;
    bind(*c, k);
    k = k->NextSibling();
  }
}
void all_nodes(M &m, std::vector<M *> &out) {
  out.push_back(&m);
  for (auto &k : m.kids)
    all_nodes(*k, out);
}
struct Collect : TiXmlVisitor {
  std::string s;
  bool VisitEnter(const TiXmlDocument &) override { s += "D("; return true; }
  bool VisitExit(const TiXmlDocument &) override { s += ")"; return true; }
  bool VisitEnter(const TiXmlElement &e, const TiXmlAttribute *a) override {
    s += "E" + e.ValueStr();
    for (; a; a = a->Next())
      s += std::string("@") + a->Name() + "=" + a->Value();
    s += "(";
    return true;
  }
  bool VisitExit(const TiXmlElement &) override { s += ")"; return true; }
  bool Visit(const TiXmlDeclaration &d) override { s += std::string("X") + d.Version() + ";"; return true; }
  bool Visit(const TiXmlText &t) override { s += (t.CDATA() ? "Q" : "T") + t.ValueStr() + ";"; return true; }
  bool Visit(const TiXmlComment &t) override { s += "C" + t.ValueStr() + ";"; return true; }
  bool Visit(const TiXmlUnknown &t) override { s += "U" + t.ValueStr() + ";"; return true; }
};
std::string visit_model(const M &m, bool top) {
  std::string s;
  switch (m.kind) {
  case TEXT: return "T" + m.value + ";";
  case CDATA: return "Q" + m.value + ";";
  case COMMENT: return "C" + m.value + ";";
  case UNKN: return "U" + m.value + ";";
  case DECL: return "X" + m.attrs[0].second + ";";
  default: break;
  }
  if (top)
    s = "D(";
  else {
    s = "E" + m.value;
    for (auto &a : m.attrs)
      s += "@" + a.first + "=" + a.second;
    s += "(";
  }
  for (auto &k : m.kids)
    s += visit_model(*k, false);
  return s + ")";
}
// A visitor that stops at some nodes: their children and further siblings are not visited.
struct Picky : TiXmlVisitor {
  std::set<const TiXmlNode *> stop, leave; // at once, when leaving
  typedef std::vector<std::pair<const TiXmlNode *, bool>> Calls; // entering or leaving which node
  Calls seen;
  bool in(const TiXmlNode &n) { seen.push_back({&n, true}); return !stop.count(&n); }
  bool out(const TiXmlNode &n) { seen.push_back({&n, false}); return !stop.count(&n) && !leave.count(&n); }
  bool VisitEnter(const TiXmlDocument &d) override { return in(d); }
  bool VisitExit(const TiXmlDocument &d) override { return out(d); }
  bool VisitEnter(const TiXmlElement &e, const TiXmlAttribute *) override { return in(e); }
  bool VisitExit(const TiXmlElement &e) override { return out(e); }
  bool Visit(const TiXmlDeclaration &n) override { return in(n); }
  bool Visit(const TiXmlText &n) override { return in(n); }
  bool Visit(const TiXmlComment &n) override { return in(n); }
  bool Visit(const TiXmlUnknown &n) override { return in(n); }
  // every element (and the document) that was entered is left, also if it does not want its children to be visited
  bool expect(const M &m, Calls &want) const {
    want.push_back({m.node, true});
    bool holds = m.kind == ELEM; // the document counts as one
    if (!stop.count(m.node))
      for (auto &k : m.kids)
        if (!expect(*k, want))
          break;
    if (holds)
      want.push_back({m.node, false});
    return !stop.count(m.node) && !(holds && leave.count(m.node));
  }
};
// The node agrees with its model, in all links and by-name lookups.
void check_node(Ctx &c, const M &m, const TiXmlNode *n, const TiXmlNode *parent, const TiXmlDocument *doc, bool top) {
  auto bad = [&](const std::string &w) { c.fail("tree", w + " at node " + m.value); };
  ++c.evaluations;
  if (m.node && m.node != n)
    bad("the node is another one");
  if (n->GetUserData() != m.user)
    bad("user data differ");
  if (n->Parent() != parent)
    bad("wrong parent");
  if (n->GetDocument() != doc)
    bad("wrong document");
  if (n->NoChildren() != m.kids.empty())
    bad("NoChildren is wrong");
  if (!top) {
    P r = read_tree(n);
    if (r->kind != m.kind || r->attrs != m.attrs || (m.kind != DECL && r->value != m.value))
      bad(cat("content differs: expected ", printable(show(m)), " found ", printable(show(*r))));
  }
  { // the kind of the node, and nothing but it
    int t = n->Type();
    if (!top && t != (m.kind == ELEM ? TiXmlNode::TINYXML_ELEMENT : m.kind == DECL ? TiXmlNode::TINYXML_DECLARATION : m.kind == COMMENT ? TiXmlNode::TINYXML_COMMENT : m.kind == UNKN ? TiXmlNode::TINYXML_UNKNOWN : TiXmlNode::TINYXML_TEXT))
      bad(cat("the type is ", t));
    TiXmlNode *w = const_cast<TiXmlNode *>(n);
    TiXmlHandle h(w);
    auto same = [&](int k, const void *a, const void *b) { return (t == k) == (a != nullptr) && a == b; };
    if (!same(TiXmlNode::TINYXML_DOCUMENT, n->ToDocument(), w->ToDocument()) || !same(TiXmlNode::TINYXML_ELEMENT, n->ToElement(), w->ToElement()) || !same(TiXmlNode::TINYXML_COMMENT, n->ToComment(), w->ToComment()) ||
        !same(TiXmlNode::TINYXML_UNKNOWN, n->ToUnknown(), w->ToUnknown()) || !same(TiXmlNode::TINYXML_TEXT, n->ToText(), w->ToText()) || !same(TiXmlNode::TINYXML_DECLARATION, n->ToDeclaration(), w->ToDeclaration()))
      bad("conversion to a kind of node");
    if (h.ToNode() != n || h.ToElement() != n->ToElement() || h.ToText() != n->ToText() || h.ToUnknown() != n->ToUnknown() || h.Node() != n || h.Element() != n->ToElement() || h.Text() != n->ToText() || h.Unknown() != n->ToUnknown())
      bad("conversion of a handle");
    TiXmlHandle none(nullptr), copy(none);
    if (none.ToNode() || none.ToElement() || none.ToText() || none.ToUnknown() || none.FirstChild().ToNode() || none.FirstChildElement().ToNode() || none.Child(0).ToNode() || none.ChildElement(0).ToNode() || none.FirstChild("a").Child("b", 0).ChildElement("c", 1).ToNode())
      bad("a handle to nothing leads somewhere");
    copy = h;
    if (copy.ToNode() != n || strcmp(n->Value(), n->ValueStr().c_str()) || n->ValueTStr() != n->ValueStr())
      bad("handles or values disagree");
  }
  std::vector<const TiXmlNode *> fwd, bwd;
  for (auto k = n->FirstChild(); k && fwd.size() <= m.kids.size() + 2; k = k->NextSibling())
    fwd.push_back(k);
  for (auto k = n->LastChild(); k && bwd.size() <= m.kids.size() + 2; k = k->PreviousSibling())
    bwd.push_back(k);
  std::reverse(bwd.begin(), bwd.end());
  if (fwd != bwd)
    bad("forward and backward sibling order differ");
  if (fwd.size() != m.kids.size())
    bad(cat("number of children ", fwd.size(), " expected ", m.kids.size()));
  std::vector<const TiXmlNode *> it;
  for (const TiXmlNode *k = 0; (k = n->IterateChildren(k)) && it.size() <= fwd.size();)
    it.push_back(k);
  if (it != fwd)
    bad("IterateChildren gives another order");
  // by-name navigation from the model
  for (const char *v : VAL) {
    std::vector<const TiXmlNode *> named, elems, all_elems;
    for (size_t i = 0; i < fwd.size(); ++i) {
      // the value of a declaration is empty
      if (m.kids[i]->kind != DECL && m.kids[i]->value == v) {
        named.push_back(fwd[i]);
        if (m.kids[i]->kind == ELEM)
          elems.push_back(fwd[i]);
      }
      if (m.kids[i]->kind == ELEM)
        all_elems.push_back(fwd[i]);
    }
    auto f = [](const std::vector<const TiXmlNode *> &x) { return x.empty() ? nullptr : x.front(); };
    auto l = [](const std::vector<const TiXmlNode *> &x) { return x.empty() ? nullptr : x.back(); };
    if (n->FirstChild(v) != f(named) || n->FirstChild(std::string(v)) != f(named))
      bad("FirstChild by name");
    if (n->LastChild(v) != l(named) || n->LastChild(std::string(v)) != l(named))
      bad("LastChild by name");
    if (n->FirstChildElement(v) != f(elems) || n->FirstChildElement(std::string(v)) != f(elems))
      bad("FirstChildElement by name");
    if (n->FirstChildElement() != f(all_elems))
      bad("FirstChildElement");
    it.clear();
    for (const TiXmlNode *k = 0; (k = n->IterateChildren(v, k)) && it.size() <= fwd.size();)
      it.push_back(k);
    if (it != named)
      bad("IterateChildren by name");
    for (size_t i = 0; i < fwd.size(); ++i) {
      const TiXmlNode *nx = nullptr, *pv = nullptr, *ne = nullptr, *nen = nullptr;
      for (size_t j = i + 1; j < fwd.size(); ++j) {
        bool same = m.kids[j]->kind != DECL && m.kids[j]->value == v, el = m.kids[j]->kind == ELEM;
        if (same && !nx)
          nx = fwd[j];
        if (el && !ne)
          ne = fwd[j];
        if (el && same && !nen)
          nen = fwd[j];
      }
      for (size_t j = 0; j < i; ++j)
        if (m.kids[j]->kind != DECL && m.kids[j]->value == v)
          pv = fwd[j];
      if (fwd[i]->NextSibling(v) != nx || fwd[i]->NextSibling(std::string(v)) != nx)
        bad("NextSibling by name");
      if (fwd[i]->PreviousSibling(v) != pv || fwd[i]->PreviousSibling(std::string(v)) != pv)
        bad("PreviousSibling by name");
      if (fwd[i]->NextSiblingElement() != ne)
        bad("NextSiblingElement");
      if (fwd[i]->NextSiblingElement(v) != nen || fwd[i]->NextSiblingElement(std::string(v)) != nen)
        bad("NextSiblingElement by name");
    }
    // handles
    TiXmlHandle h(const_cast<TiXmlNode *>(n));
    for (int i = -1; i <= int(fwd.size()); ++i) {
      if (i >= 0) {
        if (h.Child(i).ToNode() != (size_t(i) < fwd.size() ? fwd[size_t(i)] : nullptr))
          bad("handle Child by index");
        if (h.Child(v, i).ToNode() != (size_t(i) < named.size() ? named[size_t(i)] : nullptr))
          bad("handle Child by name and index");
        if (h.ChildElement(i).ToNode() != (size_t(i) < all_elems.size() ? all_elems[size_t(i)] : nullptr))
          bad("handle ChildElement by index");
        if (h.ChildElement(v, i).ToNode() != (size_t(i) < elems.size() ? elems[size_t(i)] : nullptr))
          bad("handle ChildElement by name and index");
      }
    }
    if (h.FirstChild(v).ToNode() != f(named) || h.FirstChildElement(v).ToNode() != f(elems) || h.FirstChild().ToNode() != (fwd.empty() ? nullptr : fwd[0]))
      bad("handle FirstChild");
  }
  if (m.kind == ELEM && !top) {
    const TiXmlElement *e = n->ToElement();
    const char *t = e->GetText();
    bool want = !m.kids.empty() && (m.kids[0]->kind == TEXT || m.kids[0]->kind == CDATA);
    if ((t != nullptr) != want || (t && m.kids[0]->value != t))
      bad("GetText");
    std::vector<const TiXmlAttribute *> af, ab;
    for (auto a = e->FirstAttribute(); a && af.size() < 20; a = a->Next())
      af.push_back(a);
    for (auto a = e->LastAttribute(); a && ab.size() < 20; a = a->Previous())
      ab.push_back(a);
    std::reverse(ab.begin(), ab.end());
    if (af != ab || af.size() != m.attrs.size())
      bad("attribute order");
    for (const char *name : ATTR) {
      auto p = std::find_if(m.attrs.begin(), m.attrs.end(), [&](const std::pair<std::string, std::string> &a) { return a.first == name; });
      const char *v = e->Attribute(name);
      const std::string *sv = e->Attribute(std::string(name));
      if ((v != nullptr) != (p != m.attrs.end()) || (sv != nullptr) != (v != nullptr))
        bad(cat("presence of attribute ", name));
      int iv = 12345, ir = e->QueryIntAttribute(name, &iv), iv2 = 12345;
      double dv = 0.125, dv2 = 0.125;
      int dr = e->QueryDoubleAttribute(name, &dv);
      unsigned uv = 77;
      int ur = e->QueryUnsignedAttribute(name, &uv);
      bool bv = false;
      std::string qs = "untouched";
      int sr = e->QueryStringAttribute(name, &qs);
      float fv = 0.125f;
      int fr = e->QueryFloatAttribute(name, &fv);
      int br = e->QueryBoolAttribute(name, &bv);
      if (!v) {
        if (ir != TIXML_NO_ATTRIBUTE || dr != TIXML_NO_ATTRIBUTE || ur != TIXML_NO_ATTRIBUTE || br != TIXML_NO_ATTRIBUTE || sr != TIXML_NO_ATTRIBUTE || fr != TIXML_NO_ATTRIBUTE)
          bad("query of an absent attribute");
        if (iv != 12345 || dv != 0.125)
          bad("query of an absent attribute changed the target");
        continue;
      }
      if (p->second != v || *sv != p->second || sr != TIXML_SUCCESS || qs != p->second)
        bad(cat("value of attribute ", name));
      // what the text says as a number
      const char *b = p->second.c_str();
      char *end = nullptr;
      long ln = strtol(b, &end, 10);
      bool isint = end != b;
      char *dend = nullptr;
      double dn = strtod(b, &dend);
      bool isdbl = dend != b;
      if ((ir == TIXML_SUCCESS) != isint || (isint && iv != int(ln)) || (!isint && ir != TIXML_WRONG_TYPE))
        bad(cat("integer access of ", name, "=", p->second));
      if ((ur == TIXML_SUCCESS) != isint || (isint && uv != unsigned(ln)))
        bad(cat("unsigned access of ", name, "=", p->second));
      if ((dr == TIXML_SUCCESS) != isdbl || (isdbl && dv != dn) || (!isdbl && dr != TIXML_WRONG_TYPE))
        bad(cat("double access of ", name, "=", p->second));
      if ((fr == TIXML_SUCCESS) != isdbl || (isdbl && fv != float(dn)))
        bad(cat("float access of ", name, "=", p->second));
      { // the attribute itself
        size_t at = size_t(p - m.attrs.begin());
        const TiXmlAttribute *q = af[at];
        int qi = 12345;
        double qd = 0.125;
        if (q->NameTStr() != name || strcmp(q->Name(), name) || q->ValueStr() != p->second || strcmp(q->Value(), p->second.c_str()))
          bad(cat("name or value of the attribute object ", name));
        if (q->QueryIntValue(&qi) != ir || qi != iv || q->QueryDoubleValue(&qd) != dr || memcmp(&qd, &dv, sizeof dv))
          bad(cat("queries of the attribute object ", name));
        if ((isint && q->IntValue() != iv) || (isdbl && dv == dv && q->DoubleValue() != dv))
          bad(cat("numbers of the attribute object ", name));
        for (auto o : af)
          if ((*q == *o) != (q == o) || (*q < *o) != (q->NameTStr() < o->NameTStr()) || (*q > *o) != (q->NameTStr() > o->NameTStr()))
            bad(cat("comparison of attributes ", name, " and ", o->NameTStr()));
        std::string sv2;
        int iv3 = 12345;
        double dv3 = 0.125;
        if (e->QueryValueAttribute(std::string(name), &sv2) != TIXML_SUCCESS || sv2 != p->second)
          bad(cat("text access of ", name));
        if (e->QueryIntAttribute(std::string(name), &iv3) != ir || iv3 != iv || e->QueryDoubleAttribute(std::string(name), &dv3) != dr || memcmp(&dv3, &dv, sizeof dv))
          bad(cat("access by std::string of ", name));
      }
      e->Attribute(name, &iv2);
      e->Attribute(name, &dv2);
      if (isint && iv2 != int(ln))
        bad(cat("integer value of ", name));
      if (isdbl && dv2 != dn)
        bad(cat("double value of ", name));
      std::string low;
      for (char ch : p->second)
        low += char(tolower((unsigned char)ch));
      bool yes = low == "true" || low == "yes" || low == "1", no = low == "false" || low == "no" || low == "0";
      if ((br == TIXML_SUCCESS) != (yes || no) || (yes && !bv) || (no && bv))
        bad(cat("boolean access of ", name, "=", p->second, " gives ", br, " ", bv));
      c.count("attribute_reads");
    }
  }
  for (size_t i = 0; i < fwd.size(); ++i)
    check_node(c, *m.kids[i], fwd[i], n, doc, false);
}
// values of text, CDATA, comment and unknown nodes
std::string node_text(Rng &g) {
  static const char *const odd[] = {"", " ", "  ", "\t\n", "\r\n ", "<", "&", "]]", "--", "\"'", "&amp;", "&#x41;", "\xc3\xa9", "\xf0\x9f\xa4\x96", " a", "a ", "a  b"};
  if (g.chance(0.6))
    return VAL[g.below(4)];
  if (g.chance(0.1))
    return std::string(size_t(g.range(1, 400)), "xy "[g.below(3)]);
  return odd[g.below(sizeof odd / sizeof *odd)];
}
P random_small(Rng &g, int depth) {
  P m(new M);
  int k = depth > 2 ? 5 + int(g.below(4)) : int(g.below(9));
  if (k < 5) {
    m->kind = ELEM;
    m->value = VAL[g.below(4)];
    std::set<std::string> used;
    for (int i = g.range(0, 3); i > 0; --i) {
      std::string n = ATTR[g.below(5)];
      if (used.insert(n).second)
        m->attrs.push_back({n, small_value(g)});
    }
    for (int i = g.chance(0.5) ? 0 : g.range(1, 3); i > 0; --i) {
      P c = random_small(g, depth + 1);
      c->parent = m.get();
      m->kids.push_back(c);
    }
  } else if (k == 5) {
    m->kind = TEXT;
    m->value = node_text(g);
  } else if (k == 6) {
    m->kind = COMMENT;
    m->value = node_text(g);
  } else if (k == 7) {
    m->kind = g.chance(0.5) ? UNKN : CDATA;
    m->value = node_text(g);
  } else {
    m->kind = g.chance(0.5) ? DECL : TEXT;
    if (m->kind == DECL)
      m->attrs = {{"version", "1.0"}, {"encoding", ""}, {"standalone", "yes"}};
    else
      m->value = node_text(g);
  }
  return m;
}
int g_user[5]; // what user data point to
TiXmlNode *build_counted(const M &m, Rng &g, std::set<const TiXmlNode *> &mine) {
  TiXmlNode *n = nullptr;
  if (m.kind == ELEM) {
    auto e = new CElem(m.value);
    for (auto &a : m.attrs)
      e->SetAttribute(a.first, a.second);
    n = e;
  } else if (m.kind == TEXT)
    n = new CText(m.value);
  else if (m.kind == COMMENT)
    n = new CComment(m.value);
  else
    return build(m, g);
  mine.insert(n);
  for (auto &k : m.kids)
    n->LinkEndChild(build_counted(*k, g, mine));
  return n;
}
long counted_in(const TiXmlNode *n) {
  long r = dynamic_cast<const CElem *>(n) || dynamic_cast<const CText *>(n) || dynamic_cast<const CComment *>(n);
  for (auto k = n->FirstChild(); k; k = k->NextSibling())
    r += counted_in(k);
  return r;
}
void x03(Ctx &c) {
  Rng g(c.case_seed);
  g_made = g_died = 0;
  {
    std::list<Tree> trees;
    auto fresh = [&]() {
      Tree t;
      t.doc.reset(new TiXmlDocument);
      t.root.reset(new M);
      t.root->node = t.doc.get();
      trees.push_back(std::move(t));
    };
    fresh();
    auto verify = [&](const char *op) {
      long alive = 0;
      for (auto &t : trees) {
        check_node(c, *t.root, t.doc.get(), nullptr, t.doc.get(), true);
        Collect v;
        t.doc->Accept(&v);
        std::vector<M *> all;
        all_nodes(*t.root, all);
        Picky p;
        for (M *m : all)
          if (g.chance(0.15))
            (g.chance(0.5) || (m->kind != ELEM && m != t.root.get()) ? p.stop : p.leave).insert(m->node);
        M *start = g.chance(0.7) ? t.root.get() : g.pick(all);
        Picky::Calls want;
        bool on = p.expect(*start, want);
        bool said = start->node->Accept(&p);
        c.check(p.seen == want && said == on, "visit-stop", cat("after ", op, ": a visitor that stops sees ", p.seen.size(), " calls, expected ", want.size(), ", and returns ", said));
        c.count("visits_stopped", long(p.seen.size()) < count_nodes(*start));
        c.check(v.s == visit_model(*t.root, true), "visit-order", cat("after ", op, ": ", first_difference(visit_model(*t.root, true), v.s)));
        alive += counted_in(t.doc.get());
      }
      c.check(g_made - g_died == alive, "node-lifetime", cat("after ", op, ": ", alive, " of the linked nodes are in the trees but ", g_made - g_died, " exist"));
    };
    int steps = g.range(10, 45);
    std::set<const TiXmlNode *> mine;
    for (int s = 0; s < steps; ++s) {
      auto ti = trees.begin();
      std::advance(ti, long(g.below(trees.size())));
      Tree &t = *ti;
      std::vector<M *> nodes, elems;
      all_nodes(*t.root, nodes);
      for (M *m : nodes)
        if (m != t.root.get() && m->kind == ELEM)
          elems.push_back(m);
      std::vector<M *> parents = elems;
      parents.push_back(t.root.get());
      M *par = g.pick(parents);
      size_t nk = par->kids.size();
      size_t at = nk ? g.below(nk) : 0;
      const char *op = "";
      auto put = [&](size_t i, P m, TiXmlNode *n) {
        c.check(n != nullptr, "insert-failed", cat(op, " returned null"));
        m->parent = par;
        bind(*m, n);
        par->kids.insert(par->kids.begin() + long(i), m);
      };
      // what is inserted: new nodes, or a node of any of the trees
      P add = random_small(g, 0);
      std::unique_ptr<TiXmlNode> tmp;
      const TiXmlNode *src = nullptr;
      auto source = [&]() {
        if (g.chance(0.35)) {
          auto o = trees.begin();
          std::advance(o, long(g.below(trees.size())));
          std::vector<M *> all;
          all_nodes(*o->root, all);
          M *pick = g.pick(all);
          if (pick != o->root.get() && count_nodes(*pick) < 15) {
            add = clone_model(*pick);
            src = pick->node;
            c.count("inserted_existing");
            return;
          }
        }
        tmp.reset(build(*add, g));
        src = tmp.get();
      };
      if (nodes.size() > 60) {
        op = "Clear";
        t.doc->Clear();
        t.root->kids.clear();
      } else
        switch (g.below(22)) {
        case 20:
        case 21: {
          op = "user data";
          M *m = g.pick(nodes);
          m->user = g.chance(0.2) ? nullptr : &g_user[g.below(5)];
          m->node->SetUserData(m->user);
          break;
        }
        case 0:
        case 1:
        case 2: {
          op = "LinkEndChild";
          TiXmlNode *n = build_counted(*add, g, mine);
          put(nk, add, par->node->LinkEndChild(n));
          break;
        }
        case 3:
          op = "InsertEndChild";
          source();
          put(nk, add, par->node->InsertEndChild(*src));
          break;
        case 4:
        case 5:
          op = "InsertBeforeChild";
          if (nk) {
            source();
            put(at, add, par->node->InsertBeforeChild(par->kids[at]->node, *src));
          } else
            c.check(!par->node->InsertBeforeChild(nullptr, TiXmlElement("z")) && !par->node->InsertAfterChild(nullptr, TiXmlElement("z")) && !par->node->ReplaceChild(nullptr, TiXmlElement("z")), "insert-before-null", "an edit at no node was done");
          break;
        case 6:
        case 7:
          op = "InsertAfterChild";
          if (nk) {
            source();
            put(at + 1, add, par->node->InsertAfterChild(par->kids[at]->node, *src));
          }
          break;
        case 8:
        case 9:
          op = "ReplaceChild";
          if (nk) {
            source();
            TiXmlNode *old = par->kids[at]->node;
            TiXmlNode *n = par->node->ReplaceChild(old, *src);
            par->kids.erase(par->kids.begin() + long(at));
            put(at, add, n);
          }
          break;
        case 10:
        case 11:
          op = "RemoveChild";
          if (nk) {
            c.check(par->node->RemoveChild(par->kids[at]->node), "remove-failed", "RemoveChild returned false");
            par->kids.erase(par->kids.begin() + long(at));
          } else
            c.check(!par->node->RemoveChild(nullptr), "remove-null", "removal of no node");
          break;
        case 12:
          op = "Clear";
          if (g.chance(0.4)) {
            par->node->Clear();
            par->kids.clear();
          }
          break;
        case 13: {
          op = "wrong arguments";
          // a node that is no child of this parent, and a document
          std::vector<M *> others;
          for (M *m : nodes)
            if (m->parent != par && m != t.root.get())
              others.push_back(m);
          TiXmlElement e("z");
          if (!others.empty()) {
            M *o = g.pick(others);
            c.check(!par->node->InsertBeforeChild(o->node, e) && !par->node->InsertAfterChild(o->node, e) && !par->node->ReplaceChild(o->node, e), "wrong-parent", "an edit at a node of another parent was done");
          }
          TiXmlDocument d;
          c.check(!par->node->InsertEndChild(d), "document-inserted", "a document was inserted into a tree");
          if (nk)
            c.check(!par->node->InsertBeforeChild(par->kids[at]->node, d) && !par->node->InsertAfterChild(par->kids[at]->node, d) && !par->node->ReplaceChild(par->kids[at]->node, d), "document-inserted", "a document was inserted into a tree");
          break;
        }
        case 14: {
          op = "copy of document";
          if (trees.size() < 3) {
            Tree n;
            int how = int(g.below(3));
            if (how == 0)
              n.doc.reset(new TiXmlDocument(*t.doc));
            else if (how == 1)
              n.doc.reset(static_cast<TiXmlDocument *>(static_cast<TiXmlNode &>(*t.doc).Clone()));
            else {
              n.doc.reset(new TiXmlDocument);
              n.doc->LinkEndChild(new CElem("gone"));
              *n.doc = *t.doc;
            }
            n.root = clone_model(*t.root);
            bind(*n.root, n.doc.get());
            trees.push_back(std::move(n));
            c.count("document_copies");
          }
          break;
        }
        case 15:
          op = "destruction of document";
          trees.erase(ti);
          if (trees.empty())
            fresh();
          break;
        case 16: {
          op = "assignment of element";
          std::vector<M *> from;
          auto o = trees.begin();
          std::advance(o, long(g.below(trees.size())));
          std::vector<M *> all;
          all_nodes(*o->root, all);
          for (M *m : all)
            if (m != o->root.get() && m->kind == ELEM && count_nodes(*m) < 15)
              from.push_back(m);
          if (!from.empty() && !elems.empty()) {
            M *a = g.pick(elems), *b = g.pick(from);
            bool related = false;
            for (M *x = a; x; x = x->parent)
              related |= x == b;
            for (M *x = b; x; x = x->parent)
              related |= x == a;
            if (related && a != b)
              break;
            TiXmlElement *ae = a->node->ToElement();
            P copy = clone_model(*b);
            *ae = *b->node->ToElement();
            a->value = copy->value;
            a->user = copy->user;
            a->attrs = copy->attrs;
            a->kids = copy->kids;
            for (auto &k : a->kids)
              k->parent = a;
            bind(*a, ae);
            c.count(a == b ? "self_assignments" : "element_assignments");
          }
          break;
        }
        default: {
          op = "attribute";
          if (elems.empty())
            break;
          M *m = g.pick(elems);
          TiXmlElement *e = m->node->ToElement();
          std::string name = ATTR[g.below(5)], v = small_value(g);
          auto p = std::find_if(m->attrs.begin(), m->attrs.end(), [&](const std::pair<std::string, std::string> &a) { return a.first == name; });
          int how = int(g.below(9));
          if (how >= 7) {
            if (how == 7)
              e->RemoveAttribute(name);
            else
              e->RemoveAttribute(name.c_str());
            if (p != m->attrs.end())
              m->attrs.erase(p);
            break;
          }
          int iv = g.chance(0.2) ? (g.chance(0.5) ? INT32_MAX : INT32_MIN) : g.range(-1000, 1000);
          double dv = g.chance(0.5) ? g.range(-99999, 99999) / 8.0 : g.normal() * std::pow(10.0, g.range(-9, 9));
          if (how == 0)
            e->SetAttribute(name, v);
          else if (how == 1)
            e->SetAttribute(name.c_str(), v.c_str());
          else if (how == 2 || how == 3) {
            if (how == 2)
              e->SetAttribute(name, iv);
            else
              e->SetAttribute(name.c_str(), iv);
            v = std::to_string(iv);
          } else if (how == 4 || how == 5) {
            if (how == 4)
              e->SetDoubleAttribute(name, dv);
            else
              e->SetDoubleAttribute(name.c_str(), dv);
            const char *r = e->Attribute(name.c_str());
            c.check(r && std::fabs(strtod(r, nullptr) - dv) <= 1e-5 * std::fabs(dv), "double-attribute", cat("set to ", dv, " reads ", r ? r : "(null)"));
            v = r;
          } else {
            if (p == m->attrs.end())
              break;
            TiXmlAttribute *a = e->FirstAttribute();
            while (a && a->NameTStr() != name)
              a = a->Next();
            c.check(a != nullptr, "attribute-list", "attribute is not in the list");
            if (g.chance(0.5))
              a->SetValue(v);
            else {
              a->SetIntValue(iv);
              v = std::to_string(iv);
              c.check(a->IntValue() == iv && a->DoubleValue() == iv, "integer-attribute", "integer value reads differently");
            }
          }
          if (p == m->attrs.end())
            m->attrs.push_back({name, v});
          else
            p->second = v;
        }
        }
      c.log(op);
      c.count(std::string("op_") + op);
      verify(op);
    }
    if (!trees.empty())
      c.nontrivial(hash_str(visit_model(*trees.front().root, true)));
    c.sample(visit_model(*trees.front().root, true));
    trees.clear();
  }
  c.check(g_made == g_died, "node-lifetime", cat(g_made - g_died, " linked nodes were never freed"));
  c.count("nodes_freed", g_died);
  if (c.case_index % 64 == 63)
    c.check(!__lsan_do_recoverable_leak_check(), "leak", "memory of a document was not released");
}

// ------------------------------------------------------------------ X04: malformed documents
struct Tag {
  size_t begin, end; // [begin, end) including the angle brackets
  int kind;          // 0 start, 1 end, 2 empty, 3 comment or CDATA
  std::string name;
};
std::vector<Tag> tags_of(const std::string &s, size_t from, size_t to) {
  std::vector<Tag> r;
  for (size_t i = from; i < to;) {
    if (s[i] != '<') {
      ++i;
      continue;
    }
    Tag t;
    t.begin = i;
    if (s.compare(i, 4, "<!--") == 0) {
      t.kind = 3;
      t.end = s.find("-->", i + 4) + 3;
    } else if (s.compare(i, 9, "<![CDATA[") == 0) {
      t.kind = 3;
      t.end = s.find("]]>", i + 9) + 3;
    } else {
      t.kind = s[i + 1] == '/';
      size_t j = i + 1 + size_t(t.kind);
      while (!is_ws(s[j]) && s[j] != '/' && s[j] != '>')
        t.name += s[j++];
      char q = 0;
      for (; q || s[j] != '>'; ++j)
        if (q) {
          if (s[j] == q)
            q = 0;
        } else if (s[j] == '"' || s[j] == '\'')
          q = s[j];
      t.end = j + 1;
      if (s[j - 1] == '/' && !t.kind)
        t.kind = 2;
    }
    i = t.end;
    r.push_back(t);
  }
  return r;
}
// Width of every row in columns, tabs expanded.
std::vector<long> row_widths(const std::string &s, int tab) {
  std::vector<long> r(1, 0);
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if (ch == '\r' || ch == '\n') {
      if (i + 1 < s.size() && s[i + 1] == (ch == '\r' ? '\n' : '\r'))
        ++i;
      r.push_back(0);
    } else if (ch == '\t' && tab > 0)
      r.back() = (r.back() / tab + 1) * tab;
    else
      ++r.back();
  }
  return r;
}
void check_error_report(Ctx &c, const TiXmlDocument &doc, const std::string &text, bool valid_utf8 = true) {
  if (!doc.Error()) {
    c.check(doc.ErrorId() == 0, "error-state", "an error number without an error");
    return;
  }
  c.check(doc.ErrorDesc() && *doc.ErrorDesc() && doc.ErrorId() > 0, "error-description", "an error without description");
  std::vector<long> w = row_widths(text.c_str(), doc.TabSize());
  long row = doc.ErrorRow(), col = doc.ErrorCol();
  c.check(row >= 0 && row <= long(w.size()), "error-row", cat("row ", row, " of ", w.size(), " in ", printable(text)));
  c.check((row == 0) == (col == 0), "error-column", cat("row ", row, " column ", col));
  // (a broken UTF-8 sequence is skipped as a whole, line ends in it included)
  if (row > 0)
    c.check(col >= 1 && col <= (valid_utf8 ? w[size_t(row - 1)] : long(text.size()) * std::max(doc.TabSize(), 1)) + 1, "error-column", cat("column ", col, " in row ", row, " of ", w[size_t(row - 1)], " columns in ", printable(text)));
  if (row > 0)
    c.count("errors_with_position");
}
// What can be done with a document that was parsed without error.
void use_document(Ctx &c, const TiXmlDocument &doc) {
  std::string tree = show_all(read_doc(doc));
  std::string a = printed(doc, " ", "\n", false);
  std::ostringstream o;
  o << doc;
  std::string f = c.scratch + "/x04.xml";
  if (FILE *fp = fopen(f.c_str(), "w")) {
    doc.Print(fp, 0);
    fclose(fp);
  }
  TiXmlDocument copy(doc), other;
  other = doc;
  std::unique_ptr<TiXmlNode> cl(static_cast<const TiXmlNode &>(doc).Clone());
  std::string b = printed(copy, " ", "\n", false), d = printed(other, " ", "\n", false), e = printed(*cl, " ", "\n", false);
  c.check(b == d && b == e, "copies-differ", "copies of a document print differently");
  // a value with a NUL character (&#0;) ends there in copies
  if (tree.find('\0') == std::string::npos)
    c.check(a == b, "copies-differ", "the copy of a document prints differently: " + first_difference(a, b));
  c.check(show_all(read_doc(doc)) == tree, "printing-changes", "printing or copying changed the document");
}
std::string mutate(Rng &g, std::string s) {
  static const char *bits[] = {"<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "&", "&#", "&#x", ";", "&amp;", "&#x41;", "&#xFFFFFFFFFF;", "&#99999999999;", "&#0;", "<?xml", "?>", "<?xml version='1.0' encoding='UTF-8'?>", "=", "\"", "'", "\xef\xbb\xbf", "\xef\xbf\xbe", "\xef", "\xf4", "\xc3", "\xff", "\r", "\n\r", "\t", " ", "<a>", "</a>", "<a b='c'/>", "encoding=''", "<!DOCTYPE a [", "<!", "<?", "a", "\x01"};
  int n = g.range(1, 6);
  for (int i = 0; i < n; ++i) {
    size_t at = g.below(s.size() + 1), at2 = g.below(s.size() + 1);
    switch (g.below(9)) {
    case 0: s.insert(at, bits[g.below(sizeof bits / sizeof *bits)]); break;
    case 1: s.insert(at, bits[g.below(sizeof bits / sizeof *bits)]); break;
    case 2: s = s.substr(0, at); break;
    case 3: s.erase(at, g.below(8)); break;
    case 4:
      if (at < s.size())
        s[at] = char(g.below(256));
      break;
    case 5: s.insert(at, s.substr(at2, g.below(30))); break;
    case 6:
      if (at < s.size())
        s[at] = char(s[at] ^ (1 << g.below(8)));
      break;
    case 7: s.insert(at, 1, char(g.below(256))); break;
    default: {
      std::string r;
      const char *b = bits[g.below(sizeof bits / sizeof *bits)];
      for (int k = g.range(1, g.chance(0.03) ? 3000 : 30); k > 0; --k)
        r += b;
      s.insert(at, r);
    }
    }
  }
  return s;
}
// Corruptions of the root element of a document which have to be reported.
void corruptions(Rng &g, const Doc &d, const std::function<void(const std::string &, const std::string &)> &must_fail) {
  const std::string &t = d.text;
  std::vector<Tag> tags = tags_of(t, d.root_begin, d.root_end);
  std::vector<size_t> ends, starts, opens; // indices
  for (size_t i = 0; i < tags.size(); ++i) {
    if (tags[i].kind == 1)
      ends.push_back(i);
    if (tags[i].kind == 0 || tags[i].kind == 2)
      opens.push_back(i);
    if (tags[i].kind == 0)
      starts.push_back(i);
  }
  // cut off: inside the root element, or inside markup before it
  for (int i = 0; i < 6; ++i) {
    size_t at = d.root_begin + 1 + g.below(d.root_end - d.root_begin - 1);
    if (i == 0)
      at = d.root_begin + 1;
    if (i == 1)
      at = d.root_end - 1;
    must_fail(t.substr(0, at), "cut_off");
  }
  // inside what ends a comment, a section or a tag
  for (const char *end : {"-->", "]]>", "/>"}) {
    std::vector<size_t> at;
    for (size_t i = d.root_begin; (i = t.find(end, i)) < d.root_end; ++i)
      at.push_back(i);
    if (!at.empty())
      must_fail(t.substr(0, g.pick(at) + 1 + g.below(strlen(end) - 1)), "cut_off_in_the_end");
  }
  for (int i = 0; i < 2 && !ends.empty(); ++i) {
    const Tag &e = tags[g.pick(ends)];
    must_fail(t.substr(0, e.begin) + t.substr(e.end), "end_tag_removed");
    std::string n = e.name;
    switch (g.below(7)) {
    case 0: n += "x"; break;
    case 4: {
      std::string x = utf8(pick_char(g));
      n += x == ">" ? "x" : x + "x";
      break;
    }
    case 5: n = near_name(g, n); break;
    case 6: { static const char *const tail[] = {".", ":", "-", "_", "0", "/", "\xc3\xa9", "=", " x", " /", " a='b'", "<", "&", ";", "\"", "'", "\n.", "?", "!", "]"}; n += tail[g.below(20)]; break; }
    case 1: n = n == "a" ? "b" : "a"; break;
    case 2: n = n.size() > 1 && (unsigned char)n[n.size() - 1] < 128 ? n.substr(0, n.size() - 1) : n + "_"; break;
    default: n[0] = isalpha((unsigned char)n[0]) ? char(n[0] ^ 32) : 'q';
    }
    if (n == e.name)
      n += "x";
    must_fail(t.substr(0, e.begin) + "</" + n + ">" + t.substr(e.end), "end_tag_mismatched");
    must_fail(t.substr(0, e.begin) + "</zz>" + t.substr(e.begin), "end_tag_extra");
    must_fail(t.substr(0, e.begin) + t.substr(e.begin + 1), "end_tag_without_bracket");
    size_t nx = e.end;
    while (nx < t.size() && is_ws(t[nx]))
      ++nx;
    if (nx >= t.size() || t[nx] != '>')
      must_fail(t.substr(0, e.end - 1) + t.substr(e.end), "end_tag_not_closed");
  }
  for (int i = 0; i < 2; ++i) {
    const Tag &s = tags[g.pick(opens)];
    size_t nx = s.end;
    while (nx < t.size() && is_ws(t[nx]))
      ++nx;
    if (s.kind == 0 ? nx < t.size() && t[nx] == '<' : nx == s.end ? nx >= t.size() || t[nx] != '>' : true)
      must_fail(t.substr(0, s.end - 1) + t.substr(s.end), "start_tag_not_closed");
    { // what is no attribute
      static const char *const no[] = {"zz9", "9z='1'", "-a='1'", "='1'", "<", "'x'", "&amp;='1'", ".x=\"1\"", "zz9 'x'", "zz9 zz8='1'", "!zz='1'", "=", "zz9:"};
      size_t at = s.kind == 2 ? s.end - 2 : s.end - 1;
      if (g.chance(0.4))
        at = s.begin + 1 + s.name.size();
      must_fail(t.substr(0, at) + " " + no[g.below(sizeof no / sizeof *no)] + (g.chance(0.5) ? " " : "") + t.substr(at), "no_attribute");
    }
    // the attributes of this tag
    size_t j = s.begin + 1 + s.name.size();
    std::vector<std::string> names;
    std::vector<size_t> closing;
    char q = 0;
    size_t nb = 0;
    for (; j < s.end; ++j) {
      if (q) {
        if (t[j] == q) {
          q = 0;
          closing.push_back(j);
        }
      } else if (t[j] == '"' || t[j] == '\'')
        q = t[j];
      else if (t[j] == '=' && nb) {
        size_t k = j;
        while (is_ws(t[k - 1]))
          --k;
        size_t b = k;
        while (!is_ws(t[b - 1]) && t[b - 1] != '"' && t[b - 1] != '\'')
          --b;
        names.push_back(t.substr(b, k - b));
      } else
        nb = j;
    }
    if (!names.empty()) {
      std::string again = " " + g.pick(names) + (g.chance(0.5) ? "='1'" : "=\"\"");
      size_t at = s.kind == 2 ? s.end - 2 : s.end - 1;
      if (g.chance(0.5))
        at = s.begin + 1 + s.name.size();
      must_fail(t.substr(0, at) + again + " " + t.substr(at), "attribute_repeated");
      size_t cq = g.pick(closing);
      if (t.find(t[cq], cq + 1) == std::string::npos)
        must_fail(t.substr(0, cq) + t.substr(cq + 1), "attribute_value_not_closed");
    }
  }
}
void x04(Ctx &c) {
  Rng g(c.case_seed);
  Spell sp;
  sp.g = &g;
  int mode = int(g.below(4));
  sp.utf8 = mode != 0;
  sp.condense = g.chance(0.7);
  Condense w(sp.condense);
  Doc d = make_doc(sp, mode);
  const std::string &t = d.text;
  TiXmlEncoding encs[] = {TIXML_ENCODING_UNKNOWN, TIXML_ENCODING_UTF8, TIXML_ENCODING_LEGACY};
  auto must_fail = [&](const std::string &bad, const std::string &what) {
    TiXmlDocument doc;
    if (g.chance(0.3))
      doc.SetTabSize(g.range(0, 9));
    c.log(what + ": " + printable(bad));
    doc.Parse(bad.c_str(), 0, mode == 1 ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_UNKNOWN);
    ++c.evaluations;
    c.count("corruption_" + what);
    c.check(doc.Error(), "clean-parse", what + " is not reported as an error: " + printable(bad));
    check_error_report(c, doc, bad);
    c.nontrivial(hash_str(bad));
  };
  corruptions(g, d, must_fail);
  for (int i = 0; i < 2; ++i) { // something more behind the document, cut off
    size_t n = d.root_end - d.root_begin, k = 1 + g.below(g.chance(0.3) ? std::min<size_t>(n - 1, 4) : n - 1);
    must_fail(t + t.substr(d.root_begin, k), "second_root_cut_off");
  }
  // anything else: no crash, and what is accepted can be used
  for (int i = 0; i < 6; ++i) {
    std::string bad = i == 5 && g.chance(0.3) ? plain_text(g, "", 200, true) : mutate(g, t);
    if (bad.size() > 60000)
      bad.resize(60000);
    c.log("mutated: " + printable(bad));
    TiXmlDocument doc;
    if (g.chance(0.3))
      doc.SetTabSize(g.range(0, 9));
    if (g.chance(0.8))
      doc.Parse(bad.c_str(), 0, encs[g.below(3)]);
    else {
      std::string f = c.scratch + "/x04in.xml";
      spit(f, bad);
      doc.LoadFile(f, encs[g.below(3)]);
      bad = norm(bad.c_str());
    }
    ++c.evaluations;
    c.count(doc.Error() ? "mutants_rejected" : "mutants_accepted");
    check_error_report(c, doc, bad, false);
    if (!doc.Error())
      use_document(c, doc);
  }
  c.sample(printable(t));
  if (c.case_index % 64 == 63)
    c.check(!__lsan_do_recoverable_leak_check(), "leak", "memory of a document was not released");
}
// Markup outside the root element that is cut off.
void x04_prolog(Ctx &c) {
  for (const char *s : {"<!-- abc", "<!-- abc -", "<a/><!-- abc", "<!-- abc --", "<!--", "<!---", "<a/><!-- abc -", "<a/><!-- abc --", "<!DOCTYPE a", "<?xml version=\"1.0\"", "<?xml version=\"1.0\" ?", "<?xml version=\"1.0\" encoding=\"UTF-8", "<", "<a/><", "<?pi x",
                        "<a/><b", "<a></a> <b x='", "<a/><b x", "<a/>\n<b>", "<a/><b><c/>", "<a/><b/><c", "<a>x</a><!-- c --><b", "<!-- c --><a/><b><c", "<a/><?pi x", "<a/><!D", "<a><b/></a><b y='1' "}) {
    TiXmlDocument doc;
    doc.Parse(s, 0, TIXML_ENCODING_UNKNOWN);
    ++c.evaluations;
    c.check(doc.Error(), "clean-parse-outside-root", std::string("markup that is cut off is not reported as an error: ") + s);
    check_error_report(c, doc, s);
  }
}
// Every beginning of some documents that does not end behind a complete node.
void x04_prefixes(Ctx &c) {
  static const std::vector<std::vector<std::string>> docs = {
      {"<?xml version=\"1.0\" encoding='UTF-8' standalone=\"yes\"?>", "<!-- a-b -->", "<!DOCTYPE a SYSTEM 'x.dtd'>", "<a b = 'c' d=\"&lt;&#65;\"><e/>t &amp; u<![CDATA[ ]]x]] ]]><!-- - --><f g='h' ></f ></a>", "<!-- -->", "<?pi x?>"},
      {"<a/>", "<!---->"},
      {"<!---->", "<a></a>"},
      {"<x:y.z-1 _a:b.c='1'><![CDATA[]]></x:y.z-1>"}};
  for (auto &parts : docs)
    for (const char *gap : {"", "\n", " \t\r\n"}) {
      std::string t;
      for (auto &p : parts) {
        t += gap;
        for (size_t n = 1; n < p.size(); ++n)
          for (TiXmlEncoding e : {TIXML_ENCODING_UNKNOWN, TIXML_ENCODING_UTF8, TIXML_ENCODING_LEGACY}) {
            TiXmlDocument doc;
            std::string s = t + p.substr(0, n);
            doc.Parse(s.c_str(), 0, e);
            ++c.evaluations;
            c.count("prefixes");
            c.check(doc.Error(), "clean-parse-prefix", "the beginning of a document is not reported as an error: " + printable(s));
            check_error_report(c, doc, s);
          }
        t += p;
      }
      TiXmlDocument doc;
      doc.Parse(t.c_str());
      c.check(!doc.Error(), "well-formed-rejected", printable(t));
    }
}
// Deep nesting, long names, values, texts and lists of attributes and children.
void x04_big(Ctx &c) {
  auto rep = [](const std::string &s, int n) {
    std::string r;
    while (n-- > 0)
      r += s;
    return r;
  };
  std::vector<std::string> all;
  for (int n : {100, 900, 1100, 8000})
    for (const char *s : {"<a>", "<a><b/>", "<a x='", "<a ", "&amp;", "<!--", "<![CDATA[", "\n", "\t", "x", "<?xml ", "<!", "'", "&#x", "\xef\xbb\xbf", "\xc3"}) {
      all.push_back(rep(s, n));
      all.push_back("<a>" + rep(s, n) + "</a>");
      all.push_back("<a b='" + rep(s, n) + "'/>");
    }
  for (int n : {100, 900, 999, 8000})
    all.push_back(rep("<a>", n) + rep("</a>", n));
  std::string at = "<a";
  for (int i = 0; i < 3000; ++i)
    at += " n" + std::to_string(i) + "='1'";
  all.push_back(at + "/>");
  for (auto &s : all)
    for (TiXmlEncoding e : {TIXML_ENCODING_UTF8, TIXML_ENCODING_LEGACY}) {
      TiXmlDocument doc;
      doc.Parse(s.c_str(), 0, e);
      ++c.evaluations;
      check_error_report(c, doc, s, false);
      if (!doc.Error())
        use_document(c, doc);
    }
}
// ------------------------------------------------------------------ X05: documents read from a stream
// A source that hands out a few bytes at a time and knows how many were taken.
struct Trickle : std::streambuf {
  const std::string &s;
  Rng &g;
  size_t next = 0; // first byte not yet in the get area
  char buf[8];
  Trickle(const std::string &s, Rng &g) : s(s), g(g) {}
  int_type underflow() override {
    if (next >= s.size())
      return traits_type::eof();
    size_t n = std::min<size_t>(s.size() - next, 1 + g.below(8));
    std::copy_n(s.begin() + long(next), n, buf);
    next += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(buf[0]);
  }
  size_t taken() const { return next - size_t(egptr() - gptr()); }
};
// The same text as one of several kinds of stream.
struct Source {
  std::string text;
  std::unique_ptr<Trickle> trickle;
  std::unique_ptr<std::istream> in;
  const char *kind = "";
  Source(Ctx &c, Rng &g, const std::string &t) : text(t) {
    switch (g.below(10)) {
    case 0: {
      kind = "file";
      std::string f = c.scratch + "/x05.xml";
      spit(f, text);
      in.reset(new std::ifstream(f, std::ios::binary));
      break;
    }
    case 1:
    case 2:
    case 3:
      kind = "string";
      in.reset(new std::istringstream(text));
      break;
    default:
      kind = "trickle";
      trickle.reset(new Trickle(text, g));
      in.reset(new std::istream(trickle.get()));
    }
  }
  size_t taken() {
    if (trickle)
      return trickle->taken();
    auto st = in->rdstate();
    in->clear();
    size_t r = size_t(in->tellg());
    in->setstate(st);
    return r;
  }
};
// Reads one document and compares it with parsing what was taken from the stream.
void stream_once(Ctx &c, Source &s, TiXmlDocument &doc, bool exact) {
  size_t from = s.taken();
  *s.in >> doc;
  size_t to = s.taken();
  c.check(from <= to && to <= s.text.size(), "stream-position", cat("position ", to, " after ", from));
  std::string taken = s.text.substr(from, to - from);
  ++c.evaluations;
  if (!exact)
    return;
  TiXmlDocument ref;
  ref.Parse(taken.c_str(), 0, TIXML_ENCODING_UNKNOWN);
  c.check(doc.Error() == ref.Error() && doc.ErrorId() == ref.ErrorId() && doc.ErrorRow() == ref.ErrorRow() && doc.ErrorCol() == ref.ErrorCol(), "stream-parse",
          cat("streaming gives error ", doc.ErrorId(), " at ", doc.ErrorRow(), ":", doc.ErrorCol(), ", parsing ", ref.ErrorId(), " at ", ref.ErrorRow(), ":", ref.ErrorCol(), " of ", printable(taken)));
  std::string want = show_all(read_doc(ref)), got = show_all(read_doc(doc));
  c.check(want == got, "stream-parse", first_difference(want, got) + " of " + printable(taken));
}
void x05(Ctx &c) {
  Rng g(c.case_seed);
  Spell sp;
  sp.g = &g;
  sp.condense = g.chance(0.7);
  sp.crlf = g.chance(0.7);
  Condense w(sp.condense);
  // several documents after one another
  int n = g.chance(0.4) ? 1 : g.range(2, 4);
  std::vector<Doc> docs;
  std::string text;
  std::vector<size_t> ends;   // where the root elements end
  std::vector<size_t> begins; // where the documents begin
  for (int i = 0; i < n; ++i) {
    int mode = int(g.below(4));
    if (mode == 1 || (mode == 3 && i))
      mode = g.chance(0.5) ? 0 : 2;
    sp.utf8 = mode != 0;
    docs.push_back(make_doc(sp, mode));
    begins.push_back(text.size());
    ends.push_back(text.size() + docs.back().root_end);
    text += docs.back().text;
    c.count(cat("encoding_mode_", mode));
  }
  c.log(text);
  {
    Source s(c, g, text);
    c.count(std::string("from_") + s.kind);
    std::unique_ptr<TiXmlDocument> doc(new TiXmlDocument);
    std::vector<P> before, want;
    bool reuse = g.chance(0.3);
    for (int i = 0; i < n; ++i) {
      if (!reuse)
        doc.reset(new TiXmlDocument);
      else
        doc->Clear();
      stream_once(c, s, *doc, true);
      c.check(!doc->Error(), "well-formed-rejected", cat("document ", i, ": error ", doc->ErrorDesc(), " for ", printable(text)));
      c.check(s.taken() == ends[size_t(i)], "stream-position", cat("document ", i, " ends at ", ends[size_t(i)], ", the stream is at ", s.taken(), " of ", printable(text)));
      c.check(s.in->good(), "stream-state", cat("the stream is not good after document ", i));
      want = before;
      before.clear();
      bool after = false;
      for (auto &p : docs[size_t(i)].nodes) {
        (after ? before : want).push_back(p);
        after |= p == docs[size_t(i)].root;
      }
      std::string a = show_all(want), b = show_all(read_doc(*doc));
      c.check(a == b, "content", cat("document ", i, ": ", first_difference(a, b), " in ", printable(text)));
      c.check(doc->RootElement() && doc->RootElement()->ValueStr() == docs[size_t(i)].root->value, "root-element", "wrong root element");
      c.count("documents");
      for (auto &p : want)
        c.evaluations += count_nodes(*p);
    }
    // behind the last document
    doc->Clear();
    stream_once(c, s, *doc, true);
    c.check(s.taken() == text.size() && !s.in->good(), "stream-state", "something is left behind the last document");
    c.check(doc->Error() == before.empty(), "stream-end", "reading behind the last document");
    c.nontrivial(hash_str(text));
    c.sample(printable(text));
  }
  // single nodes
  {
    sp.utf8 = false;
    int kind = int(g.below(7));
    int budget = g.range(1, 15);
    P m(new M);
    std::string t = sp.ws(false);
    std::unique_ptr<TiXmlNode> node;
    if (kind < 3) {
      m = make_element(sp, 0, budget);
      t += m->raw;
      node.reset(new TiXmlElement(""));
    } else if (kind == 3) {
      m->kind = COMMENT;
      m->value = plain_text(g, "-", 20);
      t += "<!--" + m->value + "-->";
      node.reset(new TiXmlComment);
    } else if (kind == 4) {
      m->kind = TEXT;
      make_text(sp, m->raw, m->value);
      t = m->raw;
      node.reset(new TiXmlText(""));
    } else if (kind == 6) {
      m->kind = CDATA;
      m->value = plain_text(g, ">", 20);
      t = "<![CDATA[" + m->value + "]]>"; // (text does not skip white space)
      TiXmlText *x = new TiXmlText("");
      x->SetCDATA(true);
      node.reset(x);
    } else {
      m->kind = UNKN;
      m->value = "!DOCTYPE " + plain_text(g, ">", 12);
      t += "<" + m->value + ">";
      node.reset(new TiXmlUnknown);
    }
    size_t end = t.size();
    std::string rest = "<after/>" + sp.ws(false);
    c.log("---- single node\n" + t);
    Source s(c, g, t + rest);
    *s.in >> *node;
    c.check(s.taken() == end && s.in->good(), "stream-position", cat("node ends at ", end, ", the stream is at ", s.taken(), " of ", printable(t)));
    std::string a = show(*m), b = show(*read_tree(node.get()));
    c.check(a == b, "content", first_difference(a, b) + " in " + printable(t));
    TiXmlDocument next;
    *s.in >> next;
    c.check(!next.Error() && next.RootElement() && next.RootElement()->ValueStr() == "after", "stream-position", "what follows a node cannot be read");
    c.count("single_nodes");
    c.evaluations += count_nodes(*m);
  }
  // corrupted: reported
  {
    const Doc &d = docs.back();
    const std::string head = g.chance(0.5) ? "" : text.substr(0, begins.back());
    int skip = head.empty() ? 0 : n - 1;
    if (!d.bom || head.empty())
      corruptions(g, d, [&](const std::string &bad, const std::string &what) {
        c.log(what + ": " + printable(bad));
        Source s(c, g, head + bad);
        TiXmlDocument doc;
        for (int i = 0; i < skip; ++i) {
          stream_once(c, s, doc, true);
          c.check(!doc.Error(), "well-formed-rejected", "a document before the corrupted one is rejected");
          doc.Clear();
        }
        stream_once(c, s, doc, true);
        c.check(doc.Error(), "clean-stream", what + " is not reported as an error: " + printable(bad));
        c.count("corruption_" + what);
      });
  }
  // anything else: it ends, and is what parsing the same bytes gives
  for (int i = 0; i < 5; ++i) {
    std::string bad = i == 4 && g.chance(0.3) ? plain_text(g, "", 200, true) : mutate(g, i & 1 ? docs.back().text : text);
    if (bad.size() > 60000)
      bad.resize(60000);
    if (g.chance(0.2))
      for (int k = g.range(1, 4); k > 0; --k)
        bad.insert(g.below(bad.size() + 1), 1, '\0');
    bool nul = bad.find('\0') != std::string::npos;
    c.log("mutated: " + printable(bad));
    Source s(c, g, bad);
    size_t at = 0;
    for (int k = 0; k < 50; ++k) {
      TiXmlDocument doc;
      stream_once(c, s, doc, !nul);
      if (!doc.Error())
        use_document(c, doc);
      c.count(doc.Error() ? "mutants_rejected" : "mutants_accepted");
      size_t now = s.taken();
      if (now == at || !s.in->good())
        break;
      at = now;
    }
    if (nul)
      c.count("with_null_bytes");
    // single nodes from anything
    Source s2(c, g, bad.substr(g.below(bad.size() + 1)));
    for (int k = g.range(1, 20); k > 0 && s2.in->good(); --k) {
      std::unique_ptr<TiXmlNode> node;
      switch (g.below(6)) {
      case 0: node.reset(new TiXmlComment); break;
      case 1: node.reset(new TiXmlUnknown); break;
      case 2: node.reset(new TiXmlDeclaration); break;
      case 3: {
        TiXmlText *x = new TiXmlText("");
        x->SetCDATA(g.chance(0.5));
        node.reset(x);
        break;
      }
      default: node.reset(new TiXmlElement(""));
      }
      *s2.in >> *node;
      read_tree(node.get());
      c.count("nodes_from_anything");
    }
  }
  if (c.case_index % 64 == 63)
    c.check(!__lsan_do_recoverable_leak_check(), "leak", "memory of a document was not released");
}
// What delimits tags may occur where it does not.
void x05_delimiters(Ctx &c) {
  const std::string all[] = {
      "<a b='>'/><c/>", "<a b=\">\">x</a><c/>", "<a b='/>'>x</a><c/>", "<a b='<c>' d=\"'>\"/><c/>",
      "<a><b c='>'/></a><c/>", "<a><b c='</b>'>t</b></a><c/>", "<a><!--> --></a><c/>", "<a><!--a>b--></a><c/>",
      "<a><!--<b>--></a><c/>", "<!-- <x> --><a/><c/>", "<a><![CDATA[</a>]]></a><c/>", "<a><![CDATA[]]]]></a><c/>",
      "<a><![CDATA[>]]></a><c/>", "<a>'</a><c/>", "<a>it's \"</a><c/>", "<a><!-- ' --></a><c/>", "<a><!DOCTYPE '></a><c/>",
      "<?xml version='1.0'?><!DOCTYPE a><a/><c/>", "<a b = '>' c= '>'\t/><c/>", "<a>></a><c/>", "<a>]]></a><c/>", "<a><!----></a><c/>", "<a>--></a><c/>", "<a><!--'<!--></a><c/>", "<!--<!--><a/><c/>", "<a><!--<!--<!-- --></a><c/>", "<a><!---><!-->--></a><c/>"};
  Rng g(c.case_seed);
  for (auto &x : all)
    for (int k = 0; k < 8; ++k) {
      Source s(c, g, x);
      TiXmlDocument doc, next;
      stream_once(c, s, doc, true);
      c.check(!doc.Error() && s.taken() == x.size() - 4 && s.in->good(), "delimiters", cat("after ", s.taken(), " bytes, error ", doc.ErrorId(), ": ", x));
      stream_once(c, s, next, true);
      c.check(!next.Error() && next.RootElement() && next.RootElement()->ValueStr() == "c", "delimiters", cat("the next element: ", x));
    }
}
void x05_big(Ctx &c) {
  auto rep = [](const std::string &s, int n) {
    std::string r;
    while (n-- > 0)
      r += s;
    return r;
  };
  Rng g(c.case_seed);
  std::vector<std::string> all;
  for (int n : {100, 1100, 3000})
    for (const char *s : {"<a>", "<a><b/>", "<a x='", "<a ", "&amp;", "<!--", "<!-- x -->", "<![CDATA[", "\n", "\t", "x", "<?xml ", "<!", "'", "\xef\xbb\xbf", "\xc3", "<a>x</a>"}) {
      all.push_back(rep(s, n));
      all.push_back("<a>" + rep(s, n) + "</a>");
      all.push_back("<a b='" + rep(s, n) + "'/>");
    }
  for (int n : {100, 900, 1000, 1001, 200000})
    all.push_back(rep("<a>", n) + rep("</a>", n));
  for (auto &s : all)
    for (int k = 0; k < 2; ++k) {
      Source src(c, g, s);
      TiXmlDocument doc;
      stream_once(c, src, doc, true);
      c.count("big_inputs");
    }
  // a null byte anywhere
  const std::string t = "<?xml version='1.0'?><!-- c --><a b='c'>text<d/><![CDATA[x]]><!-- c --><!D></a>";
  for (size_t i = 0; i <= t.size(); ++i)
    for (int two = 0; two < 2; ++two) {
      std::string s = t;
      if (two && i < s.size())
        s[i] = '\0';
      else
        s.insert(i, 1, '\0');
      Source src(c, g, s);
      TiXmlDocument doc;
      stream_once(c, src, doc, false);
      TiXmlElement e("");
      Source src2(c, g, s);
      *src2.in >> e;
      Source src3(c, g, s.substr(i));
      *src3.in >> e;
      c.count("null_byte_positions");
    }
}
// ------------------------------------------------------------------ X06: positions
// Row and column (from 1) of every byte: a line end of any form is one, a tab goes to
// the next stop, a character of UTF-8 or a byte of anything else is one column.
std::vector<std::pair<int, int>> positions(const std::string &t, bool utf8, int tab) {
  std::vector<std::pair<int, int>> r(t.size() + 1);
  int row = 1, col = 1;
  for (size_t i = 0; i < t.size();) {
    size_t n = 1;
    int nr = row, nc = col;
    unsigned char ch = (unsigned char)t[i];
    if (ch == '\r' || ch == '\n') {
      if (i + 1 < t.size() && t[i + 1] == (ch == '\r' ? '\n' : '\r'))
        n = 2;
      ++nr;
      nc = 1;
    } else if (ch == '\t')
      nc = (col - 1) / tab * tab + tab + 1;
    else if (utf8) {
      n = ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4;
      std::string c = t.substr(i, n);
      if (c != "\xef\xbb\xbf" && c != "\xef\xbf\xbe" && c != "\xef\xbf\xbf")
        ++nc;
    } else
      ++nc;
    for (size_t k = 0; k < n; ++k)
      r[i + k] = {row, col};
    row = nr;
    col = nc;
    i += n;
  }
  r[t.size()] = {row, col};
  return r;
}
struct Places {
  Ctx &c;
  const std::string &text;
  const std::vector<std::pair<int, int>> &pos;
  void at(const TiXmlBase *b, size_t off, const std::string &what) {
    ++c.evaluations;
    c.check(b->Row() == pos[off].first && b->Column() == pos[off].second, "position",
            cat(what, " is at ", pos[off].first, ":", pos[off].second, " but says ", b->Row(), ":", b->Column(), " in ", printable(text)));
  }
  void node(const M &m, const TiXmlNode *n, size_t off) {
    at(n, off, cat("node of kind ", int(m.kind), " ", m.value));
    if (m.kind == ELEM) {
      size_t i = 0;
      for (auto a = n->ToElement()->FirstAttribute(); a && i < m.aoff.size(); a = a->Next(), ++i)
        at(a, off + m.aoff[i], cat("attribute ", m.attrs[i].first, " of ", m.value));
      size_t k = 0;
      for (auto x = n->FirstChild(); x && k < m.kids.size(); x = x->NextSibling(), ++k)
        node(*m.kids[k], x, off + m.kids[k]->off);
      c.count("attributes_placed", long(i));
    }
    static const char *const kinds[] = {"elements", "texts", "cdata", "comments", "declarations", "unknown"};
    c.count(std::string(kinds[m.kind]) + "_placed");
  }
};
void x06(Ctx &c) {
  Rng g(c.case_seed);
  Spell sp;
  sp.g = &g;
  int mode = int(g.below(4));
  sp.utf8 = mode != 0;
  sp.condense = g.chance(0.7);
  bool file = g.chance(0.3);
  Condense w(sp.condense);
  Doc d = make_doc(sp, mode);
  int tab = g.chance(0.4) ? 4 : g.range(1, 12);
  TiXmlEncoding enc = mode == 1 ? TIXML_ENCODING_UTF8 : mode == 0 && g.chance(0.5) ? TIXML_ENCODING_LEGACY : TIXML_ENCODING_UNKNOWN;
  c.log(d.text);
  auto parse = [&](TiXmlDocument &doc, const std::string &t) {
    if (tab != 4 || g.chance(0.2))
      doc.SetTabSize(tab);
    if (g.chance(0.1)) { // by way of copies
      TiXmlDocument copy(doc), third;
      third = copy;
      doc.SetTabSize(g.range(1, 20));
      if (g.chance(0.5))
        doc.Parse("<other>\n\t<x/></other>");
      doc.Clear();
      doc = third;
      c.count("through_copies");
    }
    if (file) {
      std::string f = c.scratch + "/x06.xml";
      spit(f, t);
      doc.LoadFile(f, enc);
    } else
      doc.Parse(t.c_str(), 0, enc);
  };
  // what the offsets of the spelling are in the text that is parsed
  auto places = [&](const std::string &t, std::vector<std::pair<int, int>> &pos) {
    if (!file) {
      pos = positions(t, mode != 0, tab);
      return;
    }
    std::string n;
    std::vector<size_t> to;
    for (size_t i = 0; i < t.size(); ++i) {
      to.push_back(n.size());
      if (t[i] == '\r') {
        if (i + 1 < t.size() && t[i + 1] == '\n')
          to.push_back(n.size()), ++i;
        n += '\n';
      } else
        n += t[i];
    }
    to.push_back(n.size());
    auto q = positions(n, mode != 0, tab);
    for (size_t o : to)
      pos.push_back(q[o]);
  };
  {
    TiXmlDocument doc;
    parse(doc, d.text);
    c.check(!doc.Error(), "well-formed-rejected", cat("error ", doc.ErrorDesc(), " for ", printable(d.text)));
    std::vector<std::pair<int, int>> pos;
    places(d.text, pos);
    Places pl{c, d.text, pos};
    auto n = doc.FirstChild();
    for (size_t i = 0; i < d.nodes.size() && n; ++i, n = n->NextSibling())
      pl.node(*d.nodes[i], n, d.nodes[i]->off);
    if (g.chance(0.2)) { // copies of the nodes have their positions
      TiXmlDocument copy(doc);
      std::function<void(const TiXmlNode *, const TiXmlNode *)> same = [&](const TiXmlNode *a, const TiXmlNode *b) {
        c.check(a && b && a->Row() == b->Row() && a->Column() == b->Column(), "position", cat("the copy of a node ", a ? a->ValueStr() : "", " has another position"));
        auto x = a->FirstChild(), y = b->FirstChild();
        for (; x && y; x = x->NextSibling(), y = y->NextSibling())
          same(x, y);
      };
      same(&doc, &copy);
      c.count("copies_compared");
    }
    TiXmlElement e("x");
    TiXmlText tx("x");
    TiXmlAttribute a("a", "b");
    c.check(e.Row() <= 0 && e.Column() <= 0 && tx.Row() <= 0 && tx.Column() <= 0 && a.Row() <= 0 && a.Column() <= 0, "position", "a node that was not parsed has a position");
    c.maxi("rows", pos.back().first);
    c.count(file ? "from_file" : "from_text");
    c.count(cat("encoding_mode_", mode));
    c.nontrivial(hash_str(d.text));
    c.sample(printable(d.text));
  }
  // where a fault is: between the beginning of the piece with the fault and the end of it
  const std::string &t = d.text;
  std::vector<Tag> tags = tags_of(t, d.root_begin, d.root_end);
  auto fault = [&](const std::string &bad, size_t from, size_t to, const char *what) {
    c.log(std::string(what) + ": " + printable(bad));
    TiXmlDocument doc;
    parse(doc, bad);
    std::vector<std::pair<int, int>> pos;
    places(bad, pos);
    std::pair<int, int> at{doc.ErrorRow(), doc.ErrorCol()};
    ++c.evaluations;
    c.count(std::string("fault_") + what);
    c.check(doc.Error() && pos[from] <= at && at <= pos[to], "fault-position",
            cat(what, " between ", pos[from].first, ":", pos[from].second, " and ", pos[to].first, ":", pos[to].second, " is reported at ", at.first, ":", at.second, " in ", printable(bad)));
  };
  for (int i = 0; i < 4; ++i) {
    const Tag &x = g.pick(tags);
    if (x.kind == 1) {
      fault(t.substr(0, x.begin) + "</" + x.name + "x>" + t.substr(x.end), x.begin, x.begin + x.name.size() + 4, "end_tag_mismatched");
    } else if (x.kind != 3) {
      size_t at = x.kind == 2 ? x.end - 2 : x.end - 1;
      while (is_ws(t[at - 1]))
        --at;
      std::string extra = g.chance(0.5) ? " =" : g.chance(0.5) ? " zz" : g.chance(0.5) ? " 1='2'" : " zz='1' \n zz='2'";
      // what follows the fault is part of the piece
      fault(t.substr(0, at) + extra + t.substr(at), at, x.end + extra.size(), "attribute_malformed");
    }
  }
}

// ------------------------------------------------------------------ X07: files that cannot be read or written
// A file with faults: it takes or gives so many bytes and then fails.
struct Faulty {
  std::string data;              // what arrived, or what is there to read
  size_t good = SIZE_MAX;        // so many bytes are taken or given
  size_t piece = SIZE_MAX;       // at most so many at a time (reading)
  long claimed = -1;             // the size it says it has; -1: the true one
  bool seekable = true;
  int err = EIO;
  bool eof = false;              // the fault is an early end of the file
  long pos = 0;
  long calls = 0, faults = 0;
  bool closed = false;
};
ssize_t faulty_read(void *k, char *b, size_t n) {
  Faulty &f = *static_cast<Faulty *>(k);
  ++f.calls;
  size_t at = size_t(f.pos), end = std::min(f.data.size(), f.good);
  if (at >= end) {
    if (f.good < f.data.size() && !f.eof) {
      ++f.faults;
      errno = f.err;
      return -1;
    }
    f.faults += f.good < f.data.size();
    return 0;
  }
  n = std::min({n, end - at, f.piece});
  memcpy(b, f.data.data() + at, n);
  f.pos += long(n);
  return ssize_t(n);
}
ssize_t faulty_write(void *k, const char *b, size_t n) {
  Faulty &f = *static_cast<Faulty *>(k);
  ++f.calls;
  size_t room = f.good - std::min(f.good, f.data.size());
  if (n > room) {
    ++f.faults;
    errno = f.err;
    f.data.append(b, room);
    return room ? ssize_t(room) : 0;
  }
  f.data.append(b, n);
  return ssize_t(n);
}
int faulty_seek(void *k, off64_t *o, int w) {
  Faulty &f = *static_cast<Faulty *>(k);
  if (!f.seekable) {
    errno = ESPIPE;
    return -1;
  }
  long size = f.claimed >= 0 ? f.claimed : long(f.data.size());
  long to = w == SEEK_SET ? long(*o) : w == SEEK_CUR ? f.pos + long(*o) : size + long(*o);
  if (to < 0) {
    errno = EINVAL;
    return -1;
  }
  *o = f.pos = to;
  return 0;
}
int faulty_close(void *k) {
  static_cast<Faulty *>(k)->closed = true;
  return 0;
}
FILE *open_faulty(Faulty &f, Rng &g, const char *mode) {
  cookie_io_functions_t io{faulty_read, faulty_write, faulty_seek, faulty_close};
  FILE *fp = fopencookie(&f, mode, io);
  switch (g.below(4)) {
  case 0: setvbuf(fp, nullptr, _IONBF, 0); break;
  case 1: setvbuf(fp, nullptr, _IOLBF, size_t(1) << g.range(1, 12)); break;
  case 2: setvbuf(fp, nullptr, _IOFBF, size_t(1) << g.range(1, 18)); break;
  }
  return fp;
}
// The descriptors open on files of ours (the sanitizer's own threads open others).
long open_files() {
  long n = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (dirent *e = readdir(d)) {
      char t[4096];
      ssize_t k = readlinkat(dirfd(d), e->d_name, t, sizeof t - 1);
      t[k < 0 ? 0 : k] = 0;
      n += strstr(t, "x07.dir") || !strcmp(t, "/dev/full");
    }
    closedir(d);
  }
  return n;
}
void files_closed(Ctx &c, const std::string &what) {
  long n = open_files();
  c.check(n == 0, "file-left-open", cat(what, ": ", n, " files are left open"));
  c.count("descriptors_checked");
}
// Files may grow to n bytes while this is there.
struct SizeLimit {
  rlimit old;
  void (*h)(int);
  SizeLimit(size_t n) {
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit l = old;
    l.rlim_cur = n;
    h = signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~SizeLimit() {
    setrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, h);
  }
};
std::string without_mark(const std::string &s) { return s.compare(0, 3, "\xef\xbb\xbf") ? s : s.substr(3); }
void must_have_failed(Ctx &c, bool said, const TiXmlDocument &d, const std::string &what) {
  c.check(!said && d.Error() && d.ErrorId() > 0 && d.ErrorDesc() && *d.ErrorDesc(), "failure-not-reported", cat(what, ": returns ", said, ", error ", d.Error(), " ", d.ErrorId(), " ", d.ErrorDesc() ? d.ErrorDesc() : "(null)"));
}
struct Places7 {
  std::string dir, plain, link, missing, below_plain, name_too_long, none;
  explicit Places7(const std::string &scratch) : dir(scratch + "/x07.dir") {
    mkdir(dir.c_str(), 0700);
    plain = dir + "/plain", link = dir + "/loop", missing = dir + "/no/such/file.xml", below_plain = plain + "/file.xml", name_too_long = dir + "/" + std::string(5000, 'n');
    spit(plain, "<plain/>");
    symlink(link.c_str(), link.c_str());
  }
  ~Places7() {
    unlink(plain.c_str());
    unlink(link.c_str());
    rmdir(dir.c_str());
  }
  std::string bad(Rng &g) const {
    const std::string *p[] = {&dir, &link, &missing, &below_plain, &name_too_long, &none};
    return *p[g.below(6)];
  }
};
void x07_save(Ctx &c, Rng &g, TiXmlDocument &doc) {
  Places7 w(c.scratch);
  // all of it, by Print
  char *mem = nullptr;
  size_t len = 0;
  FILE *m = open_memstream(&mem, &len);
  doc.Print(m, 0);
  fclose(m);
  const std::string whole(mem, len);
  free(mem);
  const std::string tree = show_all(read_doc(doc));
  for (int n = 0; n < 6; ++n) {
    std::string what;
    bool said = false, complete = false;
    int how = int(g.below(6));
    if (how <= 1) { // a stream
      Faulty f;
      switch (g.below(5)) {
      case 0: break;
      case 1: f.good = 0; break;
      case 2: f.good = g.below(std::min<size_t>(whole.size(), 8) + 1); break;
      case 3: f.good = whole.size() + 3 - std::min<size_t>(whole.size(), g.below(8)); break;
      default: f.good = g.below(whole.size() + 8);
      }
      f.err = g.pick(std::vector<int>{EIO, ENOSPC, EDQUOT, EPIPE, EFBIG});
      FILE *fp = open_faulty(f, g, "w");
      what = cat("SaveFile to a stream that takes ", f.good == SIZE_MAX ? -1 : long(f.good), " bytes of ", whole.size());
      c.log(what);
      said = doc.SaveFile(fp);
      fclose(fp);
      complete = without_mark(f.data) == whole && !f.faults;
      c.check(f.faults == 0 || !said, "save-claims-success", what + ": returns true");
      c.count(f.faults ? "writes_failed" : "streams_saved");
      c.maxi("writes", f.calls);
    } else if (how == 2) { // a place that cannot be written
      std::string p = g.chance(0.3) && access("/dev/full", W_OK) == 0 ? "/dev/full" : w.bad(g);
      what = "SaveFile to " + p.substr(0, 200);
      c.log(what);
      if (g.chance(0.3)) {
        doc.SetValue(p.c_str());
        said = doc.SaveFile();
      } else
        said = g.chance(0.5) ? doc.SaveFile(p) : doc.SaveFile(p.c_str());
      complete = false;
      c.count(p == "/dev/full" ? "saves_to_full_device" : "saves_to_bad_places");
    } else { // a file
      std::string p = w.dir + "/out.xml";
      if (g.chance(0.5))
        spit(p, std::string(g.below(2 * whole.size() + 100), 'o'));
      size_t limit = SIZE_MAX;
      if (how == 3)
        limit = g.chance(0.5) ? g.below(whole.size() + 4) : whole.size() + g.below(8);
      what = cat("SaveFile of ", whole.size(), " bytes to a file that may have ", long(limit));
      c.log(what);
      {
        std::unique_ptr<SizeLimit> l(limit == SIZE_MAX ? nullptr : new SizeLimit(limit));
        switch (g.below(3)) {
        case 0: said = doc.SaveFile(p); break;
        case 1: said = doc.SaveFile(p.c_str()); break;
        default: {
          doc.SetValue(p);
          said = doc.SaveFile();
        }
        }
      }
      std::string is = slurp(p);
      complete = without_mark(is) == whole;
      c.count(complete ? "files_saved" : "files_cut_off");
      if (said && complete && !tree.empty() && g.chance(0.3)) {
        TiXmlDocument back;
        bool ok = back.LoadFile(p);
        TiXmlDocument par;
        par.Parse(norm(is).c_str());
        c.check(ok == !par.Error() && show_all(read_doc(par)) == show_all(read_doc(back)), "save-load", what + ": loading it again gives something else");
      }
      unlink(p.c_str());
    }
    ++c.evaluations;
    c.check(said == complete, said ? "save-claims-success" : "save-claims-failure", cat(what, ": returns ", said, ", although it has ", complete ? "all" : "not all", " been written"));
    files_closed(c, what);
    c.check(show_all(read_doc(doc)) == tree && !doc.Error(), "saving-changes", what + ": the document is changed");
  }
}
void x07_load(Ctx &c, Rng &g, const std::string &text) {
  Places7 w(c.scratch);
  TiXmlDocument doc;
  for (int n = 0; n < 6; ++n) {
    if (g.chance(0.3)) {
      doc.Clear();
      doc.ClearError();
    } else if (g.chance(0.2))
      doc.Parse("<a><b"); // an error that is there already
    std::string what;
    bool said = false, failed = true;
    TiXmlEncoding enc = g.chance(0.3) ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_UNKNOWN;
    std::string given = text;
    if (g.chance(0.1))
      given = g.chance(0.3) ? "" : text.substr(0, g.below(text.size() + 1));
    int how = int(g.below(5));
    if (how <= 2) {
      Faulty f;
      f.data = given;
      if (g.chance(0.5))
        f.piece = g.chance(0.3) ? 1 : size_t(1) << g.range(1, 13);
      switch (g.below(6)) {
      case 0: f.good = g.below(given.size() + 1); break;
      case 1: f.good = given.size() - std::min<size_t>(given.size(), 1 + g.below(4)); break;
      case 2: f.claimed = long(given.size()) + g.range(1, 5000); break;
      case 3: f.seekable = false; break;
      }
      f.eof = g.chance(0.4);
      f.err = g.pick(std::vector<int>{EIO, EISDIR, EAGAIN, EINVAL});
      FILE *fp = open_faulty(f, g, "r");
      const bool whole_given = f.good >= given.size() && f.claimed < 0 && f.seekable && !given.empty();
      if (f.seekable && g.chance(0.3)) // it does not matter where the stream stands
        fseek(fp, long(g.below(given.size() + 1)), SEEK_SET);
      what = cat("LoadFile from a stream of ", given.size(), " bytes that gives ", f.good == SIZE_MAX ? -1 : long(f.good), ", claims ", f.claimed, f.seekable ? "" : ", cannot seek");
      c.log(what);
      said = doc.LoadFile(fp, enc);
      fclose(fp);
      failed = !whole_given;
      c.count(failed ? (f.seekable ? "reads_failed" : "not_seekable") : f.piece != SIZE_MAX ? "read_in_pieces" : "read_in_full");
      c.maxi("reads", f.calls);
    } else if (how == 3) {
      std::string p = w.bad(g);
      what = "LoadFile of " + p.substr(0, 200);
      c.log(what);
      switch (g.below(3)) {
      case 0: said = doc.LoadFile(p, enc); break;
      case 1: said = doc.LoadFile(p.c_str(), enc); break;
      default: doc.SetValue(p); said = doc.LoadFile(enc);
      }
      c.count("loads_from_bad_places");
    } else {
      std::string p = w.dir + "/in.xml";
      spit(p, given);
      what = cat("LoadFile of ", given.size(), " bytes");
      c.log(what);
      switch (g.below(3)) {
      case 0: said = doc.LoadFile(p, enc); break;
      case 1: said = doc.LoadFile(p.c_str(), enc); break;
      default: doc.SetValue(p); said = doc.LoadFile(enc);
      }
      unlink(p.c_str());
      failed = given.empty();
      c.count("files_loaded");
    }
    ++c.evaluations;
    files_closed(c, what);
    if (failed) {
      must_have_failed(c, said, doc, what);
      if (g.chance(0.5)) // still good for something
        use_document(c, doc);
    } else {
      TiXmlDocument ref;
      ref.Parse(norm(given.c_str()).c_str(), 0, enc);
      c.check(said == !ref.Error() && doc.Error() == ref.Error() && doc.ErrorId() == ref.ErrorId() && doc.ErrorRow() == ref.ErrorRow() && doc.ErrorCol() == ref.ErrorCol(), "load-differs",
              cat(what, ": returns ", said, " with error ", doc.ErrorId(), ", parsing the same gives error ", ref.ErrorId()));
      std::string a = show_all(read_doc(ref)), b = show_all(read_doc(doc));
      c.check(a == b, "load-differs", what + ": " + first_difference(a, b));
      c.count(ref.Error() ? "loaded_malformed" : "loaded");
    }
  }
}
void x07_urdf(Ctx &c, Rng &g) {
  Places7 w(c.scratch);
  int n = g.range(1, 6);
  std::string t = "<robot name='r'>";
  for (int i = 0; i < n; ++i) {
    t += cat("<link name='l", i, "'/>\n");
    if (g.chance(0.05))
      t += "<!--" + std::string(long_length(g), 'c') + "-->";
    if (i)
      t += cat("<joint name='j", i, "' type='continuous'><parent link='l", g.below(size_t(i)), "'/><child link='l", i, "'/></joint>");
  }
  t += "</robot>";
  std::string p = w.dir + "/r.urdf", what;
  bool bad = true;
  switch (g.below(4)) {
  case 0: what = "a whole description", bad = false, spit(p, t); break;
  case 1: {
    size_t k = g.below(t.size());
    if (g.chance(0.3))
      k = g.chance(0.5) ? 0 : t.size() - 1;
    what = cat("a description cut off after ", k, " bytes of ", t.size());
    spit(p, t.substr(0, k));
    break;
  }
  default: p = w.bad(g), what = p.substr(0, 200);
  }
  c.log(what);
  ++c.evaluations;
  try {
    auto m = urdf::parseURDFFile(p);
    c.check((m == nullptr) == bad, bad ? "failure-not-reported" : "load-differs", "parseURDFFile of " + what + (bad ? ": a model is returned" : ": no model is returned"));
    c.check(!m || m->links_.size() == size_t(n), "load-differs", "parseURDFFile of " + what + ": links are missing");
  } catch (const std::exception &e) {
    c.fail("load-throws", "parseURDFFile of " + what + " throws " + e.what());
  }
  bool threw = false;
  size_t links = 0;
  try {
    tinyfk::KinematicModel k(tinyfk::load_urdf(p));
    links = k.get_link_names().size();
  } catch (const std::exception &) {
    threw = true;
  }
  c.check(threw == bad && (bad || links == size_t(n)), bad ? "failure-not-reported" : "load-differs", "a model of " + what + (threw ? " cannot be made" : cat(" is made, with ", links, " links")));
  files_closed(c, what);
  c.count(bad ? "bad_descriptions" : "good_descriptions");
  unlink((w.dir + "/r.urdf").c_str());
}
void x07(Ctx &c) {
  Rng g(c.case_seed);
  Spell sp;
  sp.g = &g;
  int mode = int(g.below(4));
  sp.utf8 = mode != 0;
  sp.condense = true;
  Condense w(true);
  Doc d = make_doc(sp, mode);
  std::string text = d.text;
  if (g.chance(0.15) && d.root_end) // more than one buffer of it
    text += "<!--" + std::string(size_t(1) << g.range(9, 17), 'c') + std::string(g.below(9), 'd') + "-->";
  else if (g.chance(0.2) && d.root_end) { // next to whole blocks
    size_t block = size_t(1) << g.range(8, 16);
    size_t n = (text.size() / block + 1) * block + size_t(g.range(-1, 1));
    while (n < text.size() + 7)
      n += block;
    text += "<!--" + std::string(n - text.size() - 7, 'b') + "-->";
    c.count("sizes_near_blocks");
  }
  c.log(text);
  TiXmlDocument doc;
  doc.Parse(text.c_str());
  c.check(!doc.Error(), "well-formed-rejected", "a well-formed document is rejected: " + printable(text));
  x07_save(c, g, doc);
  x07_load(c, g, text);
  x07_urdf(c, g);
  c.nontrivial(hash_str(c.note));
  c.sample(printable(c.note));
}
Register r1("X01", x01, "nodes compared with the generated content; distinct: different document texts");
Register r2("X02", x02, "nodes compared after printing and parsing, by five ways of printing; distinct: different built documents");
Register r3("X03", x03, "nodes whose content, links and lookups were compared with the model after an edit; distinct: different trees at the end of an edit sequence");
Register r4("X04", x04, "parses of corrupted, mutated and random documents; distinct: different corrupted documents that had to be rejected", {x04_prolog, x04_prefixes, x04_big});
Register r5("X05", x05, "documents and single nodes read from streams, every one compared with parsing the bytes taken; distinct: different stream contents", {x05_delimiters, x05_big});
Register r6("X06", x06, "nodes, attributes and faults whose row and column were compared with those of their first byte; distinct: different documents");
Register r7("X07", x07, "attempts to write or read a file, good ones and ones with a fault; distinct: different documents and sequences of attempts");
} // namespace
