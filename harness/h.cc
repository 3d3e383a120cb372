#include "h.h"
namespace h {
char* cur_buf; long evals; int fails; uint64_t rng_state = 88172645463325252ULL; int tier;
static std::string section;
static std::set<std::string> seen;
std::string q(const std::string& s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += c;
    if (o.size() > 600) { o += "...(" ; char b[32]; snprintf(b, sizeof b, "%zu bytes)", s.size()); o += b; break; }
  }
  return o + "\"";
}
std::string f(const char* fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
void cur(const std::string& w) {
  size_t n = std::min<size_t>(w.size(), 8000);
  memcpy(cur_buf, w.data(), n); cur_buf[n] = 0;
}
void fail(const std::string& w) {
  ++fails;
  std::string key = w.substr(0, 60);
  if (seen.size() < 40 && seen.insert(key).second) { printf("FAIL %s: %s | input: %s\n", section.c_str(), w.c_str(), cur_buf); fflush(stdout); }
}
std::map<std::string, Section>& sections() { static std::map<std::string, Section> m; return m; }
Reg::Reg(const char* n, Section s) { sections()[n] = s; }

struct P {
  const std::string& s; size_t i; std::string err;
  explicit P(const std::string& x) : s(x), i(0) {}
  bool e(const char* m) { if (err.empty()) { err = m; err += f(" at byte %zu", i); } return false; }
  bool at(const char* t) { return s.compare(i, strlen(t), t) == 0; }
  void ws() { while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) ++i; }
  static bool nch(unsigned char c, bool first) { return isalpha(c) || c == '_' || c == ':' || c > 127 || (!first && (isdigit(c) || c == '-' || c == '.')); }
  bool name(std::string* o) { size_t b = i; while (i < s.size() && nch(s[i], i == b)) ++i; if (i == b) return e("name expected"); *o = s.substr(b, i - b); return true; }
  bool ent(std::string* o) {
    size_t e2 = s.find(';', i);
    if (e2 == std::string::npos || e2 - i > 12) return e("bare ampersand");
    std::string n = s.substr(i + 1, e2 - i - 1);
    if (n == "amp") *o += '&'; else if (n == "lt") *o += '<'; else if (n == "gt") *o += '>'; else if (n == "quot") *o += '"'; else if (n == "apos") *o += '\'';
    else if (n.size() > 1 && n[0] == '#') { long c = n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : atol(n.c_str() + 1); if (c < 128) *o += (char)c; else *o += "?"; }
    else return e("unknown entity");
    i = e2 + 1; return true;
  }
  bool misc() {
    for (;;) {
      ws();
      if (at("<?")) { size_t x = s.find("?>", i); if (x == std::string::npos) return e("bad PI"); i = x + 2; }
      else if (at("<!--")) { size_t x = s.find("-->", i); if (x == std::string::npos) return e("bad comment"); i = x + 3; }
      else return true;
    }
  }
  bool elem(Node* n, int depth) {
    if (depth > 5000) return e("too deep");
    if (!at("<")) return e("'<' expected");
    ++i;
    if (!name(&n->name)) return false;
    for (;;) {
      size_t b = i; ws();
      if (at("/>")) { i += 2; return true; }
      if (at(">")) { ++i; break; }
      if (b == i) return e("space expected");
      std::string an, av;
      if (!name(&an)) return false;
      ws(); if (!at("=")) return e("'=' expected"); ++i; ws();
      if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) return e("quote expected");
      char qc = s[i++];
      while (i < s.size() && s[i] != qc) { if (s[i] == '<') return e("'<' in attribute value"); if (s[i] == '&') { if (!ent(&av)) return false; } else { av += strchr("\t\n\r", s[i]) && s[i] ? ' ' : s[i]; ++i; } }
      if (i >= s.size()) return e("unterminated attribute"); ++i;
      if (n->attr(an)) return e("duplicate attribute");
      n->attrs.push_back(std::make_pair(an, av));
    }
    for (;;) {
      if (i >= s.size()) return e("unterminated element");
      if (at("</")) {
        i += 2; std::string c; if (!name(&c)) return false; if (c != n->name) return e("mismatched end tag");
        ws(); if (!at(">")) return e("'>' expected"); ++i; return true;
      }
      if (at("<![CDATA[")) { size_t x = s.find("]]>", i); if (x == std::string::npos) return e("unterminated CDATA"); n->text += s.substr(i + 9, x - i - 9); i = x + 3; continue; }
      if (at("<!--")) { size_t x = s.find("-->", i); if (x == std::string::npos) return e("bad comment"); i = x + 3; continue; }
      if (at("<?")) { size_t x = s.find("?>", i); if (x == std::string::npos) return e("bad PI"); i = x + 2; continue; }
      if (at("]]>")) return e("']]>' in character data");
      if (s[i] == '<') { Node k; if (!elem(&k, depth + 1)) return false; n->kids.push_back(k); continue; }
      if (s[i] == '&') { if (!ent(&n->text)) return false; continue; }
      n->text += s[i++];
    }
  }
};
Node xml(const std::string& s) {
  Node n; P p(s);
  n.ok = p.misc() && p.elem(&n, 0) && p.misc() && (p.i == s.size() || p.e("trailing content"));
  n.err = p.err; return n;
}
static void on_alarm(int) { printf("HANG %s | input: %s\n", section.c_str(), cur_buf); fflush(stdout); _exit(3); }
}
int main(int argc, char** argv) {
  using namespace h;
  int fd = open("cur.txt", O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (ftruncate(fd, 16384)) return 4;
  cur_buf = (char*)mmap(0, 16384, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  const char* sd = getenv("VERIF_SEED");
  tier = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  signal(SIGALRM, on_alarm);
  for (int i = 1; i < argc; ++i) {
    section = argv[i];
    if (!sections().count(section)) { printf("NOSECTION %s\n", argv[i]); return 4; }
    rng_state = 88172645463325252ULL ^ ((sd ? atoll(sd) : 1) * 7919ULL);
    for (int k = 0; k < 8; ++k) rnd();
    alarm(tier ? 300 : 90);
    cur("(start)");
    sections()[section]();
    alarm(0);
    printf("DONE %s\n", argv[i]); fflush(stdout);
  }
  printf("EVALS %ld\n", evals);
  fflush(stdout);
  _exit(fails ? 1 : 0);
}
