// Concrete companion of the contracts on base: colours, boxes, dates, caches, attributes, strings, CSV.
#include "h.h"
#include <time.h>
#include "kml/base/color32.h"
#include "kml/base/date_time.h"
#include "kml/base/net_cache.h"
#include "kml/base/attributes.h"
#include "kml/base/string_util.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/referent.h"
#include "kml/base/vec3.h"
#include "kml/engine/bbox.h"
using namespace h;
using namespace kmlbase;
using std::string;
using std::vector;
using std::map;

// ------------------------------------------------------------------ colours
static uint32_t want_color(const string& s) {
  size_t i = 0;
  while (i < s.size() && strchr(" \t\n\v\f\r", s[i]) && s[i]) ++i;
  if (i < s.size() && s[i] == '#') ++i;
  uint32_t v = 0;
  for (size_t n = 0; n < 8 && i < s.size(); ++n, ++i) {
    char c = s[i];
    v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0);
  }
  return v;
}
static void color_text(const string& t) {
  cur("Color32(" + q(t) + ")");
  check(Color32(t).get_color_abgr() == want_color(t), f("text %s reads as %08x, should be %08x", q(t).c_str(), Color32(t).get_color_abgr(), want_color(t)));
  Color32 c((uint32_t)rnd());
  c.set_color_abgr(t);
  check(c.get_color_abgr() == want_color(t), f("text %s set on an existing colour reads as %08x, should be %08x", q(t).c_str(), c.get_color_abgr(), want_color(t)));
}
static uint32_t rcolor() { static const uint32_t t[] = {0, 0xffffffff, 0x80000000, 1, 0x7f, 0x80, 0xff00, 0x00ff0000, 0x0badf00d, 0xdeadbeef, 0x12345678, 0x01020304, 0xa0b0c0d0}; return rint_(3) ? (uint32_t)rnd() : t[rint_(13)]; }
SECTION(color) {
  static const char* fixed[] = {"", " ", "#", " #", "ff", "#ff", "ff112233", "FF112233", "#ff112233", "  #ff112233  ", "ff112233ff", "\t\nff112233", "0", "f", "#f", "zz112233", "ff 11 22 33", "# ff112233", "##ff112233", "12345678", "abcdefab", "ABCDEFAB", "ff11223", "\v\f\rff112233", "ffg11h22", "@GZ[`{/:"};
  for (size_t i = 0; i < sizeof fixed / sizeof *fixed; ++i) color_text(fixed[i]);
  static const char al[] = "0123456789abcdefABCDEFgG #\t\nxz/:@`";
  for (int i = 0; i < (tier ? 200000 : 20000); ++i) {
    string t;
    int n = rint_(14);
    for (int k = 0; k < n; ++k) t += al[rint_(rint_(4) ? 22 : sizeof al - 1)];
    color_text(t);
  }
  for (int i = 0; i < (tier ? 500000 : 50000); ++i) {
    uint32_t v = rcolor(), o = rcolor();
    cur(f("colour %08x (with %08x)", v, o));
    Color32 c(v), d(o);
    uint32_t a = v >> 24, b = v >> 16 & 255, g = v >> 8 & 255, r = v & 255;
    check(c.get_color_abgr() == v && Color32((int32_t)v).get_color_abgr() == v && Color32((unsigned char)a, (unsigned char)b, (unsigned char)g, (unsigned char)r).get_color_abgr() == v, f("colour %08x is kept", v));
    check(c.get_alpha() == a && c.get_blue() == b && c.get_green() == g && c.get_red() == r, f("%08x: channels %02x %02x %02x %02x", v, c.get_alpha(), c.get_blue(), c.get_green(), c.get_red()));
    uint32_t argb = a << 24 | r << 16 | g << 8 | b;
    check(c.get_color_argb() == argb, f("%08x: argb %08x", v, c.get_color_argb()));
    check(c.to_string_abgr() == f("%08x", v), f("%08x: written %s", v, c.to_string_abgr().c_str()));
    check(c.to_string_argb() == f("%08x", argb), f("%08x: written as argb %s", v, c.to_string_argb().c_str()));
    check(Color32(c.to_string_abgr()) == c, f("%08x: written and read back", v));
    d.set_color_argb(argb);
    check(d.get_color_abgr() == v, f("set_color_argb(%08x) gives %08x", argb, d.get_color_abgr()));
    Color32 e(o);
    e.set_color_abgr((unsigned char)a, (unsigned char)b, (unsigned char)g, (unsigned char)r);
    check(e.get_color_abgr() == v, f("set_color_abgr of four channels gives %08x, should be %08x", e.get_color_abgr(), v));
    e = Color32(o); e.set_color_abgr(v);
    check(e.get_color_abgr() == v, "set_color_abgr");
    uint32_t x = (uint32_t)rint_(256);
    e = Color32(v); e.set_alpha(x); check(e.get_color_abgr() == ((v & 0x00ffffff) | x << 24), f("%08x: set_alpha(%02x) gives %08x", v, x, e.get_color_abgr()));
    e = Color32(v); e.set_blue(x); check(e.get_color_abgr() == ((v & 0xff00ffff) | x << 16), f("%08x: set_blue(%02x) gives %08x", v, x, e.get_color_abgr()));
    e = Color32(v); e.set_green(x); check(e.get_color_abgr() == ((v & 0xffff00ff) | x << 8), f("%08x: set_green(%02x) gives %08x", v, x, e.get_color_abgr()));
    e = Color32(v); e.set_red(x); check(e.get_color_abgr() == ((v & 0xffffff00) | x), f("%08x: set_red(%02x) gives %08x", v, x, e.get_color_abgr()));
    Color32 z(o);
    check((c == z) == (v == o) && (c != z) == (v != o) && (c < z) == (v < o) && (c > z) == (v > o), f("comparing %08x and %08x", v, o));
    z = v; check(z.get_color_abgr() == v, "assigned from unsigned");
    z = Color32(o); z = (int32_t)v; check(z.get_color_abgr() == v, "assigned from int");
    z = Color32(o); z = c; check(z.get_color_abgr() == v && c.get_color_abgr() == v, "assigned from colour");
  }
  check(Color32().get_color_abgr() == 0xffffffff, "a new colour is opaque white");
}

// ------------------------------------------------------------------ boxes
typedef kmlengine::Bbox Bbox;
static double rco(double m) {
  switch (rint_(6)) {
    case 0: return 0;
    case 1: { static const double t[] = {-180, 180, -90, 90, 45, -45, 1, -1, 0.5, -0.0, 179.999, -179.999, 22.5, 11.25}; return t[rint_(14)]; }
    case 2: return rint_(360) - 180;
    default: return (rnd() % 1000003) / 1000003.0 * 2 * m - m;
  }
}
static string bs(const Bbox& b) { return f("n=%.17g s=%.17g e=%.17g w=%.17g", b.get_north(), b.get_south(), b.get_east(), b.get_west()); }
static bool beq(const Bbox& b, double n, double s, double e, double w) { return b.get_north() == n && b.get_south() == s && b.get_east() == e && b.get_west() == w; }
SECTION(bbox) {
  { Bbox b; cur("new box"); check(!b.Contains(0, 0) && !b.Contains(90, 180) && !b.Contains(-90, -180) && !b.Contains(180, 180) && !b.Contains(-180, -180), "a new box contains nothing"); }
  for (int it = 0; it < (tier ? 200000 : 20000); ++it) {
    double n = rco(90), s = rco(90), e = rco(180), w = rco(180);
    if (rint_(4)) { if (n < s) std::swap(n, s); if (e < w) std::swap(e, w); }
    Bbox b(n, s, e, w);
    cur("box " + bs(b));
    check(beq(b, n, s, e, w), "sides as given");
    double x = rco(180);
    { Bbox c(b); c.set_north(x); check(beq(c, x, s, e, w), f("set_north(%g): %s", x, bs(c).c_str())); }
    { Bbox c(b); c.set_south(x); check(beq(c, n, x, e, w), f("set_south(%g): %s", x, bs(c).c_str())); }
    { Bbox c(b); c.set_east(x); check(beq(c, n, s, x, w), f("set_east(%g): %s", x, bs(c).c_str())); }
    { Bbox c(b); c.set_west(x); check(beq(c, n, s, e, x), f("set_west(%g): %s", x, bs(c).c_str())); }
    double la = rint_(4) ? rco(90) : rint_(2) ? n : s, lo = rint_(4) ? rco(180) : rint_(2) ? e : w;
    check(b.Contains(la, lo) == (la <= n && la >= s && lo <= e && lo >= w), f("%s contains %g,%g", bs(b).c_str(), la, lo));
    { Bbox c(b); c.ExpandLatLon(la, lo); check(beq(c, std::max(n, la), std::min(s, la), std::max(e, lo), std::min(w, lo)), f("%s grown to %g,%g: %s", bs(b).c_str(), la, lo, bs(c).c_str())); }
    { Bbox c(b); c.ExpandLatitude(la); check(beq(c, std::max(n, la), std::min(s, la), e, w), f("%s grown to latitude %g: %s", bs(b).c_str(), la, bs(c).c_str())); }
    { Bbox c(b); c.ExpandLongitude(lo); check(beq(c, n, s, std::max(e, lo), std::min(w, lo)), f("%s grown to longitude %g: %s", bs(b).c_str(), lo, bs(c).c_str())); }
    { Bbox c; c.ExpandLatLon(la, lo); check(beq(c, la, la, lo, lo), f("new box grown to %g,%g: %s", la, lo, bs(c).c_str())); }
    double n2 = rint_(3) ? rco(90) : n, s2 = rint_(3) ? rco(90) : s, e2 = rint_(3) ? rco(180) : e, w2 = rint_(3) ? rco(180) : w;
    if (n2 < s2) std::swap(n2, s2);
    if (e2 < w2) std::swap(e2, w2);
    Bbox o(n2, s2, e2, w2);
    { Bbox c(b); c.ExpandFromBbox(o); check(beq(c, std::max(n, n2), std::min(s, s2), std::max(e, e2), std::min(w, w2)) && beq(o, n2, s2, e2, w2), f("%s joined with %s: %s", bs(b).c_str(), bs(o).c_str(), bs(c).c_str())); }
    bool in = n <= n2 && s >= s2 && e <= e2 && w >= w2;
    check(b.ContainedByBbox(o) == in && b.ContainedByBox(n2, s2, e2, w2) == in, f("%s inside %s", bs(b).c_str(), bs(o).c_str()));
    double cla = 77, clo = 78;
    b.GetCenter(&cla, &clo);
    check(cla == (n + s) / 2 && clo == (e + w) / 2 && b.GetCenterLat() == cla && b.GetCenterLon() == clo, f("centre of %s: %g,%g", bs(b).c_str(), cla, clo));
    double one = 5; b.GetCenter(&one, NULL); check(one == cla, "centre latitude alone");
    one = 5; b.GetCenter(NULL, &one); check(one == clo, "centre longitude alone");
    b.GetCenter(NULL, NULL);
    // AlignBbox: the oracle descends the quad tree
    { int depth = rint_(5) ? rint_(25) : 24; if (n < s) std::swap(n, s); if (e < w) std::swap(e, w);
      if (rint_(2)) { n = s + (n - s) / (1 << rint_(20)); e = w + (e - w) / (1 << rint_(20)); }
      Bbox t(n, s, e, w), qd(180, -180, 180, -180);
      double N = 180, S = -180, E = 180, W = -180;
      for (int k = 0; k <= depth; ++k) {
        double my = (N + S) / 2, mx = (E + W) / 2;
        bool north = s >= my && n <= N, south = n <= my && s >= S, east = w >= mx && e <= E, west = e <= mx && w >= W;
        if (!((north || south) && (east || west))) break;
        if (north) S = my; else N = my;
        if (east) W = mx; else E = mx;
      }
      cur(f("align %s depth %d", bs(t).c_str(), depth));
      t.AlignBbox(&qd, depth);
      check(beq(qd, N, S, E, W), f("aligned %s to depth %d: %s, should be n=%.17g s=%.17g e=%.17g w=%.17g", bs(t).c_str(), depth, bs(qd).c_str(), N, S, E, W)); }
  }
}

// ------------------------------------------------------------------ dates
SECTION(datetime) {
  for (int it = 0; it < (tier ? 100000 : 12000); ++it) {
    int y = rint_(3) ? 1900 + rint_(250) : 1000 + rint_(9000), mo = 1 + rint_(12), d = 1 + rint_(28 + rint_(4)), H = rint_(24), M = rint_(60), S = rint_(60);
    if (!rint_(6)) { static const int ys[] = {1970, 1969, 1971, 1972, 1999, 2000, 2001, 2100, 2400, 1900, 2038, 2004, 1600}; y = ys[rint_(13)]; }
    if (!rint_(6)) { mo = rint_(2) ? 2 : 12; d = 28; if (rint_(2)) { H = 23; M = S = 59; } }
    static const int nd[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int mx = nd[mo - 1] + (mo == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)));
    if (d > mx) d = mx;
    string t = f("%04d-%02d-%02dT%02d:%02d:%02dZ", y, mo, d, H, M, S);
    cur("DateTime " + t);
    DateTime* dt = DateTime::Create(t);
    check(dt != NULL, t + " is a date");
    if (!dt) continue;
    // days from civil (proleptic Gregorian), independent of libc
    long yy = mo <= 2 ? y - 1 : y, era = yy / 400, yoe = yy - era * 400, doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    long days = era * 146097 + doe - 719468, want = ((days * 24 + H) * 60 + M) * 60 + S;
    check(dt->GetTimeT() == want, f("%s is %ld seconds after the epoch, should be %ld", t.c_str(), (long)dt->GetTimeT(), want));
    check(DateTime::ToTimeT(t) == want, f("ToTimeT(%s) = %ld, should be %ld", t.c_str(), (long)DateTime::ToTimeT(t), want));
    check(dt->GetXsdDate() == t.substr(0, 10), t + ": date " + q(dt->GetXsdDate()));
    check(dt->GetXsdTime() == t.substr(11, 8), t + ": time " + q(dt->GetXsdTime()));
    check(dt->GetXsdDateTime() == t, t + ": written " + q(dt->GetXsdDateTime()));
    delete dt;
    // broken texts
    string bad = t;
    switch (rint_(6)) {
      case 0: bad[rint_(4)] = 'x'; break;
      case 1: bad = bad.substr(0, rint_(19)); break;
      case 2: bad[10] = '_'; break;
      case 3: bad[5] = '2'; break;      // month 2x
      case 4: bad[8] = '4'; break;      // day 4x
      case 5: bad[14] = '7'; break;     // minute 7x
    }
    cur("DateTime " + bad);
    DateTime* b = DateTime::Create(bad);
    check(!b, bad + " is not a date");
    delete b;
    check(DateTime::ToTimeT(bad) == 0, bad + " has no time");
  }
}

// ------------------------------------------------------------------ cache
struct Item : public Referent {
  string data; static int live; static int made;
  Item(const string& d) : data(d) { ++live; ++made; }
  ~Item() { --live; }
  static Item* CreateFromString(const string& d) { return d == "bad" ? NULL : new Item(d); }   // data may make no item
};
int Item::live, Item::made;
struct Net : public NetFetcher {
  mutable int calls;
  Net() : calls(0) {}
  bool FetchUrl(const string& url, string* data) const { ++calls; if (url[0] == 'x') return false; if (url[0] == 'b') { *data = "bad"; return true; } *data = "data of " + url; return true; }
};
typedef boost::intrusive_ptr<Item> ItemPtr;
SECTION(netcache) {
  for (int it = 0; it < (tier ? 6000 : 600); ++it) {
    size_t max = it % 7 ? 1 + rint_(5) : 1 + rint_(12);
    string hist = f("cache of %d:", (int)max);
    Net net;
    {
      NetCache<Item> c(&net, max);
      vector<std::pair<string, Item*> > m;      // oldest first
      vector<ItemPtr> held;
      for (int op = 0; op < 60; ++op) {
        string u = f("%c%d", rint_(8) ? 'u' : rint_(2) ? 'x' : 'b', rint_((int)max + 3));
        size_t at = 0; while (at < m.size() && m[at].first != u) ++at;
        bool in = at < m.size();
        int k = rint_(10);
        if (k < 5) {
          hist += " fetch " + u; cur(hist);
          int calls = net.calls;
          ItemPtr p = c.Fetch(u);
          if (in) check(p.get() == m[at].second && net.calls == calls, hist + ": the cached item, without a fetch");
          else if (u[0] != 'u') check(!p && net.calls == calls + 1, hist + ": a failed fetch gives nothing");
          else {
            check(p && p->data == "data of " + u && net.calls == calls + 1, hist + ": fetched");
            if (m.size() == max) m.erase(m.begin());
            m.push_back(std::make_pair(u, p.get()));
          }
          if (p && rint_(2)) held.push_back(p);
        } else if (k < 7) {
          hist += " save " + u; cur(hist);
          ItemPtr p = new Item("s" + u);
          bool r = c.Save(u, p);
          check(r == !in, hist + ": saved unless there already");
          if (r && !in) { if (m.size() == max) m.erase(m.begin()); m.push_back(std::make_pair(u, p.get())); }
        } else if (k < 8) {
          hist += " delete " + u; cur(hist);
          check(c.Delete(u) == in, hist + ": deleted if there");
          if (in) m.erase(m.begin() + at);
        } else if (k < 9) {
          hist += " removeoldest"; cur(hist);
          check(c.RemoveOldest() == !m.empty(), hist + ": removed if any");
          if (!m.empty()) m.erase(m.begin());
        }
        check(c.Size() == m.size() && m.size() <= max, f("%s: size %d, should be %d", hist.c_str(), (int)c.Size(), (int)m.size()));
        for (size_t i = 0; i < m.size(); ++i) check(c.LookUp(m[i].first).get() == m[i].second, hist + ": " + m[i].first + " is in the cache");
        for (int i = 0; i < (int)max + 3; ++i) { string v = f("u%d", i); size_t j = 0; while (j < m.size() && m[j].first != v) ++j; if (j == m.size()) check(!c.LookUp(v), hist + ": " + v + " is not in the cache"); }
        std::set<Item*> alive; for (size_t i = 0; i < m.size(); ++i) alive.insert(m[i].second); for (size_t i = 0; i < held.size(); ++i) alive.insert(held[i].get());
        check(Item::live == (int)alive.size(), f("%s: %d items alive, %d are reachable", hist.c_str(), Item::live, (int)alive.size()));
        for (size_t i = 0; i < held.size(); ++i) check(held[i]->data.size() > 0, "held items stay valid");
      }
    }
    check(Item::live == 0, hist + ": nothing leaks");
  }
}

// ------------------------------------------------------------------ texts
static string rtext(const char* alphabet, int n) {
  string s;
  size_t m = strlen(alphabet);
  for (int i = rint_(n + 1); i > 0; --i) s += alphabet[rint_(m)];
  return s;
}
static string show(const vector<string>& v) {
  string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + q(v[i]);
  return s + "]";
}
static bool white(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static vector<string> want_split(const string& s, const string& sep) {
  vector<string> out(1);
  if (sep.empty()) { out[0] = s; return out; }
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, sep.size(), sep) == 0) { out.push_back(""); i += sep.size(); }
    else out.back() += s[i++];
  }
  return out;
}
static string want_replace(const string& s, const string& key, const string& val) {
  if (key.empty()) return s;
  string out;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, key.size(), key) == 0) { out += val; i += key.size(); }
    else out += s[i++];
  }
  return out;
}
// one line of separated values: a field is quoted ("" stands for ", what follows the closing quote is ignored) or trimmed
static vector<string> want_row(const string& s, char sep) {
  vector<string> out;
  size_t i = 0, n = s.size();
  while (i < n) {
    while (i < n && white(s[i]) && s[i] != sep) ++i;
    string v;
    if (sep == ',' && i < n && s[i] == '"') {
      for (++i; i < n; ++i) {
        if (s[i] == '"') { if (i + 1 < n && s[i + 1] == '"') ++i; else break; }
        v += s[i];
      }
      if (i < n) ++i;
      while (i < n && s[i] != sep) ++i;
    } else {
      while (i < n && s[i] != sep) v += s[i++];
      while (!v.empty() && white(v[v.size() - 1])) v.erase(v.size() - 1);
    }
    out.push_back(v);
    if (i == n - 1) out.push_back("");
    ++i;
  }
  return out;
}
static void strings_case() {
  static const char* seps[] = {",", "::", "ab", "aa", "a", "", "aba", " "};
  string s = rtext("ab:, ", 14), sep = seps[rint_(8)];
  cur("SplitStringUsing(" + q(s) + ", " + q(sep) + ")");
  vector<string> got(1, "before"), want = want_split(s, sep);
  SplitStringUsing(s, sep, &got);
  want.insert(want.begin(), "before");
  check(got == want, f("%s split at %s: %s, should be %s", q(s).c_str(), q(sep).c_str(), show(got).c_str(), show(want).c_str()));

  string t = rtext("ab", 4);
  if (!rint_(3) && s.size() > 3) t = s.substr(s.size() - 1 - rint_(3));
  cur("StringEndsWith(" + q(s) + ", " + q(t) + ")");
  bool e = !s.empty() && !t.empty() && t.size() <= s.size() && s.compare(s.size() - t.size(), string::npos, t) == 0;
  check(StringEndsWith(s, t) == e, f("%s ends with %s: %d", q(s).c_str(), q(t).c_str(), !e));

  StringMap m;
  for (int i = rint_(4); i > 0; --i) m[rtext("abk", 3)] = rtext("abk$[]", 4);
  static const char* st[] = {"$[", "", "&", "a"};
  static const char* en[] = {"]", "", ";", "b"};
  int w = rint_(4);
  string in = rtext("abk$[]&;", 6);
  for (StringMap::iterator i = m.begin(); i != m.end(); ++i) if (rint_(2)) in += st[w] + i->first + en[w] + rtext("ab", 2) + (rint_(2) ? st[w] + i->first + en[w] : "");
  string r = in;
  for (StringMap::iterator i = m.begin(); i != m.end(); ++i) r = want_replace(r, st[w] + i->first + en[w], i->second);
  cur("CreateExpandedStrings(" + q(in) + ")");
  check(CreateExpandedStrings(in, m, st[w], en[w]) == r, f("%s expanded (%zu keys, marks %s %s): %s, should be %s", q(in).c_str(), m.size(), st[w], en[w], q(CreateExpandedStrings(in, m, st[w], en[w])).c_str(), q(r).c_str()));

  string a = rtext("aAzZ@[`{19", 5), b = a;
  for (size_t i = 0; i < b.size(); ++i) if (rint_(2)) b[i] = isalpha(b[i]) ? b[i] ^ 32 : b[i];
  if (!rint_(3)) b = rtext("aAzZ@[`{19", 5);
  bool same = a.size() == b.size();
  for (size_t i = 0; same && i < a.size(); ++i) same = tolower(a[i]) == tolower(b[i]);
  cur("StringCaseEqual(" + q(a) + ", " + q(b) + ")");
  check(StringCaseEqual(a, b) == same, f("%s and %s the same but for case: %d", q(a).c_str(), q(b).c_str(), !same));

  string ws = rtext(" \t\n\r\v\f", 4), x = ws + rtext("tf1 ", 3);
  size_t k = 0;
  while (k < x.size() && white(x[k])) ++k;
  cur("SkipLeadingWhitespaceString(" + q(x) + ")");
  check(SkipLeadingWhitespaceString(x) == k, f("white space at the start of %s: %zu", q(x).c_str(), SkipLeadingWhitespaceString(x)));

  static const char* bools[] = {"true", "false", "1", "0", "", "tru", "TRUE", "01", "t", "10", "false1", "f true"};
  string bt = ws + bools[rint_(12)];
  bool bv = rint_(2);
  k = 0;
  while (k < bt.size() && white(bt[k])) ++k;
  bool bw = bt.compare(k, 4, "true") == 0 || bt.compare(k, 1, "1") == 0;
  cur("FromString(" + q(bt) + ", bool)");
  FromString(bt, &bv);
  check(bv == bw, f("%s as a boolean: %d", q(bt).c_str(), bv));
  bool back = !bw;
  FromString(ToString(bw), &back);
  check(back == bw, f("%d written and read: %d", bw, back));

  int iv = (int)rnd() >> rint_(31), ib = 77;
  cur(f("int %d", iv));
  FromString(ToString(iv), &ib);
  check(ib == iv, f("%d written and read: %d", iv, ib));
  FromString(ws + ToString(iv) + (rint_(2) ? " " : ""), &ib);
  check(ib == iv, f("%d read after white space: %d", iv, ib));
  FromString(string(), &ib);
  check(ib == 0, f("the empty text as a number: %d", ib));
  // decimal numbers of up to 15 digits keep their text
  string num = f("%s%d.%0*d%d", rint_(2) ? "-" : "", rint_(360), rint_(9), rint_(1000), 1 + rint_(9));
  double dv = 7, want_d = strtod(num.c_str(), NULL), db = 7;
  cur("number " + num);
  FromString(ws + num, &dv);
  check(dv == want_d, f("%s reads as %.17g", num.c_str(), dv));
  FromString(ToString(dv), &db);
  check(db == dv, f("%s written as %s", num.c_str(), ToString(dv).c_str()));
  double sd = 7;
  check(StringToDouble(num, &sd) && sd == want_d, f("StringToDouble(%s): %.17g", num.c_str(), sd));
  static const char* bad[] = {"", "-", ".", "-.", "x1", " 1", "+1", "--1", "-x"};
  string bd = bad[rint_(9)];
  cur("StringToDouble(" + q(bd) + ")");
  sd = 7;
  check(!StringToDouble(bd, &sd) && sd == 7 && !IsDecimalDoubleString(bd), f("%s taken for a number: %g", q(bd).c_str(), sd));
}
static void csv_case() {
  char sep = rint_(4) ? ',' : rint_(2) ? '|' : '\t';
  string s = rtext(sep == ',' ? "ab,,\"\" \t" : "ab|\t\" ", 12);
  cur(f("SplitQuotedUsing(%s, '%c')", q(s).c_str(), sep));
  vector<string> got(1, "before"), want = want_row(s, sep);
  want.insert(want.begin(), "before");
  SplitQuotedUsingFromString(s, sep, &got);
  check(got == want, f("line %s: %s, should be %s", q(s).c_str(), show(got).c_str(), show(want).c_str()));
  string all = rtext("ab,\"\n\n\r ", 24);
  // lines: maximal runs without line ends; a text starting with one has an empty first line; the empty text has one empty line
  vector<string> lines(1);
  for (size_t i = 0; i < all.size();) {
    if (all[i] == '\n' || all[i] == '\r') {
      while (i < all.size() && (all[i] == '\n' || all[i] == '\r')) ++i;
      if (i < all.size()) lines.push_back("");
    } else lines.back() += all[i++];
  }
  cur("CsvSplitter(" + q(all) + ")");
  CsvSplitter sp(all);
  size_t n = 0;
  for (; n < 100; ++n) {
    vector<string> c;
    if (!sp.SplitCurrentLine(&c)) break;
    check(n < lines.size(), f("%s has %zu lines, more were given", q(all).c_str(), lines.size()));
    if (n >= lines.size()) break;
    check(c == want_row(lines[n], ','), f("line %zu of %s: %s, should be %s", n, q(all).c_str(), show(c).c_str(), show(want_row(lines[n], ',')).c_str()));
  }
  check(n == lines.size(), f("%s has %zu lines, %zu were given", q(all).c_str(), lines.size(), n));
}
SECTION(strings) {
  for (int i = 0; i < (tier ? 400000 : 40000); ++i) { strings_case(); csv_case(); }
}

// ------------------------------------------------------------------ attributes
typedef map<string, string> Model;
static Model contents(const Attributes& a) {
  Model m;
  for (StringMapIterator i = a.CreateIterator(); !i.AtEnd(); i.Advance()) m[i.Data().first] = i.Data().second;
  return m;
}
static string show(const Model& m) {
  string s = "{";
  for (Model::const_iterator i = m.begin(); i != m.end(); ++i) s += q(i->first) + "=" + q(i->second) + " ";
  return s + "}";
}
static string rname() { static const char* t[] = {"a", "b", "id", "x:a", "x:b", "x:", "y:a", "x", "xy:a", "xmlns:gx", "xmlns", ":", ""}; return t[rint_(13)]; }
static void same(const Attributes& a, const Model& m, const string& what) {
  check(contents(a) == m && a.GetSize() == m.size(), what + ": " + show(contents(a)) + ", should be " + show(m));
}
static Attributes* rattrs(Model* m) {
  vector<string> v;
  for (int i = rint_(7); i > 0; --i) { v.push_back(rname()); v.push_back(rtext("abc", 2)); (*m)[v[v.size() - 2]] = v.back(); }
  if (!rint_(4)) v.push_back("odd");
  cur("Attributes::Create(" + show(v) + ")");
  Attributes* a;
  if (rint_(2)) {
    vector<const char*> p;
    for (size_t i = 0; i < v.size(); ++i) p.push_back(v[i].c_str());
    p.push_back(NULL);
    a = Attributes::Create(&p[0]);
  } else a = Attributes::Create(v);
  check(a != NULL, "no attributes made");
  same(*a, *m, "made of " + show(v));
  return a;
}
SECTION(attributes) {
  for (int i = 0; i < (tier ? 200000 : 20000); ++i) {
    Model m, o;
    Attributes* a = rattrs(&m);
    for (int n = rint_(12); n > 0; --n) {
      string k = rname(), v = rtext("abc", 2), got = "old";
      bool has = m.count(k);
      string was = has ? m[k] : "old";
      switch (rint_(8)) {
        case 0:
          cur("SetValue(" + k + ", " + v + ") on " + show(m));
          a->SetString(k, v); m[k] = v; break;
        case 1:
          cur("CutValue(" + k + ") on " + show(m));
          check(a->CutValue(k, &got) == has && got == was, "CutValue(" + k + ") on " + show(m) + " gives " + got);
          m.erase(k); break;
        case 2:
          cur("FindValue(" + k + ") on " + show(m));
          check(a->FindValue(k, &got) == has && got == was, "FindValue(" + k + ") on " + show(m) + " gives " + got);
          check(a->FindValue(k, NULL) == has && a->GetString(k, NULL) == has, "FindValue(" + k + ") without a place on " + show(m));
          break;
        case 3: {
          cur("FindKey(" + v + ") on " + show(m));
          string first = "old"; bool some = false;
          for (Model::iterator j = m.begin(); j != m.end() && !some; ++j) if (j->second == v) { first = j->first; some = true; }
          check(a->FindKey(v, &got) == some && got == first, "FindKey(" + v + ") on " + show(m) + " gives " + got);
          break; }
        case 4: {
          cur("Clone of " + show(m));
          Attributes* c = a->Clone();
          same(*c, m, "copy of " + show(m));
          c->SetString("new", "1");
          same(*a, m, "original after its copy was changed");
          delete c; break; }
        case 5: {
          o.clear();
          Attributes* b = rattrs(&o);
          string what = show(m) + " merged with " + show(o);
          cur(what);
          a->MergeAttributes(*b);
          for (Model::iterator j = o.begin(); j != o.end(); ++j) m[j->first] = j->second;
          same(*b, o, "the other one of " + what);
          same(*a, m, what);
          delete b; break; }
        case 6: {
          static const char* pre[] = {"x", "xmlns", "y", "", "xy", "x:"};
          string p = pre[rint_(6)];
          string what = "SplitByPrefix(" + p + ") on " + show(m);
          cur(what);
          Model part, rest;
          for (Model::iterator j = m.begin(); j != m.end(); ++j)
            if (j->first.compare(0, p.size() + 1, p + ":") == 0) part[j->first.substr(p.size() + 1)] = j->second; else rest[j->first] = j->second;
          Attributes* s = a->SplitByPrefix(p);
          m = rest;
          same(*a, m, "rest of " + what);
          check((s != NULL) == !part.empty(), what + (s ? " gives some" : " gives none"));
          if (s) same(*s, part, what);
          delete s; break; }
        default: {
          vector<string> names(1, "before"), want(1, "before");
          for (Model::iterator j = m.begin(); j != m.end(); ++j) want.push_back(j->first);
          cur("GetAttrNames of " + show(m));
          a->GetAttrNames(&names);
          check(names == want, "names of " + show(m) + ": " + show(names)); }
      }
      same(*a, m, "after the operation");
    }
    delete a;
  }
}
