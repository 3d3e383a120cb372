// Concrete companion of the contracts on texts holding coordinates (property V01).
#include "h.h"
#include "kml/dom.h"
using namespace h;
using namespace kmldom;
static const char* ws[] = {" ", "\n", "\t", "\r", "\r\n", "  ", "\n\t ", "\f", "\v"};
static string blanks(int lo, int hi) { string o; for (int i = lo + rint_(hi - lo + 1); i > 0; --i) o += ws[rint_(sizeof ws / sizeof *ws)]; return o; }
static string num(double* v) {
  string t;
  switch (rint_(8)) {
    case 0: t = f("%d", rint_(361) - 180); break;
    case 1: t = f("%.15g", (rint_(2000001) - 1000000) / 7919.0); break;
    case 2: t = f("%s.%d", rint_(2) ? "-" : "", rint_(100000)); break;
    case 3: t = f("%dE%c0%d", rint_(100) - 50, rint_(2) ? '-' : '+', rint_(9)); break;
    case 4: t = f("%d.", rint_(200) - 100); break;
    case 5: t = "-0"; break;
    case 6: t = string(rint_(2) ? "" : "-") + "00" + f("%d.%030d", rint_(99), rint_(9999)); break;
    default: { t = f("%d.", rint_(90)); for (int i = rint_(10) ? rint_(30) : rint_(5000); i > 0; --i) t += (char)('0' + rint_(10)); if (t[t.size() - 1] == '.') t += "0"; }
  }
  *v = strtod(t.c_str(), NULL);
  return t;
}
struct T { double v[3]; int n; };
static void same(const CoordinatesPtr& c, const std::vector<T>& want, size_t from) {
  check(c->get_coordinates_array_size() == from + want.size(), f("%d tuples instead of %d", (int)(c->get_coordinates_array_size() - from), (int)want.size()));
  for (size_t i = 0; i < want.size() && from + i < c->get_coordinates_array_size(); ++i) {
    kmlbase::Vec3 v = c->get_coordinates_array_at(from + i);
    check(v.get_longitude() == want[i].v[0] && v.get_latitude() == want[i].v[1], f("tuple %d is %.17g,%.17g instead of %.17g,%.17g", (int)i, v.get_longitude(), v.get_latitude(), want[i].v[0], want[i].v[1]));
    check(v.has_altitude() == (want[i].n == 3) && v.get_altitude() == (want[i].n == 3 ? want[i].v[2] : 0), f("tuple %d has altitude %d %.17g instead of %.17g", (int)i, v.has_altitude(), v.get_altitude(), want[i].v[2]));
  }
}
SECTION(coords) {
  for (int r = 0; r < (tier ? 60000 : 8000); ++r) {
    string t = blanks(0, 3);
    std::vector<T> want;
    for (int k = rint_(8) ? rint_(5) : rint_(60); k > 0; --k) {
      T x; x.n = rint_(2) ? 2 : 3;
      bool tight = rint_(2);
      for (int i = 0; i < x.n; ++i) { if (i) t += (tight ? "" : blanks(0, 2)) + "," + (tight ? "" : blanks(0, 2)); t += num(&x.v[i]); }
      want.push_back(x);
      if (k > 1) t += blanks(1, 3);
    }
    t += blanks(0, 3);
    cur("coordinates " + q(t));
    CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates();
    size_t from = rint_(3);
    for (size_t i = 0; i < from; ++i) c->add_latlng(i, 2);
    c->Parse(t);
    same(c, want, from);
    for (size_t i = 0; i < from; ++i) check(c->get_coordinates_array_at(i).get_latitude() == i, "the coordinates there before stay");
    if (want.empty()) continue;
    // through the parser, and back
    cur("<Point/LineString><coordinates> of " + q(t));
    string x;
    for (size_t i = 0; i < t.size(); ++i) if (t[i] != '\f' && t[i] != '\v') x += t[i]; else x += ' ';
    ElementPtr e = ParseKml("<LineString><coordinates>" + x + "</coordinates></LineString>");
    LineStringPtr ls = AsLineString(e);
    if (!ls || !ls->get_coordinates()) { fail("no coordinates"); continue; }
    same(ls->get_coordinates(), want, 0);
    ElementPtr e2 = ParseKml(rint_(2) ? SerializeRaw(e) : SerializePretty(e));
    LineStringPtr l2 = AsLineString(e2);
    if (!l2 || !l2->get_coordinates()) { fail("no coordinates when read back"); continue; }
    std::vector<T> w2 = want;
    for (size_t i = 0; i < w2.size(); ++i) { if (w2[i].n == 2) w2[i].v[2] = 0; w2[i].n = 3; for (int k = 0; k < 3; ++k) w2[i].v[k] = strtod(f("%.15g", w2[i].v[k]).c_str(), NULL); }
    same(l2->get_coordinates(), w2, 0);
  }
  static const char* junk[] = {"-", ".", ",", " ", "\n", "1", "9.5", "e", "E", "+", "x", "NaN", "*", "..", "--", "\xff", "1e999", "0x1", "\t"};
  for (int r = 0; r < (tier ? 200000 : 20000); ++r) {
    string t;
    for (int k = rint_(12); k > 0; --k) t += junk[rint_(sizeof junk / sizeof *junk)];
    cur("coordinates " + q(t));
    char* heap = new char[t.size() + 1];       // a read beyond the end shows
    memcpy(heap, t.c_str(), t.size() + 1);
    const char* p = heap;
    for (int n = 0; *p; ++n) {
      char* next = const_cast<char*>(p);
      kmlbase::Vec3 v;
      bool got = Coordinates::ParseVec3(p, &next, &v);
      check(next >= p && next <= heap + t.size(), "goes on inside the text");
      check(got ? next > p : !*next, "gets ahead");
      if (!got || next <= p) break;
      p = next;
    }
    delete[] heap;
    CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates();
    alarm(20);
    c->Parse(t);
    alarm(0);
    check(c->get_coordinates_array_size() <= t.size(), "not more tuples than characters");
  }
  char* next = NULL; kmlbase::Vec3 v;
  check(!Coordinates::ParseVec3(NULL, &next, &v) && !Coordinates::ParseVec3("1,2", NULL, &v) && !Coordinates::ParseVec3("1,2", &next, NULL), "nothing given, nothing read");
}
