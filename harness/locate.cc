// Concrete companion: bounds and locations of features; regions, quad trees and the regionator.
#include "h.h"
#include "kml/dom.h"
#include "kml/base/file.h"
#include "kml/engine.h"
#include "kml/engine/bbox.h"
#include "kml/engine/location_util.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/feature_list.h"
#include "kml/regionator/regionator.h"
#include "kml/regionator/regionator_util.h"
#include "kml/regionator/regionator_qid.h"
#include "kml/regionator/region_handler.h"
#include "kml/regionator/feature_list_regionator.h"
#include "kml/regionator/feature_list_region_handler.h"
using namespace h;
using namespace kmldom;
using kmlengine::Bbox;
static KmlFactory* F() { return KmlFactory::GetFactory(); }
struct Hull { bool any; double n, s, e, w; Hull() : any(false), n(-1e9), s(1e9), e(-1e9), w(1e9) {}
  void add(double la, double lo) { any = true; n = std::max(n, la); s = std::min(s, la); e = std::max(e, lo); w = std::min(w, lo); } };
static double rla() { return rint_(4) ? (rnd() % 2881) / 16.0 - 90 : rint_(181) - 90; }
static double rlo() { return rint_(4) ? (rnd() % 5761) / 16.0 - 180 : rint_(361) - 180; }
static CoordinatesPtr rcoords(Hull* hl, string* d, int max) {
  CoordinatesPtr c = F()->CreateCoordinates();
  int n = rint_(max + 1);
  for (int i = 0; i < n; ++i) {
    double la = rla(), lo = rlo();
    hl->add(la, lo);
    *d += f("(%g,%g)", lo, la);
    if (rint_(2)) c->add_latlng(la, lo); else c->add_latlngalt(la, lo, rint_(1000));
  }
  return c;
}
static LinearRingPtr rring(Hull* hl, string* d) { LinearRingPtr r = F()->CreateLinearRing(); *d += "LinearRing"; if (rint_(6)) r->set_coordinates(rcoords(hl, d, 5)); return r; }
static GeometryPtr rgeom(Hull* hl, string* d, int depth) {
  switch (rint_(depth > 0 ? 7 : 6)) {
    case 0: { PointPtr p = F()->CreatePoint(); *d += "Point"; if (rint_(6)) p->set_coordinates(rcoords(hl, d, 2)); return p; }
    case 1: { LineStringPtr p = F()->CreateLineString(); *d += "LineString"; if (rint_(6)) p->set_coordinates(rcoords(hl, d, 6)); return p; }
    case 2: return rring(hl, d);
    case 3: { PolygonPtr p = F()->CreatePolygon(); *d += "Polygon[";
      if (rint_(6)) { OuterBoundaryIsPtr o = F()->CreateOuterBoundaryIs(); *d += "outer "; if (rint_(6)) o->set_linearring(rring(hl, d)); p->set_outerboundaryis(o); }
      if (rint_(2)) { Hull dummy; string x; InnerBoundaryIsPtr o = F()->CreateInnerBoundaryIs(); o->set_linearring(rring(&dummy, &x)); p->add_innerboundaryis(o); *d += " inner " + x; }
      *d += "]"; return p; }
    case 4: { ModelPtr m = F()->CreateModel(); *d += "Model"; if (rint_(5)) { LocationPtr l = F()->CreateLocation(); double la = 0, lo = 0; if (rint_(6)) { la = rla(); l->set_latitude(la); } if (rint_(6)) { lo = rlo(); l->set_longitude(lo); } m->set_location(l); hl->add(la, lo); *d += f("(%g,%g)", lo, la); } return m; }
    case 5: if (rint_(3)) return rgeom(hl, d, depth); { GxTrackPtr t = F()->CreateGxTrack(); *d += "gx:Track"; t->add_gx_coord(kmlbase::Vec3(1, 2, 3)); return t; }
    default: { MultiGeometryPtr m = F()->CreateMultiGeometry(); *d += "Multi["; int n = rint_(4); for (int i = 0; i < n; ++i) { m->add_geometry(rgeom(hl, d, depth - 1)); *d += " "; } *d += "]"; return m; }
  }
}
static FeaturePtr rfeat(Hull* hl, string* d, int depth) {
  switch (rint_(depth > 0 ? 7 : 4)) {
    case 0: case 1: { PlacemarkPtr p = F()->CreatePlacemark(); *d += "Placemark{"; if (rint_(8)) p->set_geometry(rgeom(hl, d, 2)); *d += "}"; return p; }
    case 2: { PhotoOverlayPtr p = F()->CreatePhotoOverlay(); *d += "PhotoOverlay{"; if (rint_(4)) { PointPtr q = F()->CreatePoint(); if (rint_(5)) q->set_coordinates(rcoords(hl, d, 2)); p->set_point(q); } *d += "}"; return p; }
    case 3: { *d += "other"; switch (rint_(3)) { case 0: return F()->CreateGroundOverlay(); case 1: return F()->CreateScreenOverlay(); default: return F()->CreateNetworkLink(); } }
    default: { ContainerPtr c; if (rint_(2)) c = F()->CreateFolder(); else c = F()->CreateDocument(); *d += "Container["; int n = rint_(5); for (int i = 0; i < n; ++i) { c->add_feature(rfeat(hl, d, depth - 1)); *d += " "; } *d += "]"; return c; }
  }
}
static bool is(const Bbox& b, const Hull& x) { return b.get_north() == x.n && b.get_south() == x.s && b.get_east() == x.e && b.get_west() == x.w; }
static string bs(const Bbox& b) { return f("n=%.10g s=%.10g e=%.10g w=%.10g", b.get_north(), b.get_south(), b.get_east(), b.get_west()); }
SECTION(locate) {
  for (int it = 0; it < (tier ? 60000 : 8000); ++it) {
    Hull hl; string d;
    if (rint_(2)) {
      FeaturePtr ft = rfeat(&hl, &d, 3);
      cur(d);
      Bbox b; bool r = kmlengine::GetFeatureBounds(ft, &b);
      check(r == hl.any && (!r || is(b, hl)), d + ": bounds " + (r ? bs(b) : string("none")));
      check(kmlengine::GetFeatureBounds(ft, NULL) == hl.any, d + ": bounds without a box");
      Bbox g(10, -10, 10, -10); Hull h2 = hl; h2.add(10, 10); h2.add(-10, -10);
      kmlengine::GetFeatureBounds(ft, &g);
      check(is(g, h2), d + ": an existing box is grown, not replaced: " + bs(g));
      double la = 555, lo = 666;
      bool q = kmlengine::GetFeatureLatLon(ft, &la, &lo);
      check(q == hl.any && (!q ? la == 555 && lo == 666 : la == (hl.n + hl.s) / 2 && lo == (hl.e + hl.w) / 2), d + f(": location %g,%g", la, lo));
      kmlengine::GetFeatureLatLon(ft, NULL, NULL);
      if (PlacemarkPtr p = AsPlacemark(ft)) { la = lo = 777; q = kmlengine::GetPlacemarkLatLon(p, &la, &lo); check(q == hl.any && (!q || (la == (hl.n + hl.s) / 2 && lo == (hl.e + hl.w) / 2)), d + ": placemark location"); }
    } else {
      GeometryPtr gm = rgeom(&hl, &d, 3);
      cur(d);
      Bbox b; bool r = kmlengine::GetGeometryBounds(gm, &b);
      check(r == hl.any && (!r || is(b, hl)), d + ": bounds " + (r ? bs(b) : string("none")));
      double la = 555, lo = 666;
      bool q = kmlengine::GetGeometryLatLon(gm, &la, &lo);
      check(q == hl.any && (!q ? la == 555 && lo == 666 : la == (hl.n + hl.s) / 2 && lo == (hl.e + hl.w) / 2), d + f(": location %g,%g", la, lo));
      la = lo = 555; q = kmlengine::GetGeometryLatLon(gm, &la, NULL); check(la == (q ? (hl.n + hl.s) / 2 : 555), d + ": latitude alone");
      la = lo = 555; q = kmlengine::GetGeometryLatLon(gm, NULL, &lo); check(lo == (q ? (hl.e + hl.w) / 2 : 555), d + ": longitude alone");
      if (PointPtr p = AsPoint(gm)) {
        la = lo = 555; q = kmlengine::GetPointLatLon(p, &la, &lo);
        bool any = p->has_coordinates() && p->get_coordinates()->get_coordinates_array_size();
        check(q == any && (!q ? la == 555 : la == p->get_coordinates()->get_coordinates_array_at(0).get_latitude() && lo == p->get_coordinates()->get_coordinates_array_at(0).get_longitude()), d + f(": point location %g,%g", la, lo));
      }
      if (ModelPtr m = AsModel(gm)) {
        la = lo = 555; q = kmlengine::GetModelLatLon(m, &la, &lo);
        check(q == hl.any && (!q ? la == 555 && lo == 555 : la == hl.n && lo == hl.e), d + f(": model location %g,%g", la, lo));
        Bbox mb; check(kmlengine::GetModelBounds(m, &mb) == hl.any && (!hl.any || is(mb, hl)), d + ": model bounds");
      }
    }
    { Hull hc; string dc; CoordinatesPtr c = rcoords(&hc, &dc, 6); Bbox b; cur(dc); bool r = kmlengine::GetCoordinatesBounds(c, &b);
      check(r == hc.any && (!r || is(b, hc)), dc + ": bounds " + bs(b)); check(kmlengine::GetCoordinatesBounds(c, NULL) == hc.any, "without a box"); }
    { LatLonAltBoxPtr l = F()->CreateLatLonAltBox(); double n = rla(), s = rla(), e = rlo(), w = rlo(); l->set_north(n); l->set_south(s); l->set_east(e); l->set_west(w);
      double la = 1, lo = 2; kmlengine::GetCenter(l, &la, &lo); check(la == (n + s) / 2 && lo == (e + w) / 2, f("centre of box n=%g s=%g e=%g w=%g: %g,%g", n, s, e, w, la, lo));
      la = 3; kmlengine::GetCenter(l, &la, NULL); check(la == (n + s) / 2, "latitude"); lo = 3; kmlengine::GetCenter(l, NULL, &lo); check(lo == (e + w) / 2, "longitude"); }
  }
  cur("null arguments");
  double a = 5;
  check(!kmlengine::GetCoordinatesBounds(NULL, NULL) && !kmlengine::GetFeatureBounds(NULL, NULL) && !kmlengine::GetGeometryBounds(NULL, NULL) && !kmlengine::GetModelBounds(NULL, NULL) && !kmlengine::GetFeatureLatLon(NULL, &a, &a) && !kmlengine::GetModelLatLon(NULL, &a, &a) && !kmlengine::GetPointLatLon(NULL, &a, &a) && a == 5, "nothing has no bounds");
}

// ------------------------------------------------------------------ regionator
using namespace kmlregionator;
static RegionPtr mkregion(double n, double s, double e, double w, bool alt, bool lod) {
  LatLonAltBoxPtr l = F()->CreateLatLonAltBox();
  l->set_north(n); l->set_south(s); l->set_east(e); l->set_west(w);
  if (alt) { l->set_minaltitude(10); l->set_maxaltitude(1000); l->set_altitudemode(kmldom::ALTITUDEMODE_ABSOLUTE); }
  RegionPtr r = F()->CreateRegion();
  r->set_latlonaltbox(l);
  if (lod) { LodPtr d = F()->CreateLod(); d->set_minlodpixels(128); d->set_maxlodpixels(1024); d->set_minfadeextent(3); r->set_lod(d); }
  return r;
}
struct Rec : public RegionHandler {
  std::map<string, int> asked, given; std::map<string, KmlPtr> saved; std::map<string, std::vector<double> > box; std::vector<string> saves; int maxdepth; uint64_t salt; std::set<string> nofeature; double density;
  bool data(const string& id) { if ((int)id.size() - 2 > maxdepth) return false; uint64_t x = salt; for (size_t i = 0; i < id.size(); ++i) x = (x ^ (uint64_t)id[i]) * 1099511628211ULL; return id == "q0" || (x >> 20) % 100 < density; }
  virtual bool HasData(const RegionPtr& r) { ++asked[r->get_id()]; LatLonAltBoxPtr l = r->get_latlonaltbox(); double v[] = {l->get_north(), l->get_south(), l->get_east(), l->get_west()}; box[r->get_id()] = std::vector<double>(v, v + 4); return data(r->get_id()); }
  virtual FeaturePtr GetFeature(const RegionPtr& r) { ++given[r->get_id()]; PlacemarkPtr p = F()->CreatePlacemark(); p->set_name(r->get_id()); return p; }
  virtual void SaveKml(const KmlPtr& k, const string& fn) { saves.push_back(fn); saved[fn] = k; }
};
static void expect_tree(Rec& r, const string& id, double n, double s, double e, double w, const string& hist, std::set<string>* all) {
  all->insert(id);
  check(r.asked[id] == 1, hist + ": region " + id + f(" is asked for data %d times", r.asked[id]));
  if (r.box.count(id)) { std::vector<double>& b = r.box[id]; check(b[0] == n && b[1] == s && b[2] == e && b[3] == w, hist + ": region " + id + f(" covers n=%g s=%g e=%g w=%g", b[0], b[1], b[2], b[3])); }
  if (!r.data(id)) { check(!r.given.count(id), hist + ": no feature for a region without data " + id); return; }
  check(r.given[id] == 1, hist + ": the feature of " + id + " is asked for once");
  double my = (n + s) / 2, mx = (e + w) / 2;
  expect_tree(r, id + "0", n, my, mx, w, hist, all);
  expect_tree(r, id + "1", n, my, e, mx, hist, all);
  expect_tree(r, id + "2", my, s, mx, w, hist, all);
  expect_tree(r, id + "3", my, s, e, mx, hist, all);
}
static PlacemarkPtr pt(double la, double lo, int i, int score) {
  PlacemarkPtr p = F()->CreatePlacemark(); PointPtr q = F()->CreatePoint(); CoordinatesPtr c = F()->CreateCoordinates();
  c->add_latlng(la, lo); q->set_coordinates(c); p->set_geometry(q); p->set_id(f("p%d", i));
  if (score) kmlconvenience::SetFeatureScore(f("%d", score), p);
  return p;
}
struct Prog { unsigned last, total; int stop; std::vector<unsigned> seen; Prog() : last(0), total(0), stop(-1) {} bool RegionatorProgress(unsigned c, unsigned t) { seen.push_back(c); total = t; return stop < 0 || (int)seen.size() < stop; } };
static string readf(const string& n) { string o; FILE* fp = fopen(n.c_str(), "rb"); if (!fp) return o; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, fp)) > 0) o.append(b, k); fclose(fp); return o; }
SECTION(regionator) {
  // child regions
  for (int it = 0; it < (tier ? 20000 : 3000); ++it) {
    double n = rla(), s = rla(), e = rlo(), w = rlo(); bool alt = rint_(2), lod = rint_(2);
    RegionPtr r = mkregion(n, s, e, w, alt, lod);
    string before = SerializeRaw(r);
    double my = (n + s) / 2, mx = (e + w) / 2;
    double want[4][4] = {{n, my, mx, w}, {n, my, e, mx}, {my, s, mx, w}, {my, s, e, mx}};
    for (int k = 0; k < 4; ++k) {
      cur(before + f(" child %d", k));
      RegionPtr c = CreateChildRegion(r, (quadrant_t)k);
      LatLonAltBoxPtr l = c->get_latlonaltbox();
      check(l && l->get_north() == want[k][0] && l->get_south() == want[k][1] && l->get_east() == want[k][2] && l->get_west() == want[k][3], before + f(": quadrant %d", k));
      check(l && l->has_minaltitude() == alt && l->has_maxaltitude() == alt && (!alt || (l->get_minaltitude() == 10 && l->get_maxaltitude() == 1000 && l->get_altitudemode() == kmldom::ALTITUDEMODE_ABSOLUTE)), before + ": altitudes kept");
      check(c->has_lod() == lod && (!lod || SerializeRaw(c->get_lod()) == SerializeRaw(r->get_lod())), before + ": Lod kept");
      check(SerializeRaw(r) == before && c.get() != r.get(), before + ": parent unchanged");
    }
    // alignment: the smallest quad (to depth 24) that holds the box
    if (n < s) std::swap(n, s);
    if (e < w) std::swap(e, w);
    if (rint_(2)) { n = s + (n - s) / (1 << rint_(24)); e = w + (e - w) / (1 << rint_(24)); }
    LatLonBoxPtr b = F()->CreateLatLonBox(), a = F()->CreateLatLonBox();
    if (rint_(10) == 0) { n = 181; }
    b->set_north(n); b->set_south(s); b->set_east(e); b->set_west(w);
    bool ok = CreateAlignedAbstractLatLonBox(b, a);
    check(ok == (n <= 180), f("align n=%g s=%g e=%g w=%g", n, s, e, w));
    if (ok) {
      double N = 180, S = -180, E = 180, W = -180;
      for (int k = 0; k <= 24; ++k) {
        double y = (N + S) / 2, x = (E + W) / 2; bool no = s >= y, so = n <= y, ea = w >= x, we = e <= x;
        if (!((no || so) && (ea || we))) break;
        if (no) S = y; else N = y;
        if (ea) W = x; else E = x;
      }
      check(a->get_north() == N && a->get_south() == S && a->get_east() == E && a->get_west() == W, f("aligned n=%.12g s=%.12g e=%.12g w=%.12g: n=%.12g s=%.12g e=%.12g w=%.12g", n, s, e, w, a->get_north(), a->get_south(), a->get_east(), a->get_west()));
      check(b->get_north() == n && b->get_south() == s && b->get_east() == e && b->get_west() == w, "the box is unchanged");
    }
  }
  check(!CreateAlignedAbstractLatLonBox(NULL, F()->CreateLatLonBox()) && !CreateAlignedAbstractLatLonBox(F()->CreateLatLonBox(), NULL), "nothing to align");
  { Qid r = Qid::CreateRoot(); check(r.IsRoot() && r.str() == "q0" && r.depth() == 1, "root id");
    for (int k = 0; k < 4; ++k) { Qid c = r.CreateChild((quadrant_t)k); check(c.str() == f("q0%d", k) && !c.IsRoot() && c.depth() == 2, "child id"); } }
  // the walk
  for (int it = 0; it < (tier ? 1500 : 150); ++it) {
    Rec r; r.maxdepth = rint_(5); r.salt = rnd(); r.density = 20 + rint_(80);
    double n = rla(), s = rla(), e = rlo(), w = rlo();
    string hist = f("regionate depth %d density %g salt %llu n=%g s=%g e=%g w=%g", r.maxdepth, r.density, (unsigned long long)r.salt, n, s, e, w);
    cur(hist);
    Regionator rg(r, mkregion(n, s, e, w, false, true));
    bool named = rint_(2); if (named) rg.SetRootFilename("root.kml");
    const char* od = rint_(2) ? "some/dir" : NULL;
    check(rg.Regionate(od), hist);
    std::set<string> all;
    expect_tree(r, "q0", n, s, e, w, hist, &all);
    check(all.size() == r.asked.size(), hist + ": only regions of the quad tree are visited");
    string pre = od ? "some/dir/" : "";
    string root = pre + (named ? "root.kml" : "1.kml");
    // every file saved once; the files form the tree of regions with data
    std::set<string> uniq(r.saves.begin(), r.saves.end());
    check(uniq.size() == r.saves.size() && uniq.count(root), hist + f(": %d files saved, %d distinct", (int)r.saves.size(), (int)uniq.size()));
    std::set<string> reached; std::vector<string> todo(1, root);
    std::map<string, int> feats;
    while (!todo.empty()) {
      string fn = todo.back(); todo.pop_back();
      if (!reached.insert(fn).second) { check(false, hist + ": " + fn + " is linked twice"); continue; }
      if (!r.saved.count(fn)) { check(false, hist + ": link to a file that is not saved: " + fn); continue; }
      DocumentPtr doc = AsDocument(r.saved[fn]->get_feature());
      check(doc && doc->has_region(), hist + ": " + fn + " has a region");
      if (!doc) continue;
      string id = doc->get_name();
      std::vector<double>& b = r.box[id];
      LatLonAltBoxPtr l = doc->get_region()->get_latlonaltbox();
      check(l && b.size() == 4 && l->get_north() == b[0] && l->get_south() == b[1] && l->get_east() == b[2] && l->get_west() == b[3], hist + ": " + fn + " has the region of " + id);
      check(doc->has_atomlink() && doc->get_atomlink()->get_rel() == (fn == root ? "self" : "up") && doc->get_atomlink()->get_href() == (named ? "root.kml" : "1.kml"), hist + ": " + fn + " link to the root");
      std::set<string> kids;
      for (size_t i = 0; i < doc->get_feature_array_size(); ++i) {
        FeaturePtr ft = doc->get_feature_array_at(i);
        if (NetworkLinkPtr nl = AsNetworkLink(ft)) {
          string href = nl->get_link()->get_href(); todo.push_back(pre + href);
          check(nl->get_link()->get_viewrefreshmode() == VIEWREFRESHMODE_ONREGION, hist + ": loads on region");
          string kid = nl->has_region() ? nl->get_region()->get_id() : "";
          check(r.data(kid) && kid.size() == id.size() + 1 && kid.compare(0, id.size(), id) == 0, hist + ": link from " + id + " to " + kid);
          kids.insert(kid);
          if (r.saved.count(pre + href) && AsDocument(r.saved[pre + href]->get_feature())) check(AsDocument(r.saved[pre + href]->get_feature())->get_name() == kid, hist + ": " + href + " holds " + kid);
        } else { ++feats[ft->get_name()]; check(ft->get_name() == id, hist + ": feature of " + ft->get_name() + " in " + id); }
      }
      for (int k = 0; k < 4; ++k) if (r.data(id + f("%d", k))) check(kids.count(id + f("%d", k)), hist + ": " + id + f(" links to child %d", k));
    }
    check(reached.size() == r.saved.size(), hist + ": every saved file is linked from the root");
    for (std::map<string, int>::iterator i = r.given.begin(); i != r.given.end(); ++i) check(feats[i->first] == 1, hist + ": the feature of " + i->first + " is saved once");
  }
  // feature lists: splitting
  for (int it = 0; it < (tier ? 6000 : 800); ++it) {
    kmlconvenience::FeatureList fl, out; std::vector<PlacemarkPtr> v; string hist = "list";
    int n = rint_(15);
    Hull hl;
    for (int i = 0; i < n; ++i) { PlacemarkPtr p; if (rint_(9)) { double la = rint_(21) - 10, lo = rint_(21) - 10; hl.add(la, lo); hist += f(" %g,%g", la, lo); p = pt(la, lo, i, 0); } else { p = F()->CreatePlacemark(); hist += " none"; } fl.PushBack(p); v.push_back(p); }
    double N = rint_(11), S = -rint_(11), E = rint_(11), W = -rint_(11); size_t max = rint_(6);
    hist += f(" split n=%g s=%g e=%g w=%g max %d", N, S, E, W, (int)max);
    cur(hist);
    { Bbox b; fl.ComputeBoundingBox(&b); if (hl.any) check(is(b, hl), hist + ": bounds " + bs(b)); }
    check(fl.Size() == v.size(), hist + ": size");
    std::vector<PlacemarkPtr> in, rest;
    for (size_t i = 0; i < v.size(); ++i) { double la, lo; bool c = v[i]->has_geometry(); if (c) { la = AsPoint(v[i]->get_geometry())->get_coordinates()->get_coordinates_array_at(0).get_latitude(); lo = AsPoint(v[i]->get_geometry())->get_coordinates()->get_coordinates_array_at(0).get_longitude(); c = la <= N && la >= S && lo <= E && lo >= W; }
      if (c && (max == 0 || in.size() < max)) in.push_back(v[i]); else rest.push_back(v[i]); }
    size_t cnt;
    if (rint_(2)) cnt = fl.RegionSplit(mkregion(N, S, E, W, false, false), max, &out); else cnt = fl.BboxSplit(Bbox(N, S, E, W), max, &out);
    check(cnt == in.size() && out.Size() == in.size() && fl.Size() == rest.size(), hist + f(": %d taken, %d left, should be %d and %d", (int)out.Size(), (int)fl.Size(), (int)in.size(), (int)rest.size()));
    FolderPtr fi = F()->CreateFolder(), fr = F()->CreateFolder();
    out.Save(fi); fl.Save(fr);
    check(fi->get_feature_array_size() == in.size() && fr->get_feature_array_size() == rest.size(), hist + ": saved");
    for (size_t i = 0; i < in.size() && i < fi->get_feature_array_size(); ++i) check(fi->get_feature_array_at(i).get() == in[i].get(), hist + f(": taken item %d in order", (int)i));
    for (size_t i = 0; i < rest.size() && i < fr->get_feature_array_size(); ++i) check(fr->get_feature_array_at(i).get() == rest[i].get(), hist + f(": item left %d in order", (int)i));
  }
  { cur("split with no region"); kmlconvenience::FeatureList fl; fl.PushBack(pt(0, 0, 0, 0)); check(fl.RegionSplit(NULL, 0, NULL) == 0 && fl.RegionSplit(F()->CreateRegion(), 0, NULL) == 0 && fl.Size() == 1, "no region, nothing taken"); check(fl.BboxSplit(Bbox(1, -1, 1, -1), 0, NULL) == 1 && fl.Size() == 0, "without an output the features are removed"); fl.PushBack(NULL); check(fl.Size() == 0, "null is not a feature"); }
  // scores and sorting (stable, highest first)
  for (int it = 0; it < (tier ? 2000 : 300); ++it) {
    kmlconvenience::FeatureList fl; std::vector<std::pair<int, int> > v; int n = rint_(12);
    for (int i = 0; i < n; ++i) { int sc = rint_(5) - 2; PlacemarkPtr p = pt(0, 0, i, 0); if (sc || rint_(2)) kmlconvenience::SetFeatureScore(f("%d", sc), p); check(kmlconvenience::GetFeatureScore(p) == sc, "score read back"); fl.PushBack(p); v.push_back(std::make_pair(-sc, i)); }
    cur(f("sort %d features", n));
    std::stable_sort(v.begin(), v.end());
    fl.Sort(); FolderPtr fo = F()->CreateFolder(); check(fl.Save(fo) == v.size(), "saved");
    for (size_t i = 0; i < v.size() && i < fo->get_feature_array_size(); ++i) check(fo->get_feature_array_at(i)->get_id() == f("p%d", v[i].second), "sorted by score, highest first, otherwise in order");
  }
  // whole run: each feature ends up in exactly one file, whose region contains it
  for (int it = 0; it < (tier ? 60 : 8); ++it) {
    kmlconvenience::FeatureList fl; int n = 1 + rint_(60), max = 1 + rint_(6); std::map<string, std::pair<double, double> > where;
    double span = rint_(2) ? 80 : 0.5;
    for (int i = 0; i < n; ++i) { double la = rint_(4) ? (rnd() % 10000) / 10000.0 * span : rint_(3) * 5 * span / 80, lo = (rnd() % 10000) / 10000.0 * span; if (!rint_(5)) la = lo = span / 2; fl.PushBack(pt(la, lo, i, 0)); where[f("p%d", i)] = std::make_pair(la, lo); }
    string dir = f("rg%d", it); mkdir(dir.c_str(), 0700);
    string hist = f("regionate %d features, %d per node, run %d", n, max, it);
    cur(hist);
    Prog pg;
    check(FeatureListRegionator<Prog>::Regionate(&fl, max, &pg, dir.c_str()), hist);
    check(pg.total == (unsigned)n && !pg.seen.empty() && pg.seen.back() == (unsigned)n, hist + ": progress counts every feature");
    for (size_t i = 1; i < pg.seen.size(); ++i) check(pg.seen[i] > pg.seen[i - 1], hist + ": progress grows");
    std::map<string, int> found; std::vector<string> todo(1, "1.kml"); std::set<string> done;
    while (!todo.empty()) {
      string fn = todo.back(); todo.pop_back();
      if (!done.insert(fn).second) { check(false, hist + ": linked twice"); continue; }
      KmlPtr k = AsKml(Parse(readf(dir + "/" + fn), NULL));
      check(k != NULL, hist + ": " + fn + " can be read");
      if (!k) continue;
      DocumentPtr doc = AsDocument(k->get_feature());
      LatLonAltBoxPtr l = doc->get_region()->get_latlonaltbox();
      for (size_t i = 0; i < doc->get_feature_array_size(); ++i) {
        FeaturePtr ft = doc->get_feature_array_at(i);
        if (NetworkLinkPtr nl = AsNetworkLink(ft)) todo.push_back(nl->get_link()->get_href());
        else if (FolderPtr fo = AsFolder(ft)) { check((int)fo->get_feature_array_size() <= max, hist + ": no more than asked for per node");
          for (size_t j = 0; j < fo->get_feature_array_size(); ++j) { string id = fo->get_feature_array_at(j)->get_id(); ++found[id]; double la = where[id].first, lo = where[id].second;
            double eps = 1e-9; check(la <= l->get_north() + eps && la >= l->get_south() - eps && lo <= l->get_east() + eps && lo >= l->get_west() - eps, hist + ": " + id + " lies within the region of its file"); } }
      }
    }
    for (int i = 0; i < n; ++i) check(found[f("p%d", i)] == 1, hist + f(": feature p%d is in %d files", i, found[f("p%d", i)]));
    if (system(("rm -rf ./" + dir).c_str())) {}
  }
}
