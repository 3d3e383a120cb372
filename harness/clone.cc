// Concrete companion of the engine contracts on copies and merges: random trees of every class against models built through the getters.
#include "dom_h.h"
#include "kml/dom/kml_funcs.h"
#include "kml/engine/clone.h"
#include "kml/engine/merge.h"
#include "kml/engine/find.h"
using namespace h;

static const char* kUnknown[] = {"<Placemark><name>n</name><foo a=\"1\">bar<x/></foo><Point><bogus/><coordinates>1,2,3 4,5</coordinates></Point></Placemark>",
  "<Document extra=\"y\"><name>n</name><Folder><latitude>3</latitude><Snippet maxLines=\"3\">text</Snippet></Folder></Document>",
  "<Placemark id=\"i\" bogus=\"b&amp;c\"><ExtendedData><SchemaData><SimpleData name=\"n\">v</SimpleData></SchemaData><x:y>z</x:y></ExtendedData></Placemark>",
  "<Placemark><Snippet maxLines=\"2\">outer<SimpleData name=\"n\">inner</SimpleData></Snippet></Placemark>",
  "<NetworkLink><Link><href>h</href><bad>1</bad></Link><Icon><href>z</href></Icon><coordinates>1,2</coordinates></NetworkLink>"};

static void strange(const ElementPtr& e) {   // some elements get an attribute that is not of KML
  std::vector<Element*> all;
  all_elements(e.get(), &all);
  for (size_t i = 0; i < all.size(); ++i) if (!rint_(4)) {
    kmlbase::Attributes a;
    all[i]->SerializeAttributes(&a);
    a.SetValue(rint_(2) ? "zz" : "x:y", rint_(2) ? string("v") : string("<&>"));
    all[i]->ParseAttributes(a.Clone());
  }
}

static void check_clone(const ElementPtr& e, const string& what) {
  string before = dump_tree(e.get());
  cur("Clone of " + what + " " + before);
  string xml = SerializeRaw(e);
  ElementPtr c = kmlengine::Clone(e);
  check(c.get() != NULL && c != e, "a copy is a new element");
  if (!c) return;
  check(c->Type() == e->Type(), "a copy has the type of the original");
  check(dump_tree(c.get()) == before, "a copy has the content of the original: " + dump_tree(c.get()));
  check(SerializeRaw(c) == xml, "a copy is written as the original is: " + q(SerializeRaw(c)));
  check(dump_tree(e.get()) == before && SerializeRaw(e) == xml, "the original is unchanged: " + dump_tree(e.get()));
  check(c->GetParent() == NULL, "a copy has no parent");
  std::vector<Element*> a, b;
  all_elements(e.get(), &a); all_elements(c.get(), &b);
  std::set<Element*> s(a.begin(), a.end());
  for (size_t i = 0; i < b.size(); ++i) check(!s.count(b[i]), "nothing is shared between copy and original");
  check(a.size() == b.size(), "as many elements");
}

SECTION(clone) {
  check(kmlengine::Clone(NULL).get() == NULL, "no copy of nothing");
  std::vector<ClassD>& cs = classes();
  for (int round = 0; round < (tier ? 60 : 12); ++round)
    for (size_t i = 0; i < cs.size(); ++i) {
      int depth = round % 4, dens = round < 4 ? 10 : 2 + rint_(8);
      ElementPtr e = random_elem(cs[i], depth, dens);
      if (rint_(3) == 0) strange(e);
      check_clone(e, cs[i].name);
      ElementPtr c = kmlengine::Clone(e);   // changing the copy leaves the original alone
      string before = dump_tree(e.get());
      for (size_t k = 0; k < cs[i].fields.size(); ++k) if (cs[i].fields[k].set) cs[i].fields[k].set(c.get(), rint_(40));
      check(dump_tree(e.get()) == before, "changing a copy leaves the original alone");
    }
  for (size_t i = 0; i < sizeof kUnknown / sizeof *kUnknown; ++i) {
    ElementPtr e = ParseKml(kUnknown[i]);
    if (!e) { cur(kUnknown[i]); fail("does not parse"); continue; }
    check_clone(e, kUnknown[i]);
  }
  for (int round = 0; round < (tier ? 400 : 60); ++round) {   // exact coordinates
    CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates();
    int n = rint_(5);
    std::vector<double> v;
    for (int i = 0; i < n; ++i) {
      double d[3];
      for (int k = 0; k < 3; ++k) { d[k] = (double)rnd() / 3e12 * (rint_(2) ? 1 : -1) / 7; v.push_back(d[k]); }
      c->add_latlngalt(d[0], d[1], d[2]);
    }
    cur("Clone of coordinates " + SerializeRaw(c));
    CoordinatesPtr k = AsCoordinates(kmlengine::Clone(c));
    bool ok = k && k->get_coordinates_array_size() == (size_t)n;
    for (int i = 0; ok && i < n; ++i) {
      kmlbase::Vec3 p = k->get_coordinates_array_at(i);
      ok = p.get_latitude() == v[3 * i] && p.get_longitude() == v[3 * i + 1] && p.get_altitude() == v[3 * i + 2];
    }
    check(ok, "coordinates are copied exactly");
  }
}

// ---- merge
struct M { ClassD* c; bool state; std::map<string, string> simple; std::map<string, std::vector<string> > arr; std::vector<std::pair<FieldD*, M*> > kids; };
static std::vector<string> items(FieldD& fd, Element* e) {   // array kinds of simple values, one rendering per item
  string o = fd.obs(e);
  std::vector<string> r;
  if (o != "-") r.push_back(o);
  return r;
}
static M* model(Element* e);
static M* model(Element* e) {
  M* m = new M; m->c = class_of(e); m->state = m->c->name == "ItemIcon" && AsItemIcon(e)->has_state();
  for (size_t i = 0; i < m->c->fields.size(); ++i) {
    FieldD& fd = m->c->fields[i];
    if (fd.kids) { std::vector<Element*> k = fd.kids(e); for (size_t j = 0; j < k.size(); ++j) m->kids.push_back(std::make_pair(&fd, model(k[j]))); }
    else if (fd.kind[0] == 'a') m->arr[fd.name] = items(fd, e);
    else { string v = fd.obs(e); if (v != "-") m->simple[fd.name] = v; }
  }
  return m;
}
static string show(M* m) {
  string o = m->c->name + "{";
  for (std::map<string, string>::iterator i = m->simple.begin(); i != m->simple.end(); ++i) o += i->first + "=" + i->second + ";";
  for (std::map<string, std::vector<string> >::iterator i = m->arr.begin(); i != m->arr.end(); ++i) if (!i->second.empty()) { o += i->first + "="; for (size_t j = 0; j < i->second.size(); ++j) o += i->second[j]; o += ";"; }
  for (size_t i = 0; i < m->c->fields.size(); ++i) for (size_t j = 0; j < m->kids.size(); ++j) if (m->kids[j].first->name == m->c->fields[i].name) o += m->c->fields[i].name + ":" + show(m->kids[j].second) + ";";
  return o + "}";
}
static void fields(M* s, M* t, bool all) {
  for (std::map<string, string>::iterator i = s->simple.begin(); i != s->simple.end(); ++i) t->simple[i->first] = i->second;
  for (std::map<string, std::vector<string> >::iterator i = s->arr.begin(); i != s->arr.end(); ++i) {
    std::vector<string>& v = t->arr[i->first];
    if (s->c->name == "ItemIcon" && !s->state) continue;    // the default, not a value that was set
    if (s->c->name == "Coordinates" || s->c->name == "ItemIcon") v.clear();
    v.insert(v.end(), i->second.begin(), i->second.end());
  }
}
static M* copy(M* m) { M* r = new M(*m); for (size_t i = 0; i < r->kids.size(); ++i) r->kids[i].second = copy(r->kids[i].second); return r; }
static void merge(M* s, M* t) {
  std::vector<std::pair<FieldD*, M*> > had = t->kids;
  for (size_t i = 0; i < s->kids.size(); ++i) {
    M* k = s->kids[i].second;
    size_t j = 0;
    for (; j < had.size(); ++j) if (had[j].second->c == k->c) break;
    if (j < had.size()) { merge(k, had[j].second); continue; }
    FieldD* fd = s->kids[i].first;
    if (fd->kind != "aptr")   // one child only: replaced
      for (size_t x = 0; x < t->kids.size(); ++x) if (t->kids[x].first->name == fd->name) t->kids.erase(t->kids.begin() + x--);
    t->kids.push_back(std::make_pair(fd, copy(k)));
  }
  fields(s, t, true);
}
static string flat(const string& s) { string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] != '[' && s[i] != ']' && s[i] != ' ' && s[i] != ',') o += s[i]; return o; }

SECTION(merge) {
  std::vector<ClassD>& cs = classes();
  for (int round = 0; round < (tier ? 120 : 24); ++round)
    for (size_t i = 0; i < cs.size(); ++i) {
      int depth = round % 4, dens = 2 + rint_(8);
      ElementPtr s = random_elem(cs[i], depth, dens), t = random_elem(cs[i], depth, dens);
      if (rint_(5) == 0) t = cs[i].create();
      if (rint_(3) == 0) strange(s);
      if (rint_(3) == 0) strange(t);
      M *ms = model(s.get()), *mt = model(t.get());
      bool deep = rint_(3) > 0;
      string sb = dump_tree(s.get()), tb = dump_tree(t.get());
      cur((deep ? "MergeElements(" : "MergeFields(") + sb + " into " + tb);
      ElementPtr parent_t = t;
      if (deep) { kmlengine::MergeElements(s, t); merge(ms, mt); }
      else { kmlengine::MergeFields(s, t); fields(ms, mt, false); }
      string got = flat(show(model(t.get()))), want = flat(show(mt));
      check(got == want, "merge gives " + got + " instead of " + want);
      check(dump_tree(s.get()) == sb, "the source of a merge is unchanged");
      std::vector<Element*> a, b;
      all_elements(s.get(), &a); all_elements(t.get(), &b);
      std::set<Element*> ss(a.begin(), a.end());
      for (size_t k = 0; k < b.size(); ++k) check(!ss.count(b[k]), "nothing is shared between source and target");
      string now = dump_tree(t.get());
      kmlengine::MergeFields(t, t);
      check(dump_tree(t.get()) == now, "merging into itself changes nothing");
      kmlengine::MergeElements(NULL, t); kmlengine::MergeElements(t, NULL); kmlengine::MergeFields(NULL, t); kmlengine::MergeFields(t, NULL);
      check(dump_tree(t.get()) == now, "merging nothing changes nothing");
    }
  {   // what is inside a misplaced child is not a field of its parent
    ElementPtr s = ParseKml("<NetworkLink id=\"s\"><name>n</name><Icon id=\"other\"><href>z</href></Icon></NetworkLink>");
    ElementPtr t = ParseKml("<NetworkLink id=\"t\"/>");
    cur("MergeFields of a NetworkLink with a misplaced Icon");
    kmlengine::MergeFields(s, t);
    check(AsObject(t)->get_id() == "s", "the id of a misplaced child is not merged: " + AsObject(t)->get_id());
    check(SerializeRaw(t).find("href") == string::npos, "the fields of a misplaced child are not merged: " + SerializeRaw(t));
    s = ParseKml("<Snippet maxLines=\"4\">text<SimpleData name=\"n\">inner</SimpleData></Snippet>"); t = ParseKml("<Placemark id=\"t\"/>");
    cur("MergeFields of a Snippet into a Placemark");
    kmlengine::MergeFields(s, t);
    check(t->get_misplaced_elements_array_size() == 0, "an element is not its own child");
  }
}

SECTION(find) {
  std::vector<ClassD>& cs = classes();
  std::vector<IdD> ids = type_ids();
  for (int round = 0; round < (tier ? 60 : 12); ++round)
    for (size_t i = 0; i < cs.size(); ++i) {
      ElementPtr e = random_elem(cs[i], 1 + round % 3, 2 + rint_(8));
      cur("children of " + dump_tree(e.get()));
      std::vector<Element*> all, kids;
      all_elements(e.get(), &all);
      for (size_t k = 0; k < cs[i].fields.size(); ++k) if (cs[i].fields[k].kids) { std::vector<Element*> v = cs[i].fields[k].kids(e.get()); kids.insert(kids.end(), v.begin(), v.end()); }
      kmlengine::ElementVector got;
      int n = kmlengine::GetChildElements(e, true, &got);
      std::multiset<Element*> want(all.begin() + 1, all.end()), have;
      for (size_t k = 0; k < got.size(); ++k) have.insert(got[k].get());
      check(have == want && n == (int)want.size() && kmlengine::GetChildElements(e, true, NULL) == n, "every element below is listed once");
      got.clear(); have.clear();
      n = kmlengine::GetChildElements(e, false, &got);
      for (size_t k = 0; k < got.size(); ++k) have.insert(got[k].get());
      check(have == std::multiset<Element*>(kids.begin(), kids.end()) && n == (int)kids.size(), "the children are listed once each");
      IdD& id = ids[rint_(ids.size())];
      int type = rint_(2) || all.size() < 2 ? id.id : all[1 + rint_(all.size() - 1)]->Type();
      got.clear(); have.clear(); want.clear();
      kmlengine::GetElementsById(e, (KmlDomType)type, &got);
      for (size_t k = 0; k < got.size(); ++k) have.insert(got[k].get());
      for (size_t k = 1; k < all.size(); ++k) if (all[k]->IsA((KmlDomType)type)) want.insert(all[k]);
      check(have == want, f("the elements of type %d are listed once each", type));
    }
  kmlengine::ElementVector v;
  check(kmlengine::GetChildElements(NULL, true, &v) == 0 && v.empty(), "nothing has no children");
  kmlengine::GetElementsById(NULL, Type_Placemark, &v);
  check(v.empty(), "nothing has no children");
}

// ---- style resolution
#include "kml/engine/style_resolver.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/base/net_cache.h"
static ClassD& cls(const char* n) { for (size_t i = 0; i < classes().size(); ++i) if (classes()[i].name == n) return classes()[i]; fail(string("no class ") + n); abort(); }
static string ref() {
  static const char* k[] = {"#s0", "#s1", "#s2", "#s3", "#s4", "#s5", "#nope", "", "#", "s1", "other.kml#s1", "gone.kml#s1", "#s0", "#s1", "#s2", "#s3", "#s4", "http://[#s1"};
  return k[rint_(18)];
}
static ElementPtr selector(int depth, bool simple) {
  if (simple || rint_(5) < 2) { ElementPtr e = random_elem(cls("Style"), 2, 3 + rint_(6)); AsObject(e)->clear_id(); return e; }
  StyleMapPtr m = KmlFactory::GetFactory()->CreateStyleMap();
  for (int n = rint_(4); n >= 0; --n) {
    PairPtr p = KmlFactory::GetFactory()->CreatePair();
    if (rint_(4)) p->set_key(rint_(2));
    if (rint_(2)) p->set_styleurl(ref());
    if (depth > 0 && rint_(2)) p->set_styleselector(AsStyleSelector(selector(depth - 1, false)));
    m->add_pair(p);
  }
  return m;
}
struct Fetch : public kmlbase::NetFetcher {
  std::map<string, string> pages; mutable int n;
  bool FetchUrl(const string& url, string* data) const { ++n; std::map<string, string>::const_iterator i = pages.find(url.substr(0, url.find('#'))); if (i == pages.end()) return false; *data = i->second; return true; }
};
struct Res {   // the rules of style resolution, on models
  std::map<string, Element*> shared, other; bool remote; int state, left; M* out;
  void url(const string& u) {
    if (--left < 0) return;
    size_t h = u.find('#');
    if (h == string::npos || u.find('[') != string::npos || h + 1 == u.size()) return;
    string path = u.substr(0, h), id = u.substr(h + 1);
    if (path.empty()) { if (shared.count(id)) sel(shared[id]); return; }
    if (remote && path == "other.kml" && other.count(id)) sel(other[id]);
  }
  void sel(Element* e) {
    if (!e) return;
    if (e->Type() == Type_Style) { M* m = model(e); merge(m, out); return; }
    StyleMapPtr m = AsStyleMap(e);
    for (size_t i = 0; m && i < m->get_pair_array_size(); ++i) {
      PairPtr p = m->get_pair_array_at(i);
      if (p->get_key() == state) { url(p->get_styleurl()); sel(p->get_styleselector().get()); }
    }
  }
};
SECTION(style) {
  for (int round = 0; round < (tier ? 6000 : 900); ++round) {
    KmlFactory* fac = KmlFactory::GetFactory();
    DocumentPtr doc = fac->CreateDocument(), other = fac->CreateDocument();
    int ns = rint_(7);
    for (int i = 0; i < ns; ++i) { StyleSelectorPtr s = AsStyleSelector(selector(1, false)); s->set_id(f("s%d", i)); doc->add_styleselector(s); }
    for (int i = 0; i < 3; ++i) { StyleSelectorPtr s = AsStyleSelector(selector(0, true)); s->set_id(f("s%d", i)); other->add_styleselector(s); }
    PlacemarkPtr pm = fac->CreatePlacemark();
    if (rint_(5)) pm->set_styleurl(ref());
    if (rint_(2)) pm->set_styleselector(AsStyleSelector(selector(2, false)));
    doc->add_feature(pm);
    KmlPtr kml = fac->CreateKml(); kml->set_feature(doc);
    KmlPtr kml2 = fac->CreateKml(); kml2->set_feature(other);
    string xml = SerializeRaw(kml), xml2 = SerializeRaw(kml2);
    Fetch fetch; fetch.n = 0; fetch.pages["http://host/dir/other.kml"] = xml2;
    // what the network has at the address of the file is not asked
    fetch.pages["http://host/dir/a.kml"] = "<kml><Document><Style id=\"s9\"><LineStyle><width>77</width></LineStyle></Style>";
    for (int i = 0; i < 9; ++i) fetch.pages["http://host/dir/a.kml"] += f("<Style id=\"s%d\"><LineStyle><width>%d</width></LineStyle></Style>", i, 60 + i);
    fetch.pages["http://host/dir/a.kml"] += "</Document></kml>";
    kmlengine::KmlCache cache(&fetch, 4);
    bool remote = rint_(2), imported = !remote && rint_(2);
    kmlengine::KmlFilePtr file = imported ? kmlengine::KmlFile::CreateFromImportLax(kml) : remote ? kmlengine::KmlFile::CreateFromStringWithUrl(xml, "http://host/dir/a.kml", &cache) : kmlengine::KmlFile::CreateFromString(xml);
    cur("style of the Placemark of " + xml + (remote ? " with other.kml " + xml2 : ""));
    if (!file) { fail("no file"); continue; }
    KmlPtr root = AsKml(file->get_root());
    DocumentPtr d2 = AsDocument(root->get_feature());
    FeaturePtr ft = d2->get_feature_array_at(0);
    kmlengine::KmlFilePtr of = kmlengine::KmlFile::CreateFromString(xml2);
    DocumentPtr od = AsDocument(AsKml(of->get_root())->get_feature());
    for (int state = 0; state < 2; ++state) {
      Res r; r.remote = remote; r.state = state; r.left = 5;
      for (size_t i = 0; i < d2->get_styleselector_array_size(); ++i) r.shared[d2->get_styleselector_array_at(i)->get_id()] = d2->get_styleselector_array_at(i).get();
      for (size_t i = 0; i < od->get_styleselector_array_size(); ++i) r.other[od->get_styleselector_array_at(i)->get_id()] = od->get_styleselector_array_at(i).get();
      ElementPtr fresh = fac->CreateStyle();
      r.out = model(fresh.get());
      r.url(ft->get_styleurl()); r.sel(ft->get_styleselector().get());
      string before = dump_tree(root.get());
      StylePtr got = kmlengine::CreateResolvedStyle(ft, file, (StyleStateEnum)state);
      check(got.get() != NULL, "there is always a resolved style");
      if (!got) continue;
      string g = flat(show(model(got.get()))), w = flat(show(r.out));
      check(g == w, f("state %d: ", state) + g + " instead of " + w);
      check(dump_tree(root.get()) == before, "resolving leaves the file as it was");
      std::vector<Element*> a, b;
      all_elements(root.get(), &a); all_elements(got.get(), &b);
      std::set<Element*> ss(a.begin(), a.end());
      for (size_t k = 0; k < b.size(); ++k) check(!ss.count(b[k]), "the resolved style is not part of the file");
    }
  }
}

// ---- styles moved to the Document and back
#include "kml/engine/style_splitter.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/find_xml_namespaces.h"
#include "kml/engine/id_mapper.h"
static void features(const ElementPtr& e, std::vector<FeaturePtr>* out) {
  FeaturePtr ft = AsFeature(e);
  if (!ft) return;
  out->push_back(ft);
  ContainerPtr c = AsContainer(e);
  for (size_t i = 0; c && i < c->get_feature_array_size(); ++i) features(c->get_feature_array_at(i), out);
}
static string look(const FeaturePtr& ft, const kmlengine::KmlFilePtr& file, int state) {
  StylePtr s = kmlengine::CreateResolvedStyle(ft, file, (StyleStateEnum)state);
  ElementPtr c = kmlengine::Clone(s);
  std::vector<Element*> all; all_elements(c.get(), &all);
  for (size_t i = 0; i < all.size(); ++i) if (ObjectPtr o = AsObject(ElementPtr(all[i]))) o->clear_id();
  return flat(show(model(c.get())));
}
static FeaturePtr random_feature(int depth, bool inl, int nst) {
  KmlFactory* fac = KmlFactory::GetFactory();
  FeaturePtr ft;
  if (depth > 0 && rint_(2)) {
    FolderPtr fo = fac->CreateFolder();
    for (int n = rint_(4); n > 0; --n) fo->add_feature(random_feature(depth - 1, inl, nst));
    ft = fo;
  } else if (rint_(4) == 0) ft = fac->CreateGroundOverlay();
  else ft = fac->CreatePlacemark();
  if (rint_(3) == 0) ft->set_id(f("f%d", rint_(1000)));
  if (rint_(2)) ft->set_name(f("name %d", rint_(99)));
  int k = rint_(4);
  if (k == 0) ft->set_styleurl(rint_(6) ? f("#s%d", rint_(nst + 1)) : ref());
  if (k == 1 && inl) {
    StyleSelectorPtr s = AsStyleSelector(selector(1, rint_(2)));
    if (rint_(3) == 0) s->set_id(rint_(2) ? f("in%d", rint_(3)) : f("s%d", rint_(4)));
    ft->set_styleselector(s);
  }
  return ft;
}
static string without_styles(const ElementPtr& e) {
  std::vector<FeaturePtr> fs;
  features(e, &fs);
  for (size_t i = 0; i < fs.size(); ++i) { fs[i]->clear_styleurl(); fs[i]->clear_styleselector(); }
  if (DocumentPtr d = AsDocument(e)) while (d->get_styleselector_array_size()) d->DeleteStyleSelectorAt(0);
  return dump_tree(e.get());
}
SECTION(split) {
  for (int round = 0; round < (tier ? 5000 : 700); ++round) {
    KmlFactory* fac = KmlFactory::GetFactory();
    bool split = round % 2;
    DocumentPtr doc = fac->CreateDocument();
    int ns = rint_(5);
    for (int i = 0; i < ns; ++i) {
      StyleSelectorPtr s = AsStyleSelector(selector(1, !split && rint_(3)));
      s->set_id(rint_(8) || i == 0 ? f("s%d", rint_(5) ? i : rint_(ns)) : "_" + f("%d", rint_(3)));
      doc->add_styleselector(s);
    }
    for (int n = 1 + rint_(4); n > 0; --n) doc->add_feature(random_feature(2, split, ns));
    KmlPtr kml = fac->CreateKml(); kml->set_feature(doc);
    if (rint_(3) == 0) {
      NetworkLinkControlPtr nlc = fac->CreateNetworkLinkControl();
      UpdatePtr up = fac->CreateUpdate(); up->set_targethref("x.kml");
      ChangePtr ch = fac->CreateChange();
      PlacemarkPtr p = fac->CreatePlacemark(); p->set_targetid("f1");
      if (rint_(2)) p->set_styleselector(AsStyleSelector(selector(1, true))); else p->set_styleurl("#s0");
      ch->add_object(p); up->add_updateoperation(ch); nlc->set_update(up); kml->set_networklinkcontrol(nlc);
    }
    string xml = SerializeRaw(kml), errors;
    cur(string(split ? "SplitStyles of " : "InlineStyles of ") + xml);
    kmlengine::KmlFilePtr before = kmlengine::KmlFile::CreateFromString(xml);
    if (!before) { fail("no file"); continue; }
    ElementPtr root = split ? kmlengine::SplitStyles(xml, &errors) : kmlengine::InlineStyles(xml, &errors);
    if (!root) { fail("no result"); continue; }
    string out = SerializeRaw(root);
    kmlengine::KmlFilePtr after = kmlengine::KmlFile::CreateFromString(out);
    if (!after) { fail("no file after"); continue; }
    std::vector<FeaturePtr> a, b;
    features(AsKml(before->get_root())->get_feature(), &a); features(AsKml(after->get_root())->get_feature(), &b);
    check(a.size() == b.size(), "the features are the same");
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
      if (!split && a[i]->has_styleurl() && a[i]->get_styleurl()[0] != '#') {
        check(b[i]->get_styleurl() == a[i]->get_styleurl() && b[i]->has_styleselector() == a[i]->has_styleselector(), f("feature %d: a reference to another file stays", (int)i));
        continue;
      }
      for (int state = 0; state < 2; ++state) {
        string x = look(a[i], before, state), y = look(b[i], after, state);
        check(x == y, f("feature %d", (int)i) + f(" in state %d looks like ", state) + y + " instead of " + x + " in " + out);
      }
      if (split) check(!b[i]->has_styleselector() || a[i]->has_styleselector(), "no style appears in a feature");
      else {
        check(!(a[i]->has_styleurl() && !b[i]->has_styleurl()) || b[i]->has_styleselector(), "a style replaces the reference");
        ElementPtr s = b[i]->get_styleselector();
        if (s && !a[i]->has_styleselector()) {
          std::vector<Element*> all; all_elements(s.get(), &all);
          for (size_t k = 0; k < all.size(); ++k) if (ObjectPtr o = AsObject(ElementPtr(all[k]))) check(!o->has_id(), "the inlined style has no ids");
        }
      }
    }
    // ids of the styles in the Document are their own
    if (split) {
      DocumentPtr d2 = AsDocument(AsKml(after->get_root())->get_feature()), d1 = AsDocument(AsKml(before->get_root())->get_feature());
      std::set<string> was, is;
      size_t n1 = d1->get_styleselector_array_size();
      check(d2->get_styleselector_array_size() >= n1, "the styles of the Document stay");
      for (size_t i = n1; i < d2->get_styleselector_array_size(); ++i) {
        StyleSelectorPtr s = d2->get_styleselector_array_at(i);
        check(s->has_id(), "a split style has an id");
        for (size_t k = 0; k < i; ++k) check(d2->get_styleselector_array_at(k)->get_id() != s->get_id(), "the id of a split style is its own");
      }
    }
    KmlPtr k1 = AsKml(before->get_root()), k2 = AsKml(after->get_root());
    check(!k1->has_networklinkcontrol() || dump_tree(k1->get_networklinkcontrol().get()) == dump_tree(k2->get_networklinkcontrol().get()), "what an Update says stays as it is");
    string x = without_styles(k1->get_feature()), y = without_styles(k2->get_feature());
    check(x == y, "the rest stays as it is: " + y + " instead of " + x);
  }
}

// ---- ids
#include "kml/engine/get_link_parents.h"
struct Tag { string name, id, tid; };
static std::vector<Tag> tags(const string& xml) {   // the start tags of a text, in order
  std::vector<Tag> out;
  for (size_t i = 0; i < xml.size(); ++i) {
    if (xml[i] != '<') continue;
    if (xml.compare(i, 9, "<![CDATA[") == 0) { i = xml.find("]]>", i); if (i == string::npos) break; continue; }
    if (xml[i + 1] == '/' || xml[i + 1] == '?' || xml[i + 1] == '!') continue;
    size_t e = xml.find('>', i);
    string t = xml.substr(i + 1, e - i - 1);
    Tag g; g.name = t.substr(0, t.find_first_of(" /"));
    size_t p = t.find(" id=\""), q = t.find(" targetId=\"");
    if (p != string::npos) g.id = t.substr(p + 5, t.find('"', p + 5) - p - 5);
    if (q != string::npos) g.tid = t.substr(q + 11, t.find('"', q + 11) - q - 11);
    out.push_back(g); i = e;
  }
  return out;
}
static string tid(const ObjectPtr& o) { return o ? o->get_targetid() : string("none"); }
SECTION(ids) {
  static const char* roots[] = {"Document", "Folder", "Document", "NetworkLinkControl", "Placemark", "Style", "GroundOverlay", "Document"};
  for (int round = 0; round < (tier ? 2500 : 350); ++round) {
    ElementPtr root = random_elem(cls(roots[rint_(8)]), 1 + rint_(4), 2 + rint_(8));
    DocumentPtr doc = AsDocument(root);
    if (rint_(2)) { KmlPtr k = KmlFactory::GetFactory()->CreateKml(); if (FeaturePtr ft = AsFeature(root)) { k->set_feature(ft); root = k; } }
    std::vector<Element*> all; all_elements(root.get(), &all);
    int pool = 1 + rint_(1 + 3 * all.size());
    bool dense = rint_(2);
    for (size_t i = 0; i < all.size(); ++i)
      if (ObjectPtr o = AsObject(ElementPtr(all[i]))) { o->clear_id(); if (dense || rint_(2)) o->set_id(rint_(40) ? f("i%d", rint_(pool)) : string("")); o->set_targetid(f("T%d", (int)i)); }
    string xml = SerializeRaw(root);
    cur("ids of " + xml);
    std::vector<Tag> ts = tags(xml);
    std::map<string, string> last, shared, lax; std::set<string> st, icons, known; bool dup = false; std::vector<string> links;
    static const char* lp[] = {"PhotoOverlay", "GroundOverlay", "ScreenOverlay", "ItemIcon", "IconStyle", "NetworkLink", "Model"};
    for (size_t i = 0; i < all.size(); ++i)
      if (DocumentPtr d = AsDocument(ElementPtr(all[i]))) for (size_t k = 0; k < d->get_styleselector_array_size(); ++k) st.insert(d->get_styleselector_array_at(k)->get_targetid());
    for (size_t i = 0; i < ts.size(); ++i) {
      for (size_t k = 0; k < 7; ++k) if (ts[i].name == lp[k]) links.push_back(ts[i].tid);
      size_t n = atoi(ts[i].tid.c_str() + 1);
      if (ts[i].tid.empty() || !AsObject(ElementPtr(all[n]))->has_id()) continue;
      if (last.count(ts[i].id)) dup = true;
      last[ts[i].id] = ts[i].tid;
      if (st.count(ts[i].tid)) shared[ts[i].id] = ts[i].tid;
    }
    for (std::map<string, string>::iterator i = last.begin(); i != last.end(); ++i) if (st.count(i->second)) lax[i->first] = i->second;
    kmlengine::KmlFilePtr strictf = kmlengine::KmlFile::CreateFromImport(root);
    check((strictf.get() != NULL) == !dup, "a strict import fails exactly when two objects have the same id");
    kmlengine::KmlFilePtr fs[3] = {kmlengine::KmlFile::CreateFromString(xml), kmlengine::KmlFile::CreateFromImportLax(root), strictf};
    for (int m = 0; m < 3; ++m) {
      if (!fs[m]) { check(m == 2, "a file of the text or the elements"); continue; }
      if (m) check(fs[m]->get_root() == root, "the root is the one imported");
      std::map<string, string>& sh = m ? lax : shared;
      for (int i = -2; i <= pool; ++i) {
        string id = i == -2 ? string("nope") : i == -1 ? string("") : f("i%d", i);
        ObjectPtr o = fs[m]->GetObjectById(id);
        check(tid(o) == (last.count(id) ? last[id] : "none"), f("way %d: the object of ", m) + id + " is " + tid(o) + " instead of " + (last.count(id) ? last[id] : "none"));
        StyleSelectorPtr s = fs[m]->GetSharedStyleById(id);
        check(tid(s) == (sh.count(id) ? sh[id] : "none"), f("way %d: the shared style of ", m) + id + " is " + tid(s) + " instead of " + (sh.count(id) ? sh[id] : "none"));
      }
      check(fs[m]->get_shared_style_map().size() == sh.size(), "there are no other shared styles");
      if (m == 0) {
        const kmlengine::ElementVector& v = fs[m]->get_link_parent_vector();
        kmlengine::ElementVector w;
        check(kmlengine::GetLinkParents(xml, &w) && w.size() == v.size(), "the same parents of links are found without a file");
        check(v.size() == links.size(), "the parents of links are listed");
        for (size_t i = 0; i < v.size() && i < links.size(); ++i) check(tid(AsObject(v[i])) == links[i], "the parents of links are listed in order");
        string out;
        check(fs[m]->SerializeToString(&out) && out.compare(0, 38, "<?xml version=\"1.0\" encoding=\"utf-8\"?>") == 0, "a file is written with an XML header");
        kmlengine::KmlFilePtr again = kmlengine::KmlFile::CreateFromString(out);
        check(again.get() != NULL, "and can be read again");
      }
    }
    // mapping, clearing and replacing ids
    kmlengine::ObjectIdMap map; kmlengine::ElementVector dups;
    kmlengine::MapIds(root, &map, &dups);
    std::set<Element*> seen;
    for (kmlengine::ObjectIdMap::iterator i = map.begin(); i != map.end(); ++i) { check(last.count(i->first) && last[i->first] == tid(i->second), "the last object of an id is mapped"); seen.insert(i->second.get()); }
    for (size_t i = 0; i < dups.size(); ++i) seen.insert(dups[i].get());
    size_t with = 0;
    for (size_t i = 0; i < all.size(); ++i) if (ObjectPtr o = AsObject(ElementPtr(all[i]))) if (o->has_id()) { ++with; check(seen.count(all[i]), "every object with an id is mapped or a duplicate"); }
    check(with == map.size() + dups.size() && seen.size() == with, "each once");
    ElementPtr c1 = kmlengine::Clone(root), c2 = kmlengine::Clone(root);
    std::vector<Element*> v2; all_elements(c2.get(), &v2);
    for (size_t i = 0; i < v2.size(); ++i) if (ObjectPtr o = AsObject(ElementPtr(v2[i]))) o->clear_id();
    check(kmlengine::ClearIds(c1) == c1, "the root is handed back");
    check(dump_tree(c1.get()) == dump_tree(c2.get()), "clearing ids clears them all and nothing else");
    kmlbase::StringMap to;
    for (int i = 0; i < pool; ++i) if (rint_(2)) to[f("i%d", i)] = f("n%d", rint_(2) ? i : rint_(pool));
    std::map<string, string> now, who; int cleared = 0;
    for (kmlengine::ObjectIdMap::iterator i = map.begin(); i != map.end(); ++i) {
      string t = tid(i->second);
      if (to.count(i->first)) { now[t] = to[i->first]; who[to[i->first]] = t; } else { now[t] = "-"; ++cleared; }
    }
    kmlengine::ObjectIdMap outmap;
    bool useout = rint_(2);
    int n = kmlengine::RemapIds(map, to, useout ? &outmap : NULL);
    check(n == cleared, "the number of ids cleared");
    for (size_t i = 0; i < all.size(); ++i) if (ObjectPtr o = AsObject(ElementPtr(all[i]))) if (now.count(tid(o))) check((o->has_id() ? o->get_id() : string("-")) == now[tid(o)], "ids are replaced or cleared");
    if (useout) {
      check(outmap.size() == who.size(), "the new ids are mapped");
      for (kmlengine::ObjectIdMap::iterator i = outmap.begin(); i != outmap.end(); ++i) check(who.count(i->first) && who[i->first] == tid(i->second), "to their objects, the last of several");
    }
  }
  static const char* bad[] = {"", "<kml>", "<nope/>", "no xml", "<kml></Document>", "PK\x03\x04", "<kml/><kml/>"};
  for (size_t i = 0; i < sizeof bad / sizeof *bad; ++i) { cur(string("file of ") + bad[i]); string err; kmlengine::KmlFilePtr k = kmlengine::KmlFile::CreateFromParse(bad[i], &err); check(!k, "no file of a text that is no KML"); }
  kmlengine::ElementVector none;
  check(!kmlengine::KmlFile::CreateFromImport(NULL) && !kmlengine::KmlFile::CreateFromImportLax(NULL) && !kmlengine::GetLinkParents("<kml/>", NULL), "nothing gives nothing");
}

// ---- updates
#include "kml/engine/update.h"
static void drop(const std::map<string, Element*>& by, const string& id) {
  std::map<string, Element*>::const_iterator i = by.find(id);
  if (i == by.end()) return;
  FeaturePtr ft = AsFeature(ElementPtr(i->second));
  if (!ft || !ft->GetParent()) return;
  if (ContainerPtr c = AsContainer(ft->GetParent())) { for (size_t k = 0; k < c->get_feature_array_size(); ++k) if (c->get_feature_array_at(k) == ft) { c->DeleteFeatureAt(k); return; } }
  else if (KmlPtr k = AsKml(ft->GetParent())) k->clear_feature();
}
SECTION(update) {
  KmlFactory* fac = KmlFactory::GetFactory();
  static const char* kinds[] = {"Placemark", "Folder", "Document", "GroundOverlay", "Placemark", "Folder"};
  for (int round = 0; round < (tier ? 3000 : 450); ++round) {
    ElementPtr d = random_elem(cls(rint_(3) ? "Document" : "Folder"), 2 + rint_(2), 3 + rint_(7));
    KmlPtr kml = fac->CreateKml(); kml->set_feature(AsFeature(d));
    if (rint_(3) == 0) kml->set_hint("target=sky");
    if (rint_(3) == 0) kml->set_networklinkcontrol(AsNetworkLinkControl(random_elem(cls("NetworkLinkControl"), rint_(3), 2 + rint_(4))));
    std::vector<Element*> all; all_elements(kml.get(), &all);
    int n = 0;
    std::vector<int> types;
    for (size_t i = 0; i < all.size(); ++i) if (ObjectPtr o = AsObject(ElementPtr(all[i]))) { o->clear_id(); o->clear_targetid(); if (rint_(3)) { o->set_id(f("i%d", n++)); types.push_back(o->Type()); } }
    string xml = SerializeRaw(kml);
    bool mapped = rint_(2);
    kmlbase::StringMap to;
    for (int i = 0; i < n; ++i) if (rint_(4)) to[f("m%d", i)] = f("i%d", rint_(5) ? i : rint_(n + 1));
    UpdatePtr up = fac->CreateUpdate();
    for (int k = 1 + rint_(4); k > 0; --k) {
      int op = rint_(3);
      ChangePtr ch = fac->CreateChange(); CreatePtr cr = fac->CreateCreate(); DeletePtr de = fac->CreateDelete();
      for (int m = rint_(12) ? rint_(4) : op == 2 ? 60 : 20; m >= 0; --m) {
        int t = rint_(n + 1);
        string id = f(mapped && rint_(8) ? "m%d" : "i%d", t);
        bool no = rint_(12) == 0;
        if (op == 0) {
          const char* nm = 0;
          if (t < n && rint_(6)) for (size_t i = 0; i < classes().size(); ++i) { ElementPtr e = classes()[i].create(); if (e && e->Type() == types[t]) nm = classes()[i].name.c_str(); }
          ObjectPtr o = AsObject(random_elem(cls(nm ? nm : kinds[rint_(6)]), rint_(3), 2 + rint_(7)));
          if (!o) continue;
          std::vector<Element*> sub; all_elements(o.get(), &sub);
          for (size_t i = 0; i < sub.size(); ++i) if (ObjectPtr s = AsObject(ElementPtr(sub[i]))) { s->clear_targetid(); if (rint_(3)) s->clear_id(); }
          if (no) o->clear_targetid(); else o->set_targetid(id);
          ch->add_object(o);
        } else if (op == 1) {
          ContainerPtr c = rint_(2) ? ContainerPtr(fac->CreateFolder()) : ContainerPtr(fac->CreateDocument());
          if (!no) c->set_targetid(id);
          for (int q = rint_(4); q > 0; --q) { FeaturePtr ft = AsFeature(random_elem(cls(kinds[rint_(6)]), rint_(3), 2 + rint_(6))); if (rint_(2)) ft->set_id(f("new%d", round)); c->add_feature(ft); }
          cr->add_container(c);
        } else {
          FeaturePtr ft = AsFeature(cls(kinds[rint_(6)]).create());
          if (!no) ft->set_targetid(id);
          de->add_feature(ft);
        }
      }
      if (op == 0) up->add_updateoperation(ch); else if (op == 1) up->add_updateoperation(cr); else up->add_updateoperation(de);
    }
    string ux = SerializeRaw(up);
    cur("update of " + xml + " by " + ux + (mapped ? " with an id map" : ""));
    kmlengine::KmlFilePtr a = rint_(3) ? kmlengine::KmlFile::CreateFromString(xml) : kmlengine::KmlFile::CreateFromImport(ParseKml(xml));
    ElementPtr b = ParseKml(xml);
    if (!a || !b) { fail("does not parse"); continue; }
    string before = dump_tree(up.get());
    if (mapped) kmlengine::ProcessUpdateWithIdMap(up, &to, a); else if (rint_(2)) kmlengine::ProcessUpdate(up, a); else kmlengine::ProcessUpdateWithIdMap(up, NULL, a);
    check(dump_tree(up.get()) == before, "the update stays as it was");
    std::map<string, Element*> by; std::vector<ObjectPtr> alive;
    std::vector<Element*> v; all_elements(b.get(), &v);
    for (size_t i = 0; i < v.size(); ++i) if (ObjectPtr o = AsObject(ElementPtr(v[i]))) if (o->has_id()) { by[o->get_id()] = v[i]; alive.push_back(o); }
    for (size_t k = 0; k < up->get_updateoperation_array_size(); ++k) {
      ElementPtr op = up->get_updateoperation_array_at(k);
      std::vector<Element*> kids;
      if (ChangePtr c = AsChange(op)) for (size_t i = 0; i < c->get_object_array_size(); ++i) kids.push_back(c->get_object_array_at(i).get());
      if (CreatePtr c = AsCreate(op)) for (size_t i = 0; i < c->get_container_array_size(); ++i) kids.push_back(c->get_container_array_at(i).get());
      if (DeletePtr c = AsDelete(op)) for (size_t i = 0; i < c->get_feature_array_size(); ++i) kids.push_back(c->get_feature_array_at(i).get());
      for (size_t i = 0; i < kids.size(); ++i) {
        ObjectPtr src = AsObject(ElementPtr(kids[i]));
        if (!src->has_targetid()) continue;
        string id = src->get_targetid();
        if (mapped) { if (!to.count(id)) continue; id = to[id]; }
        if (!by.count(id)) continue;
        ObjectPtr dst = AsObject(ElementPtr(by[id]));
        if (op->Type() == Type_Change) { bool h = dst->has_id(); string was = dst->get_id(); kmlengine::MergeElements(src, dst); if (h) dst->set_id(was); else dst->clear_id(); dst->clear_targetid(); }
        else if (op->Type() == Type_Create) { ContainerPtr s = AsContainer(src), t = AsContainer(dst); for (size_t q = 0; t && q < s->get_feature_array_size(); ++q) t->add_feature(AsFeature(ParseKml(SerializeRaw(s->get_feature_array_at(q))))); }
        else drop(by, id);
      }
    }
    string x = SerializeRaw(a->get_root()), y = SerializeRaw(b);
    size_t q = 0;
    while (q < x.size() && q < y.size() && x[q] == y[q]) ++q;
    q = q > 40 ? q - 40 : 0;
    check(x == y, "the file is now ... " + x.substr(q, 200) + " instead of " + y.substr(q, 200));
  }
  kmlengine::ProcessUpdate(NULL, NULL); kmlengine::ProcessUpdateWithIdMap(NULL, NULL, NULL);
}
