// Concrete companion of the DOM contracts: accessors, ownership, serialization, parsing, visiting.
#include "dom_h.h"
#include "kml/dom/xml_serializer.h"
using namespace h;
string dstr(double d) { return f("%.15g", d); }
string vstr(const kmlbase::Vec3& v) { return dstr(v.get_longitude()) + "," + dstr(v.get_latitude()) + "," + (v.has_altitude() ? dstr(v.get_altitude()) : string("none")); }
double dval(int v) { static const double t[] = {0.5, -12.25, 101.125, 0, -7.75, 1, 1e-3, 12345.6789, -1, 180, -90, 2}; return t[(unsigned)v % 12] + v / 12; }
int sval_hostile = 0;   // >0: texts full of markup, different for each value
static string hostile(int v) {
  static const char* t[] = {"<", "&", ">", "]]>", "<![CDATA[", "\"", "'", "&amp;", "&lt;", "<b>", "</name>", "\n", "\r", "\r\n", "\t", " ", "\xc3\xa9", "x", "]]", "]", "&#65;", "<!--", "-->", "<?x?>", "%41", "&nbsp;", "text", "]]&gt;", "=\"", "/>", "\\", "\xe2\x82\xac", "CDATA["};
  uint64_t x = (uint64_t)(v + 1) * 0x9E3779B97F4A7C15ULL + sval_hostile * 0xD1B54A32D192ED03ULL;
  string o;
  int n = (x >> 60) % 7;
  for (int i = 0; i < n; ++i) { x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; o += t[x % (sizeof t / sizeof *t)]; }
  if (o.compare(0, 9, "<![CDATA[") == 0) o = "x" + o;   // an href unwraps that much markup on purpose
  return o;
}
string sval(int v) {
  if (sval_hostile) return hostile(v);
  if (v % 23 == 19) return "";
  static const char* t[] = {"text one", "t2", "a<b&c", "x", "\"q\"", "it's", "p > q"};
  return t[(unsigned)v % 7] + f("#%d", v);
}
int ival(int v, int n) { static const int t[] = {-5, 0, 7, -1, 1, 100, -2, 2}; return n > 0 ? (int)((unsigned)v % n) : t[(unsigned)v % 8] + 3 * (v / 8); }

static ClassD* cls_of(Element* e) {
  static std::map<int, ClassD*> m;
  if (m.empty()) for (size_t i = 0; i < classes().size(); ++i) m[classes()[i].type] = &classes()[i];
  return m.count(e->Type()) ? m[e->Type()] : NULL;
}
static string norm(string s) { string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] != '_' && s[i] != ':') o += tolower(s[i]); return o; }

// abstract value of a whole tree through the getters
static string dump(Element* e) {
  if (!e) return "null";
  ClassD* c = cls_of(e);
  if (!c) return f("?%d", e->Type());
  string o = c->name + "{";
  for (size_t i = 0; i < c->fields.size(); ++i) {
    FieldD& fd = c->fields[i];
    if (fd.kids) { std::vector<Element*> k = fd.kids(e); for (size_t j = 0; j < k.size(); ++j) o += fd.name + ":" + dump(k[j]) + ";"; }
    else { string v = fd.obs(e);
      if (fd.name == "text") {   // element text: the pretty form pads it, and empty text is no text
        size_t a = v.find_first_not_of("= \n\t"), b = v.find_last_not_of(" \n\t");
        v = a == string::npos || b < a ? string("-") : v == "-" ? v : "=" + v.substr(a, b + 1 - a);
      }
      if (v != "-") o += fd.name + "=" + v + ";"; }
  }
  for (size_t i = 0; i < e->get_unknown_elements_array_size(); ++i) o += "unknown=" + e->get_unknown_elements_array_at(i) + ";";
  for (size_t i = 0; i < e->get_misplaced_elements_array_size(); ++i) o += "misplaced=" + dump(e->get_misplaced_elements_array_at(i).get()) + ";";
  return o + "}";
}
string dump_tree(Element* e) { return dump(e); }
ClassD* class_of(Element* e) { return cls_of(e); }
void all_elements(Element* e, std::vector<Element*>* out) {
  out->push_back(e);
  ClassD* c = cls_of(e);
  if (c) for (size_t i = 0; i < c->fields.size(); ++i) if (c->fields[i].kids) { std::vector<Element*> k = c->fields[i].kids(e); for (size_t j = 0; j < k.size(); ++j) all_elements(k[j], out); }
  for (size_t i = 0; i < e->get_misplaced_elements_array_size(); ++i) all_elements(e->get_misplaced_elements_array_at(i).get(), out);
}
static std::vector<string> obs_all(ClassD& c, Element* e) { std::vector<string> r; for (size_t i = 0; i < c.fields.size(); ++i) r.push_back(c.fields[i].obs(e)); return r; }

SECTION(accessors) {
  for (size_t ci = 0; ci < classes().size(); ++ci) {
    ClassD& c = classes()[ci];
    cur("new " + c.name);
    { ElementPtr e = c.create(); for (size_t i = 0; i < c.fields.size(); ++i) if (c.fields[i].owner != "Element") {
        FieldD& fd = c.fields[i]; check(fd.obs(e.get()) == "-" || !fd.clear, c.name + ": new element has " + fd.name + " unset"); } }
    for (int pass = 0; pass < (tier ? 8 : 3); ++pass)
      for (size_t i = 0; i < c.fields.size(); ++i) {
        FieldD& fd = c.fields[i];
        ElementPtr e = c.create();
        // random background
        for (size_t j = 0; j < c.fields.size(); ++j) if (c.fields[j].set && rint_(2)) c.fields[j].set(e.get(), rint_(24));
        for (int step = 0; step < 4; ++step) {
          std::vector<string> b = obs_all(c, e.get());
          if (fd.set) {
            int v = pass * 5 + step;
            cur(f("%s: field %s set to variant %d", c.name.c_str(), fd.name.c_str(), v));
            fd.set(e.get(), v);
            std::vector<string> a = obs_all(c, e.get());
            string want = fd.val(e.get(), v);
            if (fd.kind[0] == 'a' && fd.kind != "aptr") want = (b[i] == "-" ? string() : b[i]) + want + "|";
            check(a[i] == want, c.name + "." + fd.name + " set to " + want + " but reads " + a[i]);
            for (size_t j = 0; j < a.size(); ++j) if (j != i) check(a[j] == b[j], c.name + ": setting " + fd.name + " changed " + c.fields[j].name + " from " + b[j] + " to " + a[j]);
          } else if (fd.kind == "ptr" && step == 0) {
            for (size_t k = 0; k < classes().size(); ++k) {
              ElementPtr ch = classes()[k].create();
              b = obs_all(c, e.get());
              cur(c.name + ": set " + fd.name + " to a new " + classes()[k].name);
              if (!fd.setp(e.get(), ch)) continue;
              std::vector<string> a = obs_all(c, e.get());
              check(fd.kids(e.get()).size() == 1 && fd.kids(e.get())[0] == ch.get(), c.name + "." + fd.name + " does not return the child set");
              check(a[i] != "-", c.name + ": has " + fd.name + " false after set");
              check(ch->GetParent() == e.get(), c.name + ": child of " + fd.name + " has no parent link");
              for (size_t j = 0; j < a.size(); ++j) if (j != i) check(a[j] == b[j], c.name + ": setting " + fd.name + " changed " + c.fields[j].name);
              for (size_t j = 0; j < c.fields.size(); ++j) if (c.fields[j].setp) {   // anywhere else below the same parent
                b = obs_all(c, e.get());
                cur(c.name + ": put the " + classes()[k].name + " of " + fd.name + " also into " + c.fields[j].name);
                if (!c.fields[j].setp(e.get(), ch)) continue;
                a = obs_all(c, e.get());
                check(a == b, c.name + ": the child of " + fd.name + " is accepted again by " + c.fields[j].name);
              }
              ElementPtr e2 = c.create();
              fd.setp(e2.get(), ch);
              check(fd.kids(e2.get()).empty() && ch->GetParent() == e.get(), c.name + "." + fd.name + " accepted a child that already has a parent");
              if (fd.clear) { fd.clear(e.get()); check(fd.obs(e.get()) == "-" && fd.kids(e.get()).empty(), c.name + ": clear of " + fd.name + " leaves it set"); }
            }
          } else if (fd.kind == "aptr" && step == 0) {
            for (size_t k = 0; k < classes().size(); ++k) {
              ElementPtr ch = classes()[k].create();
              size_t n = fd.kids(e.get()).size();
              std::vector<Element*> k0 = fd.kids(e.get());
              b = obs_all(c, e.get());
              cur(c.name + ": add a new " + classes()[k].name + " to " + fd.name);
              if (!fd.setp(e.get(), ch)) continue;
              std::vector<string> a = obs_all(c, e.get());
              std::vector<Element*> k1 = fd.kids(e.get());
              k0.push_back(ch.get());
              check(k1 == k0, c.name + ": adding to " + fd.name + " does not append exactly the child");
              check(ch->GetParent() == e.get(), c.name + ": child added to " + fd.name + " has no parent link");
              for (size_t j = 0; j < a.size(); ++j) if (j != i) check(a[j] == b[j], c.name + ": adding to " + fd.name + " changed " + c.fields[j].name);
              ElementPtr e2 = c.create();
              fd.setp(e2.get(), ch);
              fd.setp(e.get(), ch);
              check(fd.kids(e2.get()).empty() && fd.kids(e.get()) == k1 && ch->GetParent() == e.get(), c.name + "." + fd.name + " accepted a child that already has a parent");
            }
          }
          if (step == 3 && fd.clear && fd.set) {
            b = obs_all(c, e.get());
            cur(c.name + ": clear " + fd.name);
            fd.clear(e.get());
            std::vector<string> a = obs_all(c, e.get());
            check(a[i] == "-", c.name + ": clear of " + fd.name + " leaves it set");
            if (fd.raw) { ElementPtr n = c.create(); check(fd.raw(e.get()) == fd.raw(n.get()), c.name + ": clear of " + fd.name + " leaves the value " + fd.raw(e.get()) + " instead of " + fd.raw(n.get())); }
            for (size_t j = 0; j < a.size(); ++j) if (j != i) check(a[j] == b[j], c.name + ": clearing " + fd.name + " changed " + c.fields[j].name);
          }
        }
      }
  }
  // array deletion
#define DEL(C, add, del, size_, at, mk) { cur(#C "." #del); for (int n = 0; n < 5; ++n) for (int k = 0; k <= n; ++k) { \
    C##Ptr e = KmlFactory::GetFactory()->Create##C(); std::vector<Element*> o; for (int i = 0; i < n; ++i) { auto ch = KmlFactory::GetFactory()->Create##mk(); e->add(ch); o.push_back(ch); } \
    cur(f(#C "." #del "(%d) with %d items", k, n)); \
    auto r = e->del(k); if (k < n) { check(r.get() == o[k], #C "." #del " returns another item"); o.erase(o.begin() + k); } else check(!r, #C "." #del " out of range returns an item"); \
    check(e->size_() == o.size(), #C "." #del " leaves a wrong count"); for (size_t i = 0; i < o.size() && i < e->size_(); ++i) check(e->at(i).get() == o[i], #C "." #del " disturbs the other items"); } }
  DEL(Folder, add_feature, DeleteFeatureAt, get_feature_array_size, get_feature_array_at, Placemark)
  DEL(Document, add_feature, DeleteFeatureAt, get_feature_array_size, get_feature_array_at, Folder)
  DEL(Document, add_schema, DeleteSchemaAt, get_schema_array_size, get_schema_array_at, Schema)
  DEL(Document, add_styleselector, DeleteStyleSelectorAt, get_styleselector_array_size, get_styleselector_array_at, Style)
}

static string want_text(FieldD& fd, const string& o) { return o; }
// random subset of fields; children to the given depth
static ElementPtr random_tree(ClassD& c, int depth, int dens) {
  ElementPtr e = c.create();
  for (size_t i = 0; i < c.fields.size(); ++i) {
    FieldD& fd = c.fields[i];
    if (fd.owner == "Element") continue;
    if (fd.set) {
      int reps = fd.kind[0] == 'a' ? rint_(3) : (rint_(10) < dens ? 1 : 0);
      for (int r = 0; r < reps; ++r) { int v = rint_(40); fd.set(e.get(), fd.name == "text" && !sval_hostile && sval(v).empty() ? v + 1 : v); }   // empty text is no text
    } else if (depth > 0) {
      int reps = fd.kind == "aptr" ? rint_(rint_(3) ? 3 : 6) : (rint_(10) < dens ? 1 : 0);
      if (c.name == "Document" && fd.name == "styleselector" && fd.kind == "ptr") reps = 0;   // reads back into the list of styles
      int lastk = -1;
      for (int r = 0; r < reps; ++r)
        for (int t = 0; t < 60; ++t) {
          int ki = t == 0 && lastk >= 0 && rint_(2) ? lastk : rint_(classes().size());
          ClassD& k = classes()[ki];
          if (k.name == "IconStyleIcon" && c.name != "IconStyle") continue;   // an <Icon> only inside IconStyle
          if (k.name == "GxSimpleArrayField" && fd.name.find("gx") == string::npos) continue;   // has its own list
          if (fd.setp(c.create().get(), k.create())) { lastk = ki; fd.setp(e.get(), random_tree(k, depth - 1, dens)); break; }
        }
    }
  }
  return e;
}
ElementPtr random_elem(ClassD& c, int depth, int dens) { return random_tree(c, depth, dens); }
static bool text_is(FieldD& fd, Element* e, const string& t, const string& o) {
  if (fd.kind == "bool") return t == o || t == (o == "1" ? "true" : "false");
  if (fd.kind == "double") return fabs(strtod(t.c_str(), 0) - strtod(o.c_str(), 0)) <= 1e-12 * fabs(strtod(o.c_str(), 0));
  if (fd.kind == "string") return "=" + t == o;
  if (fd.kind == "color") return t == o;
  if (fd.kind == "int") return fd.enumn ? !t.empty() : atof(t.c_str()) == atof(o.c_str());
  return true;
}
static void check_node(Element* e, const Node& n) {
  ClassD* c = cls_of(e);
  if (!c) return;
  std::vector<bool> used(n.kids.size(), false);
  std::set<string> ua;
  size_t arr_text = 0;
  for (size_t i = 0; i < c->fields.size(); ++i) {
    FieldD& fd = c->fields[i];
    if (fd.kids) {
      std::vector<Element*> k = fd.kids(e);
      size_t from = 0;
      for (size_t j = 0; j < k.size(); ++j) {
        // children appear in list order
        string kn = norm(Xsd::GetSchema()->ElementName(k[j]->Type()));
        bool hit = false;
        for (size_t x = from; x < n.kids.size(); ++x) if (!used[x] && norm(n.kids[x].name) == kn) { used[x] = true; from = x + 1; hit = true; check_node(k[j], n.kids[x]); break; }
        check(hit, c->name + ": child " + fd.name + " is not written");
      }
      continue;
    }
    string o = fd.obs(e);
    string fn = norm(fd.name);
    if (fd.kind == "astr" || fd.kind == "avec3" || fd.kind == "aint") continue;
    // attribute?
    bool hit = false;
    for (size_t x = 0; x < n.attrs.size(); ++x) if (norm(n.attrs[x].first) == fn) {
      hit = true; ua.insert(n.attrs[x].first);
      check(o != "-", c->name + ": attribute " + fd.name + " written though unset");
      if (o != "-") check(text_is(fd, e, n.attrs[x].second, o), c->name + ": attribute " + fd.name + " is " + o + " but written as " + n.attrs[x].second);
    }
    if (hit) continue;
    int hits = 0;
    for (size_t x = 0; x < n.kids.size(); ++x) {
      string kn = norm(n.kids[x].name);
      if (!used[x] && n.kids[x].kids.empty() && (kn == fn || kn == "atom" + fn || kn == "xal" + fn)) {
        used[x] = true; ++hits;
        if (o != "-") check(text_is(fd, e, n.kids[x].text, o), c->name + ": " + fd.name + " is " + o + " but written as " + n.kids[x].text);
      }
    }
    if (hits == 0 && o != "-" && fd.kind == "string" && n.text.find(o.substr(1)) != string::npos) hits = 1;   // element text
    check(hits == (o == "-" ? 0 : 1), c->name + ": " + fd.name + " (" + o + ") written " + f("%d", hits) + " times");
  }
  for (size_t i = 0; i < c->fields.size(); ++i) {
    FieldD& fd = c->fields[i];
    if (fd.kids || fd.kind[0] != 'a') continue;
    string o = fd.obs(e), w;
    string fn = norm(fd.name);
    if (c->name == "Coordinates") {
      // whitespace separated tuples, in order
      std::istringstream in(n.text); string t; while (in >> t) { double a = 0, b = 0, z = 0; int k = sscanf(t.c_str(), "%lf,%lf,%lf", &a, &b, &z); w += dstr(a) + "," + dstr(b) + "," + (k == 3 ? dstr(z) : string("none")) + "|"; }
      check((w.empty() ? "-" : w) == o, "Coordinates: tuples " + o + " written as " + w);
      continue;
    }
    if (fd.kind == "aint") {   // one element holding the list
      for (size_t x = 0; x < n.kids.size(); ++x) if (!used[x] && norm(n.kids[x].name) == fn) { used[x] = true; w = n.kids[x].text; }
      std::istringstream in(w); string t; int cnt = 0; while (in >> t) ++cnt;
      int want = 0; for (size_t x = 0; x < o.size(); ++x) want += o[x] == '|';
      if (c->name == "ItemIcon" && !static_cast<ItemIcon*>(e)->has_state()) want = 0;   // the documented default, not set
      check(cnt == want, c->name + ": " + fd.name + " list of " + f("%d", want) + " written with " + f("%d", cnt) + " items");
      continue;
    }
    for (size_t x = 0; x < n.kids.size(); ++x) if (!used[x] && (norm(n.kids[x].name) == fn)) {
      used[x] = true;
      if (fd.kind == "astr") w += n.kids[x].text + "|";
      else { double a = 0, b = 0, z = 0; sscanf(n.kids[x].text.c_str(), "%lf %lf %lf", &a, &b, &z); w += dstr(a) + "," + dstr(b) + "," + dstr(z) + "|"; }
    }
    check((w.empty() ? "-" : w) == o, c->name + ": list " + fd.name + " is " + o + " but written as " + w);
  }
  for (size_t x = 0; x < n.kids.size(); ++x) check(used[x], c->name + ": extra element " + n.kids[x].name + " written");
  for (size_t x = 0; x < n.attrs.size(); ++x) check(ua.count(n.attrs[x].first) || n.attrs[x].first.compare(0, 5, "xmlns") == 0, c->name + ": extra attribute " + n.attrs[x].first);
}
SECTION(serialize) {
  int reps = tier ? 300 : 48;
  for (size_t ci = 0; ci < classes().size(); ++ci)
    for (int r = 0; r < reps; ++r) {
      ElementPtr e = random_tree(classes()[ci], r % 3, r == 0 ? 10 : 5);
      string before = dump(e.get());
      cur("serialize " + before);
      string raw = SerializeRaw(e);
      string pretty = SerializePretty(e);
      check(dump(e.get()) == before, "writing changed the element");
      Node n = xml(raw);
      cur(raw);
      check(n.ok, "output is not well-formed XML: " + n.err);
      if (!n.ok) continue;
      check(norm(n.name) == norm(Xsd::GetSchema()->ElementName(e->Type())), "root is written as " + n.name);
      check_node(e.get(), n);
      Node p = xml(pretty);
      cur(pretty);
      check(p.ok, "pretty output is not well-formed XML: " + p.err);
    }
}
static Node strip(const Node& n) {   // without the white space pretty printing adds
  Node o; o.name = n.name; o.attrs = n.attrs;
  if (n.name == "coordinates") { std::istringstream in(n.text); string t; while (in >> t) o.text += t + " "; }
  else { size_t a = n.text.find_first_not_of(" \n\t"), b = n.text.find_last_not_of(" \n\t"); o.text = a == string::npos ? string() : n.text.substr(a, b + 1 - a); }
  for (size_t i = 0; i < n.kids.size(); ++i) o.kids.push_back(strip(n.kids[i]));
  return o;
}
static bool same(const Node& a, const Node& b) {
  if (a.name != b.name || a.attrs != b.attrs || a.text != b.text || a.kids.size() != b.kids.size()) return false;
  for (size_t i = 0; i < a.kids.size(); ++i) if (!same(a.kids[i], b.kids[i])) return false;
  return true;
}
// whatever the texts, the output is well-formed and spells them
SECTION(xmlout) {
  int reps = tier ? 400 : 60;
  for (size_t ci = 0; ci < classes().size(); ++ci)
    for (int r = 0; r < reps; ++r) {
      sval_hostile = 1 + r * 131 + ci;
      ElementPtr e = random_tree(classes()[ci], r % 3, r < 4 ? 10 : 5);
      string raw = SerializeRaw(e), pretty = SerializePretty(e);
      cur(raw);
      Node n = xml(raw);
      check(n.ok, "output is not well-formed XML: " + n.err);
      if (!n.ok) continue;
      check_node(e.get(), n);
      for (int p = 0; p < 2; ++p) {
        std::ostringstream os;
        XmlSerializer<std::ostream>::Serialize(e, p ? "\n" : "", p ? "  " : "", &os);
        check(os.str() == (p ? pretty : raw), "writing to a stream and to a string differ");
      }
      cur(pretty);
      Node m = xml(pretty);
      check(m.ok, "pretty output is not well-formed XML: " + m.err);
      if (m.ok) {
        Node x = strip(n), y = strip(m);
        check(same(x, y), "the pretty and the raw form have different content");
      }
      string err;
      ElementPtr b = Parse(raw, &err);
      check(b.get() != NULL, "written element does not parse: " + err);
      if (b && classes()[ci].name != "IconStyleIcon") { string d0 = dump(e.get()), d1 = dump(b.get()); check(d0 == d1, classes()[ci].name + ": reads back differently: " + d0.substr(0, 200) + " / " + d1.substr(0, 200)); }
    }
  sval_hostile = 0;
  check(SerializeRaw(NULL).empty() && SerializePretty(NULL).empty(), "nothing is written for no element");
}
SECTION(roundtrip) {
  int reps = tier ? 300 : 48;
  for (size_t ci = 0; ci < classes().size(); ++ci) if (classes()[ci].name != "IconStyleIcon")
    for (int r = 0; r < reps; ++r) {
      ElementPtr e = random_tree(classes()[ci], r % 3, r == 0 ? 10 : 5);
      for (int pretty = 0; pretty < 2; ++pretty) {
        string s = pretty ? SerializePretty(e) : SerializeRaw(e);
        cur(s);
        string errors;
        ElementPtr b = Parse(s, &errors);
        check(b.get() != NULL, "written element does not parse: " + errors);
        if (b) { string d0 = dump(e.get()), d1 = dump(b.get()); 
          size_t k = 0; while (k < d0.size() && k < d1.size() && d0[k] == d1[k]) ++k;
          check(d0 == d1, classes()[ci].name + ": reads back differently from \"" + d0.substr(k > 40 ? k - 40 : 0, 120) + "\" as \"" + d1.substr(k > 40 ? k - 40 : 0, 120) + "\""); }
      }
    }
}

void visit_tree(const ElementPtr& e, bool pre, std::vector<std::pair<string, Element*> >* log);
std::set<string> visit_hooks();
std::vector<string> class_chain(const string& c);
static void all_elems(Element* e, Element* parent, std::vector<std::pair<Element*, Element*> >* out) {
  out->push_back(std::make_pair(e, parent));
  ClassD* c = cls_of(e);
  if (c) for (size_t i = 0; i < c->fields.size(); ++i) if (c->fields[i].kids) { std::vector<Element*> k = c->fields[i].kids(e); for (size_t j = 0; j < k.size(); ++j) all_elems(k[j], e, out); }
}
SECTION(visit) {
  int reps = tier ? 200 : 40;
  std::set<string> hooks = visit_hooks();
  for (size_t ci = 0; ci < classes().size(); ++ci)
    for (int r = 0; r < reps; ++r) {
      ElementPtr e = random_tree(classes()[ci], r % 4, r < 4 ? 10 : 5);
      std::vector<std::pair<Element*, Element*> > els;
      all_elems(e.get(), NULL, &els);
      for (int pre = 0; pre < 2; ++pre) {
        std::vector<std::pair<string, Element*> > log;
        cur((pre ? "preorder visit of " : "postorder visit of ") + SerializeRaw(e));
        visit_tree(e, pre, &log);
        std::map<Element*, int> pos; std::map<Element*, std::vector<string> > called;
        int n = 0; Element* last = NULL;
        for (size_t i = 0; i < log.size(); ++i) {
          if (log[i].second != last) { last = log[i].second; check(!pos.count(last), "an element (" + log[i].first + ") is visited twice"); pos[last] = n++; }
          called[last].push_back(log[i].first);
        }
        check(pos.size() == els.size(), f("%d elements visited of %d in the tree", (int)pos.size(), (int)els.size()));
        for (size_t i = 0; i < els.size(); ++i) {
          Element* x = els[i].first;
          string cn = cls_of(x) ? cls_of(x)->name : "?";
          if (!pos.count(x)) { fail(cn + " is not visited"); continue; }
          if (els[i].second && pos.count(els[i].second)) check(pre ? pos[els[i].second] < pos[x] : pos[els[i].second] > pos[x], cn + " is visited on the wrong side of its parent");
          std::vector<string> want, ch = class_chain(cn);
          for (size_t k = 0; k < ch.size(); ++k) if (hooks.count(ch[k])) want.push_back(ch[k]);
          string w, g; for (size_t k = 0; k < want.size(); ++k) w += want[k] + " "; for (size_t k = 0; k < called[x].size(); ++k) g += called[x][k] + " ";
          check(w == g, cn + ": hooks called " + g + "instead of " + w);
        }
      }
    }
}

SECTION(types) {
  std::vector<CastD> cs = casts(); std::vector<IdD> ids = type_ids(); std::vector<EnumD> en = enum_texts();
  std::map<string, int> idof; std::map<int, string> nameof_;
  for (size_t i = 0; i < ids.size(); ++i) { if (!ids[i].cls.empty()) idof[ids[i].cls] = ids[i].id; nameof_[ids[i].id] = ids[i].name; }
  Xsd* x = Xsd::GetSchema();
  std::set<int> made;
  for (size_t ci = 0; ci < classes().size(); ++ci) {
    ClassD& c = classes()[ci];
    ElementPtr e = c.create();
    std::vector<string> ch = class_chain(c.name);
    std::set<string> in; for (size_t i = 0; i < ch.size(); ++i) in.insert(ch[i]);
    cur("new " + c.name);
    check(idof.count(c.name) && e->Type() == idof[c.name], c.name + f(": Type() is %d", e->Type()));
    made.insert(e->Type());
    for (size_t i = 0; i < ids.size(); ++i) { cur(c.name + " IsA " + ids[i].name); check(e->IsA((KmlDomType)ids[i].id) == (in.count(ids[i].cls) > 0), c.name + ": IsA(" + ids[i].name + ") is wrong"); }
    for (size_t i = 0; i < cs.size(); ++i) { cur("As" + cs[i].name + " of a " + c.name); Element* r = cs[i].as(e);
      check(r == (in.count(cs[i].name) ? e.get() : NULL), "As" + cs[i].name + " of a " + c.name + (r ? " gives an element" : " gives null")); }
    bool b = false; int n = 77; double d = 7.5; string s("keep");
    check(!e->SetBool(&b) && !b, c.name + ": SetBool gives a value"); check(!e->SetInt(&n) && n == 77, c.name + ": SetInt gives a value");
    check(!e->SetDouble(&d) && d == 7.5, c.name + ": SetDouble gives a value"); check(!e->SetEnum(&n) && n == 77, c.name + ": SetEnum gives a value"); check(!e->SetString(&s) && s == "keep", c.name + ": SetString gives a value");
  }
  for (size_t i = 0; i < cs.size(); ++i) { cur("As" + cs[i].name + " of null"); check(cs[i].as(NULL) == NULL, "As" + cs[i].name + "(null) is not null"); }
  for (int i = -3; i < type_invalid() + 4; ++i) {
    cur(f("CreateElementById(%d)", i));
    ElementPtr e = KmlFactory::GetFactory()->CreateElementById((KmlDomType)i);
    if (made.count(i)) check(e && e->Type() == i, "the factory makes the wrong element for " + nameof_[i]);
    else check(!e, "the factory makes an element for an id without a class");
    cur(f("ElementName/ElementType(%d)", i));
    if (!nameof_.count(i)) { check(x->ElementName(i).empty() && x->ElementType(i) == XSD_UNKNOWN, "an id that is no element has a name"); }
  }
  for (size_t i = 0; i < ids.size(); ++i) {
    string n = x->ElementName(ids[i].id);
    cur("ElementName(Type_" + ids[i].name + ")");
    check(n == ids[i].alias || norm(n) == norm(ids[i].name), "the tag of Type_" + ids[i].name + " is " + n);
    if (ids[i].name != "IconStyleIcon") check(x->ElementId(n) == ids[i].id, "the tag " + n + " does not map back");
    bool cx = !ids[i].cls.empty();
    check(x->ElementType(ids[i].id) == (cx ? XSD_COMPLEX_TYPE : XSD_SIMPLE_TYPE), "Type_" + ids[i].name + " is of the wrong kind");
    string m = n; 
    if (!m.empty()) { m[0] = isupper(m[0]) ? tolower(m[0]) : toupper(m[0]); }
    bool other = false; for (size_t k = 0; k < ids.size(); ++k) if (x->ElementName(ids[k].id) == m) other = true;
    cur("ElementId(" + m + ")"); if (!other) check(x->ElementId(m) == Type_Unknown, "the tag " + m + " is known");
  }
  static const char* bad[] = {"", " ", "kml ", "Kml", "foo", "gx", "gx:", "Placemark\n", "<kml>"};
  for (size_t i = 0; i < sizeof(bad) / sizeof(bad[0]); ++i) { cur(string("ElementId(") + bad[i] + ")"); check(x->ElementId(bad[i]) == Type_Unknown, string("the tag ") + q(bad[i]) + " is known"); }
  for (size_t i = 0; i < en.size(); ++i) {
    for (int k = -3; k < 12; ++k) { cur(f("EnumValue(%s, %d)", en[i].name.c_str(), k)); string v = x->EnumValue(en[i].id, k);
      check(v == (k >= 0 && k < (int)en[i].t.size() ? en[i].t[k] : string()), f("%s: value %d is written ", en[i].name.c_str(), k) + q(v)); }
    std::vector<string> texts;
    for (size_t j = 0; j < en.size(); ++j) texts.insert(texts.end(), en[j].t.begin(), en[j].t.end());
    for (size_t j = 0, m = texts.size(); j < m; ++j) { texts.push_back(texts[j] + " "); texts.push_back(texts[j].substr(1)); string u = texts[j]; u[0] = toupper(u[0]); texts.push_back(u); texts.push_back(texts[j].substr(0, texts[j].size() - 1)); }
    texts.push_back("");
    for (size_t j = 0; j < texts.size(); ++j) { int w = -1; for (size_t k = 0; k < en[i].t.size(); ++k) if (en[i].t[k] == texts[j]) w = k;
      cur("EnumId(" + en[i].name + ", " + q(texts[j]) + ")"); check(x->EnumId(en[i].id, texts[j]) == w, en[i].name + ": the text " + q(texts[j]) + f(" is value %d", x->EnumId(en[i].id, texts[j]))); }
  }
  for (size_t i = 0; i < ids.size(); ++i) { bool e = false; for (size_t j = 0; j < en.size(); ++j) if (en[j].id == ids[i].id) e = true;
    if (!e) { cur("EnumValue of " + ids[i].name); check(x->EnumValue(ids[i].id, 0).empty() && x->EnumId(ids[i].id, "absolute") == -1, ids[i].name + " has enum values"); } }
}
