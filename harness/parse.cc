// Concrete companion of the parser contracts: unknown content, nesting, rejection, observers (property D07).
#include "dom_h.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
using namespace h;
namespace {
struct X {   // a document to be parsed
  string name; std::vector<std::pair<string, string> > attrs; std::vector<X> kids; std::vector<string> texts;   // texts.size() == kids.size() + 1
  int kind;   // 0 folder, 1 placemark, 2 unknown, 3 name, 4 description
};
string esc(const string& s, bool attr) {
  string o;
  for (size_t i = 0; i < s.size(); ++i)
    switch (s[i]) {
      case '&': o += rint_(2) ? "&amp;" : "&#38;"; break;
      case '<': o += "&lt;"; break;
      case '>': o += rint_(2) && (i == 0 || s[i - 1] != ']') ? ">" : "&gt;"; break;
      case '"': o += attr || rint_(2) ? "&quot;" : "\""; break;
      case '\'': o += rint_(2) ? "&apos;" : "'"; break;
      case '\n': o += attr ? "&#10;" : "\n"; break;
      case '\t': o += attr ? "&#x9;" : "\t"; break;
      default: o += s[i];
    }
  return o;
}
string text(const string& s) {
  if (!s.empty() && s.find("]]>") == string::npos && rint_(4) == 0) return "<![CDATA[" + s + "]]>";
  return esc(s, false);
}
string rtext(int n) {
  static const char* t[] = {"a", "<", "&", ">", "\"", "'", "]]>", "]]", "\n", " ", "\t", "&amp;", "<b>", "\xc3\xa9", "x y", "-->", "<!--", "&#65;"};
  string o;
  for (int i = rint_(n + 1); i > 0; --i) o += t[rint_(sizeof t / sizeof *t)];
  return o;
}
string write(const X& x) {
  string o = "<" + x.name;
  for (size_t i = 0; i < x.attrs.size(); ++i) { char q = '"'; o += " " + x.attrs[i].first + "=" + q + esc(x.attrs[i].second, true) + q; }
  bool empty = x.kids.empty();
  for (size_t i = 0; i < x.texts.size(); ++i) empty = empty && x.texts[i].empty();
  if (empty && rint_(2)) return o + "/>";
  o += ">";
  for (size_t i = 0; i < x.texts.size(); ++i) {
    o += text(x.texts[i]);
    if (rint_(12) == 0 && x.kind != 3) o += rint_(2) ? "<!-- a <comment> & more -->" : "<?pi stuff <x> ?>";
    if (i < x.kids.size()) o += write(x.kids[i]);
  }
  return o + "</" + x.name + ">";
}
X mk(const string& n, int kind) { X x; x.name = n; x.kind = kind; return x; }
X unknown(int depth) {
  static const char* names[] = {"unk", "foo:bar", "x-y.z", "_u", "Placemark", "description", "name", "Point", "Schema", "coordinates", "Style", "a1"};
  static const char* an[] = {"a", "b:c", "id", "xmlns", "parent", "d-e"};
  X x = mk(names[rint_(12)], 2);
  for (int i = 0; i < 6; ++i) if (rint_(4) == 0) x.attrs.push_back(std::make_pair(string(an[i]), rtext(4)));
  int k = depth > 0 ? rint_(4) : 0;
  for (int i = 0; i < k; ++i) x.kids.push_back(unknown(depth - 1));
  for (int i = 0; i <= k; ++i) x.texts.push_back(rint_(2) ? rtext(4) : string());
  return x;
}
X unknown_top(int depth) { X x = unknown(depth); static const char* n[] = {"unk", "foo:bar", "x-y.z", "_u", "name2", "Description"}; x.name = n[rint_(6)]; return x; }
X known(int depth) {
  bool f = depth > 0 && rint_(3);
  X x = mk(f ? "Folder" : "Placemark", f ? 0 : 1);
  int k = rint_(5);
  bool hn = false, hd = false;
  for (int i = 0; i < k; ++i) {
    int w = rint_(6);
    if (w < 2 && f) x.kids.push_back(known(depth - 1));
    else if (w == 2 && !hn) { hn = true; X n = mk("name", 3); n.texts.push_back(rtext(5)); x.kids.push_back(n); }
    else if (w == 3 && !hd) { hd = true; X n = mk("description", 4); n.texts.push_back(rtext(5)); x.kids.push_back(n); }
    else x.kids.push_back(unknown_top(3));
  }
  for (size_t i = 0; i <= x.kids.size(); ++i) x.texts.push_back(rint_(2) ? "\n " : "");
  return x;
}
string show(const Node& n) {   // name, sorted attributes, content in order
  string o = "<" + n.name;
  std::vector<std::pair<string, string> > a = n.attrs; std::sort(a.begin(), a.end());
  for (size_t i = 0; i < a.size(); ++i) o += " " + a[i].first + "=[" + a[i].second + "]";
  o += ">" + n.text + "{";
  for (size_t i = 0; i < n.kids.size(); ++i) o += show(n.kids[i]);
  return o + "}";
}
string show(const X& x) {
  Node n; n.name = x.name; n.attrs = x.attrs;
  string o = "<" + x.name;
  std::vector<std::pair<string, string> > a = x.attrs; std::sort(a.begin(), a.end());
  for (size_t i = 0; i < a.size(); ++i) o += " " + a[i].first + "=[" + a[i].second + "]";
  o += ">";
  for (size_t i = 0; i < x.texts.size(); ++i) o += x.texts[i];
  o += "{";
  for (size_t i = 0; i < x.kids.size(); ++i) o += show(x.kids[i]);
  return o + "}";
}
string desc_markup(const X& x) {   // markup inside a description, as text
  string o;
  for (size_t i = 0; i < x.texts.size(); ++i) { o += x.texts[i]; if (i < x.kids.size()) o += "<" + x.kids[i].name + ">" + desc_markup(x.kids[i]) + "</" + x.kids[i].name + ">"; }
  return o;
}
void compare(const X& x, const FeaturePtr& e) {
  check(e.get() != NULL && e->Type() == (x.kind == 0 ? Type_Folder : Type_Placemark), "the element at " + x.name + " has another type");
  if (!e) return;
  size_t u = 0, fi = 0;
  bool hn = false, hd = false;
  for (size_t i = 0; i < x.kids.size(); ++i) {
    const X& k = x.kids[i];
    if (k.kind == 2) {
      check(u < e->get_unknown_elements_array_size(), "an unknown element is lost: " + k.name);
      if (u < e->get_unknown_elements_array_size()) {
        Node n = xml(e->get_unknown_elements_array_at(u));
        check(n.ok, "the text kept for an unknown element is not XML: " + n.err + ": " + e->get_unknown_elements_array_at(u));
        if (n.ok) check(show(n) == show(k), "an unknown element changed from " + show(k) + " to " + show(n));
        ++u;
      }
    } else if (k.kind == 3) { hn = true; check(e->has_name() && e->get_name() == k.texts[0], "the name is " + e->get_name()); }
    else if (k.kind == 4) { hd = true; check(e->has_description() && e->get_description() == desc_markup(k), "the description is " + e->get_description() + " instead of " + desc_markup(k)); }
    else {
      FolderPtr f = AsFolder(e);
      check(f && fi < f->get_feature_array_size(), "a feature is lost");
      if (f && fi < f->get_feature_array_size()) compare(k, f->get_feature_array_at(fi++));
    }
  }
  check(u == e->get_unknown_elements_array_size(), "an unknown element appeared");
  check(e->get_misplaced_elements_array_size() == 0, "a misplaced element appeared");
  check(hn == e->has_name() && hd == e->has_description(), "a field appeared");
  if (FolderPtr f = AsFolder(e)) check(fi == f->get_feature_array_size(), "a feature appeared");
}
struct Obs : public ParserObserver {
  std::vector<string> log; int stop_new, stop_add, drop;
  Obs() : stop_new(-1), stop_add(-1), drop(-1) {}
  int nn, na, ne;
  static string nm(const ElementPtr& e) { return f("%d", e->Type()); }
  virtual bool NewElement(const ElementPtr& e) { log.push_back("new " + nm(e)); return (int)log.size() - 1 != stop_new; }
  virtual bool EndElement(const ElementPtr& p, const ElementPtr& e) { log.push_back("end " + nm(p) + " " + nm(e)); return (int)log.size() - 1 != drop; }
  virtual bool AddChild(const ElementPtr& p, const ElementPtr& e) { log.push_back("add " + nm(p) + " " + nm(e)); return (int)log.size() - 1 != stop_add; }
};
int tid(const X& x) { return x.kind == 0 ? Type_Folder : x.kind == 1 ? Type_Placemark : x.kind == 3 ? Type_name : Type_description; }
void expect(const X& x, int parent, std::vector<string>* l) {
  if (x.kind == 2) return;
  l->push_back(f("new %d", tid(x)));
  if (x.kind != 4) for (size_t i = 0; i < x.kids.size(); ++i) expect(x.kids[i], tid(x), l);
  if (parent >= 0) { l->push_back(f("end %d %d", parent, tid(x))); l->push_back(f("add %d %d", parent, tid(x))); }
}

// any known elements anywhere: what the observers are told
struct Seen : public ParserObserver {
  std::vector<string> log; std::vector<ElementPtr> st;
  bool NewElement(const ElementPtr& e) { log.push_back(f("begin %d", e->Type())); st.push_back(e); return true; }
  bool EndElement(const ElementPtr& p, const ElementPtr& e) {
    log.push_back(f("end %d in %d: ", e->Type(), p->Type()) + e->get_char_data());
    if (st.size() < 2 || st.back() != e || st[st.size() - 2] != p) log.push_back("the element or its parent is not the one that began");
    string t = e->get_char_data();
    if (SnippetPtr s = AsSnippet(e)) if (!s->has_text() || s->get_text() != t) log.push_back("its text was not read: " + s->get_text());
    if (LinkSnippetPtr s = AsLinkSnippet(e)) if (!s->has_text() || s->get_text() != t) log.push_back("its text was not read: " + s->get_text());
    if (SimpleDataPtr s = AsSimpleData(e)) if (!s->has_text() || s->get_text() != t) log.push_back("its text was not read: " + s->get_text());
    return true;
  }
  bool AddChild(const ElementPtr& p, const ElementPtr& e) {
    log.push_back(f("added %d to %d", e->Type(), p->Type()));
    if (st.size() < 2 || st.back() != e || st[st.size() - 2] != p) log.push_back("the element or its parent is not the one that began");
    if (!st.empty()) st.pop_back();
    return true;
  }
};
const std::vector<string>& all_names() {
  static std::vector<string> v;
  if (v.empty()) for (int i = 1; i < Type_Invalid; ++i) {
    string n = Xsd::GetSchema()->ElementName(i);
    if (!n.empty() && Xsd::GetSchema()->ElementId(n) == i && n != "description" && (Xsd::GetSchema()->ElementType(i) == XSD_SIMPLE_TYPE || KmlFactory::GetFactory()->CreateElementById((KmlDomType)i))) v.push_back(n);
  }
  return v;
}
X anything(int depth, const string& name) {
  X x = mk(name, Xsd::GetSchema()->ElementId(name) == Type_Unknown ? 2 : 0);
  static const char* an[] = {"id", "targetId", "a", "name", "hint", "x", "schemaUrl"};
  for (int i = 0; i < 7; ++i) if (rint_(4) == 0) x.attrs.push_back(std::make_pair(string(an[i]), rtext(2)));
  int k = depth > 0 ? rint_(5) : 0;
  static const char* close[][4] = {{"IconStyle", "Icon", "hotSpot", "scale"}, {"Placemark", "Snippet", "Point", "name"}, {"Point", "coordinates", "extrude", "altitudeMode"}, {"ExtendedData", "Data", "SchemaData", "unk"}, {"SchemaData", "SimpleData", "SimpleData", "unk"},
    {"GroundOverlay", "Icon", "LatLonBox", "color"}, {"Style", "IconStyle", "LabelStyle", "ListStyle"}, {"Folder", "Placemark", "Style", "NetworkLink"}, {"NetworkLinkControl", "linkSnippet", "Update", "LookAt"}};
  for (int i = 0; i < k; ++i) {
    string n = rint_(10) ? all_names()[rint_(all_names().size())] : "unk";
    for (size_t j = 0; j < sizeof close / sizeof *close; ++j) if (name == close[j][0] && rint_(3)) n = close[j][1 + rint_(3)];
    x.kids.push_back(x.kind == 2 ? unknown(1) : anything(depth - 1, n));
  }
  for (size_t i = 0; i <= x.kids.size(); ++i) x.texts.push_back(rint_(3) ? string() : rtext(3));
  return x;
}
void expect_any(const X& x, int parent, std::vector<string>* l) {
  if (x.kind == 2) return;
  int t = Xsd::GetSchema()->ElementId(x.name);
  if (t == Type_Icon && parent == Type_IconStyle) t = Type_IconStyleIcon;
  l->push_back(f("begin %d", t));
  string c;
  for (size_t i = 0; i < x.texts.size(); ++i) { c += x.texts[i]; if (i < x.kids.size()) expect_any(x.kids[i], t, l); }
  if (parent >= 0) { l->push_back(f("end %d in %d: ", t, parent) + c); l->push_back(f("added %d to %d", t, parent)); }
}
}
string dump_tree(Element* e);
SECTION(parser) {
  for (int r = 0; r < (tier ? 40000 : 5000); ++r) {
    static const char* roots[] = {"kml", "Folder", "Style", "Placemark", "IconStyle", "NetworkLinkControl", "ExtendedData"};
    X x = anything(1 + rint_(5), rint_(3) ? roots[rint_(7)] : all_names()[rint_(all_names().size())].c_str());
    string s = write(x), err;
    cur(s);
    Parser ps; Seen o; ps.AddObserver(&o);
    ElementPtr e = ps.Parse(s, &err);
    check(e.get() != NULL, "a well-formed document is rejected: " + err);
    std::vector<string> want; expect_any(x, -1, &want);
    size_t k = 0; while (k < want.size() && k < o.log.size() && want[k] == o.log[k]) ++k;
    check(o.log == want, "the observers are told \"" + (k < o.log.size() ? o.log[k] : string("nothing more")) + "\" instead of \"" + (k < want.size() ? want[k] : string("nothing more")) + "\"");
    if (e) { string o2 = SerializeRaw(e); check(xml(o2).ok, "what is read is written as malformed XML: " + o2); }
  }
  int reps = tier ? 60000 : 6000;
  for (int r = 0; r < reps; ++r) {
    X x = known(rint_(5));
    // a description may hold markup
    if (r % 7 == 0) { X d = mk("description", 4); X b = mk(rint_(3) ? "b" : "description", 2); b.texts.push_back(rtext(3)); for (int z = rint_(4); z > 0; --z) { X c = mk(rint_(2) ? "i" : "description", 2); c.kids.push_back(b); c.texts.push_back("s"); c.texts.push_back(rtext(2)); b = c; } d.kids.push_back(b); d.texts.push_back("t"); d.texts.push_back(rtext(3)); 
      bool has = false; for (size_t i = 0; i < x.kids.size(); ++i) has = has || x.kids[i].kind == 4;
      if (!has) { x.kids.push_back(d); x.texts.push_back(""); } }
    string s = write(x);
    cur(s);
    string err;
    ElementPtr e = Parse(s, &err);
    check(e.get() != NULL, "a well-formed document is rejected: " + err);
    if (!e) continue;
    compare(x, AsFeature(e));
    // written and read again: the same
    string s2 = SerializeRaw(e);
    Node n2 = xml(s2);
    check(n2.ok, "what is read is written as malformed XML: " + n2.err + ": " + s2);
    ElementPtr e2 = Parse(s2, &err);
    check(e2.get() != NULL, "what is read does not read again");
    if (e2) {
      string a = dump_tree(e.get()), b = dump_tree(e2.get());
      check(a == b, "reading, writing and reading changes the document: " + a.substr(0, 300) + " / " + b.substr(0, 300));
    }
    // namespace-aware: the same elements
    if (r % 4 == 0) {
      string ns = s; size_t p = ns.find_first_of(" />"); 
      if (s.find(":") == string::npos && s.find("xmlns") == string::npos) {
        ns.insert(p, " xmlns=\"http://www.opengis.net/kml/2.2\"");
        cur(ns);
        ElementPtr en = ParseNS(ns, &err);
        check(en.get() != NULL, "rejected in the namespace-aware mode: " + err);
        if (en) compare(x, AsFeature(en));
      }
    }
    // observers
    std::vector<string> want; expect(x, -1, &want);
    if (x.kids.size() || true) {
      Parser ps; Obs o; ps.AddObserver(&o);
      cur(s);
      ElementPtr eo = ps.Parse(s, &err);
      check(eo.get() != NULL && o.log == want, "the observer does not see every element begin and end in document order");
      if (!want.empty()) {
        int k = rint_(want.size());
        Parser p2; Obs o2; p2.AddObserver(&o2); 
        if (want[k][0] == 'n') o2.stop_new = k; else if (want[k][0] == 'a') o2.stop_add = k; else o2.drop = k;
        string e4;
        ElementPtr r4 = p2.Parse(s, &e4);
        if (want[k][0] == 'e') {
          check(r4.get() != NULL && o2.log == want, "refusing one element changes what the observer sees");
          if (r4) {   // everything but that element is there
            string d = dump_tree(r4.get());
            check(d != dump_tree(e.get()) || want[k].find(f(" %d", Type_name)) != string::npos || want[k].find(f(" %d", Type_description)) != string::npos, "an element the observer refused was added");
          }
        } else {
          check(r4.get() == NULL && !e4.empty(), "an observer that says stop does not end the parse with an error");
        }
      }
    }
    // truncated or damaged
    if (r % 3 == 0) {
      string t = s.substr(0, rint_(s.size()));
      cur("truncated: " + t); err.clear();
      ElementPtr z = Parse(t, &err);
      check(z.get() == NULL && !err.empty(), "a truncated document is accepted");
      string m = s;
      for (int i = rint_(4) + 1; i > 0; --i) { int w = rint_(3), at = rint_(m.size()); static const char c[] = "<>/&\"= aP\n"; if (w == 0) m[at] = c[rint_(10)]; else if (w == 1) m.erase(at, 1 + rint_(3)); else m.insert(at, 1, c[rint_(10)]); if (m.empty()) m = "x"; }
      cur("damaged: " + m); err.clear();
      z = Parse(m, &err);
      Node zn = xml(m);
      if (z) { check(zn.ok || m.find("<!") != string::npos || m.find("<?") != string::npos, "a malformed document is accepted"); SerializeRaw(z); } else check(!err.empty(), "a rejected document without an error message");
    }
  }
  // nesting limit
  for (int d = 1; d <= 130; ++d) for (int kind = 0; kind < 3; ++kind) {
    string s, t;
    for (int i = 0; i < d; ++i) { const char* n = kind == 0 || i == 0 ? "Folder" : kind == 1 ? "unk" : i % 2 ? "Folder" : "unk"; s += string("<") + n + ">"; t = string("</") + n + ">" + t; }
    for (int leaf = 0; leaf < 2; ++leaf) {
      string doc = leaf ? s.substr(0, s.size() - 1) + "/>" + t.substr(t.find('>') + 1) : s + t;
      cur(f("nesting depth %d of kind %d", d, kind));
      string err;
      ElementPtr e = Parse(doc, &err);
      check((e.get() != NULL) == (d <= 100), f("nesting depth %d is %s", d, e ? "accepted" : "rejected"));
      if (!e) check(!err.empty(), "no error message for a document nested too deep");
    }
  }
  static const char* bad[] = {"", " ", "<", "<foo/>", "<foo></foo>", "<foo>x<Placemark/></foo>", "<Placemark>", "</Placemark>", "<Placemark></Folder>", "<Placemark/><Placemark/>", "x<Placemark/>", "<Placemark a=b/>", "<Placemark a=\"1\" a=\"2\"/>",
    "<!DOCTYPE k [<!ENTITY a \"b\">]><Placemark><name>&a;</name></Placemark>", "<!DOCTYPE k [<!ENTITY a \"b\">]><Placemark/>", "<Placemark><name>&nope;</name></Placemark>", "<Placemark><name>\x01</name></Placemark>", "<Placemark><name>\xff</name></Placemark>", "<description2/>", "plain"};
  for (size_t i = 0; i < sizeof bad / sizeof *bad; ++i) {
    cur(bad[i]);
    string err;
    check(Parse(bad[i], &err).get() == NULL && !err.empty(), "accepted");
    check(ParseKml(bad[i]).get() == NULL, "accepted by ParseKml");
  }
  // old-style schemas
  for (int r = 0; r < 400; ++r) {
    static const char* nm[] = {"S1", "Schema", "Folder", "Document", "Placemark", "name", "description", "SimpleField", "Point", "unk", "f", "f2"};
    string s = "<Document>";
    for (int k = rint_(5) + 1; k > 0; --k) {
      int w = rint_(4);
      if (w == 0 || k == 3) s += string("<Schema parent=\"Placemark\" name=\"") + nm[rint_(12)] + "\"><SimpleField name=\"f\" type=\"string\"/><SimpleField name=\"" + nm[rint_(12)] + "\" type=\"string\"/></Schema>";
      else { string a = nm[rint_(12)], b = nm[rint_(12)]; s += "<" + a + "><" + b + ">v" + (rint_(3) ? "" : "<Point/>") + "</" + b + "><f>w</f></" + a + ">"; }
    }
    s += "</Document>";
    cur(s);
    string err;
    ElementPtr e = Parse(s, &err);
    check(e.get() != NULL, "rejected: " + err);
    if (e) { string o = SerializeRaw(e); check(xml(o).ok, "written as malformed XML: " + o); }
  }
  {
    string s = "<Document><Schema parent=\"Placemark\" name=\"S1\"><SimpleField name=\"f\" type=\"string\"/><SimpleField name=\"g\" type=\"int\"/></Schema><S1><name>n</name><f>x</f><g>7</g></S1><S1><f>y</f></S1></Document>";
    cur(s);
    DocumentPtr d = AsDocument(ParseKml(s));
    check(d && d->get_schema_array_size() == 1 && d->get_schema_array_at(0)->get_id() == "S1_id" && d->get_feature_array_size() == 2, "the old-style schema and its placemarks are not read");
    if (d && d->get_feature_array_size() == 2) {
      for (int i = 0; i < 2; ++i) {
        FeaturePtr p = d->get_feature_array_at(i);
        ExtendedDataPtr x = AsExtendedData(p->get_extendeddata());
        check(p->Type() == Type_Placemark && x && x->get_schemadata_array_size() == 1 && x->get_schemadata_array_at(0)->get_schemaurl() == "S1_id", "an old-style placemark without its data");
        if (x && x->get_schemadata_array_size() == 1) {
          SchemaDataPtr sd = x->get_schemadata_array_at(0);
          check(sd->get_simpledata_array_size() == (i ? 1u : 2u), f("an old-style placemark with %zu data items", sd->get_simpledata_array_size()));
          if (sd->get_simpledata_array_size()) check(sd->get_simpledata_array_at(0)->get_name() == "f" && sd->get_simpledata_array_at(0)->get_text() == (i ? "y" : "x"), "an old-style data item is wrong");
        }
      }
    }
  }
}
