// Concrete companion of the contracts on archives and links: ZIP files made and taken apart by code of its own.
#include "h.h"
#include <zlib.h>
#include <sys/types.h>
#include <dirent.h>
#include "kml/base/zip_file.h"
#include "kml/base/file.h"
#include "kml/base/uri_parser.h"
#include "kml/dom.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kml_uri_internal.h"
#include "kml/engine/href.h"
#include "kml/engine/get_links.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kmz_cache.h"
using namespace h;
using namespace kmlengine;
using std::string;
using std::vector;
using std::map;
using kmlbase::ZipFile;

// ------------------------------------------------------------------ a ZIP writer and reader of our own
struct Item { string name, data; bool deflate; };
static void le(string* s, unsigned long v, int n) { for (int i = 0; i < n; ++i) *s += (char)(v >> 8 * i & 255); }
static string squeeze(const string& d) {
  z_stream z; memset(&z, 0, sizeof z);
  deflateInit2(&z, 6, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
  string out(deflateBound(&z, d.size()) + 16, 0);
  z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)&out[0]; z.avail_out = out.size();
  deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}
static string make_zip(const vector<Item>& items, const string& comment) {
  string out, dir;
  for (size_t i = 0; i < items.size(); ++i) {
    const Item& t = items[i];
    string body = t.deflate ? squeeze(t.data) : t.data, h;
    unsigned long crc = crc32(0, (const Bytef*)t.data.data(), t.data.size());
    le(&h, 20, 2); le(&h, 0, 2); le(&h, t.deflate ? 8 : 0, 2); le(&h, 0x21, 4); le(&h, crc, 4); le(&h, body.size(), 4); le(&h, t.data.size(), 4); le(&h, t.name.size(), 2); le(&h, 0, 2);
    dir += string("PK\001\002"); le(&dir, 20, 2); dir += h; le(&dir, 0, 2); le(&dir, 0, 2); le(&dir, 0, 2); le(&dir, 0, 4); le(&dir, out.size(), 4);
    dir += t.name;
    out += string("PK\003\004") + h + t.name + body;
  }
  size_t at = out.size();
  out += dir + string("PK\005\006"); le(&out, 0, 2); le(&out, 0, 2); le(&out, items.size(), 2); le(&out, items.size(), 2); le(&out, dir.size(), 4); le(&out, at, 4); le(&out, comment.size(), 2);
  return out + comment;
}
static unsigned long rd(const string& s, size_t at, int n) { unsigned long v = 0; for (int i = n - 1; i >= 0; --i) v = v << 8 | (unsigned char)(at + i < s.size() ? s[at + i] : 0); return v; }
static bool open_zip(const string& z, vector<Item>* out) {
  size_t e = z.rfind("PK\005\006");
  if (e == string::npos) return false;
  size_t n = rd(z, e + 10, 2), p = rd(z, e + 16, 4);
  for (size_t i = 0; i < n; ++i) {
    if (z.compare(p, 4, "PK\001\002")) return false;
    size_t nl = rd(z, p + 28, 2), xl = rd(z, p + 30, 2), cl = rd(z, p + 32, 2), cs = rd(z, p + 20, 4), us = rd(z, p + 24, 4), lo = rd(z, p + 42, 4);
    Item t; t.name = z.substr(p + 46, nl); t.deflate = rd(z, p + 10, 2) == 8;
    if (z.compare(lo, 4, "PK\003\004")) return false;
    string body = z.substr(lo + 30 + rd(z, lo + 26, 2) + rd(z, lo + 28, 2), cs);
    if (t.deflate) {
      string d(us + 1, 0);
      z_stream s; memset(&s, 0, sizeof s);
      inflateInit2(&s, -15);
      s.next_in = (Bytef*)body.data(); s.avail_in = body.size(); s.next_out = (Bytef*)&d[0]; s.avail_out = d.size();
      int rc = inflate(&s, Z_FINISH);
      bool ok = (rc == Z_STREAM_END || (rc == Z_BUF_ERROR && s.total_out == us)) && s.total_out == us;
      inflateEnd(&s);
      if (!ok) return false;
      d.resize(us); t.data = d;
    } else t.data = body;
    if (t.data.size() != us || crc32(0, (const Bytef*)t.data.data(), us) != rd(z, p + 16, 4)) return false;
    out->push_back(t);
    p += 46 + nl + xl + cl;
  }
  return true;
}

static string rbytes(int n) {
  string s;
  int k = rint_(n + 1);
  bool plain = rint_(2);
  for (int i = 0; i < k; ++i) s += plain ? "ab \n"[rint_(4)] : (char)rnd();
  return s;
}
static string rpath() {
  static const char* t[] = {"doc.kml", "a.kml", "dir/b.kml", "x.KML", "kml", ".kml", "x.kmlx", "img/p.png", "p.png", "a..b", "dir/", "z z", "d/../e", "f.kml.txt", "\xc3\xa9.kml"};
  return t[rint_(15)];
}
static const char kFile[] = "t.kmz";
static void spit(const string& p, const string& d) { FILE* f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
static string slurp(const string& p) { string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static string names(const vector<Item>& v) { string s; for (size_t i = 0; i < v.size(); ++i) s += f("%s%s(%zu%s)", i ? " " : "", q(v[i].name).c_str(), v[i].data.size(), v[i].deflate ? "z" : ""); return s; }
static const Item* first(const vector<Item>& v, const string& name) { for (size_t i = 0; i < v.size(); ++i) if (v[i].name == name) return &v[i]; return NULL; }
static bool ends(const string& s, const string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), string::npos, e) == 0; }

// what an archive holding exactly these items must answer
static void answers(KmzFile* k, const vector<Item>& v, const string& what, unsigned long limit) {
  vector<string> l;
  check(k->List(&l), what + ": not listed");
  vector<string> want;
  for (size_t i = 0; i < v.size(); ++i) want.push_back(v[i].name);
  check(l == want, f("%s: %zu names listed, there are %zu, or others", what.c_str(), l.size(), want.size()));
  for (size_t i = 0; i < v.size() + 2; ++i) {
    string n = i < v.size() ? v[i].name : i == v.size() ? rpath() : "DOC.KML";
    const Item* t = first(v, n);
    string out = "old";
    bool can = t && !t->data.empty() && t->data.size() <= limit && n.size() < 256;
    bool got = k->ReadFile(n.c_str(), &out);
    if (!t || (!t->data.empty() && n.size() < 256)) check(got == can, f("%s: %s read: %d", what.c_str(), q(n).c_str(), got));
    if (got) check(t && out == t->data, f("%s: %s read as %zu bytes, or others", what.c_str(), q(n).c_str(), out.size()));
    else check(out == "old", f("%s: %s not read, but the output changed", what.c_str(), q(n).c_str()));
    if (t && !t->data.empty() && n.size() < 256) check(k->ReadFile(n.c_str(), NULL) == can, f("%s: %s asked for without output", what.c_str(), q(n).c_str()));
  }
  const Item* t = NULL;
  for (size_t i = 0; i < v.size() && !t; ++i) if (ends(v[i].name, ".kml")) t = &v[i];
  if (t) t = first(v, t->name);
  string kml = "old", path = "old";
  bool got = k->ReadKmlAndGetPath(&kml, &path);
  if (!t) check(!got, what + ": KML read, there is none");
  else if (!t->data.empty() && t->name.size() < 256) {
    bool can = t->data.size() <= limit;
    check(got == can, f("%s: KML read: %d", what.c_str(), got));
    if (got) check(kml == t->data && path == t->name, f("%s: KML read from %s", what.c_str(), q(path).c_str()));
    kml = "old";
    check(k->ReadKml(&kml) == can && (!can || kml == t->data), what + ": ReadKml");
  }
}

SECTION(kmz) {
  for (int n = 0; n < (tier ? 30000 : 3000); ++n) {
    vector<Item> v;
    for (int i = 1 + rint_(5); i > 0; --i) { Item t; t.name = rpath(); t.data = rint_(8) ? rbytes(300) : rbytes(70000); t.deflate = rint_(2); v.push_back(t); }
    if (!rint_(6)) { int k = rint_(3) ? 200 + rint_(60) : 1000 + rint_(60); v[rint_(v.size())].name = string(k, 'n') + ".kml"; }
    string comment = rint_(4) ? "" : rbytes(2000);
    if (comment.find("PK") != string::npos) comment = "";
    string z = make_zip(v, comment);
    bool longname = false;
    for (size_t i = 0; i < v.size(); ++i) longname |= v[i].name.size() > 1000;
    string what = "archive of " + names(v);
    cur(what.substr(0, 4000));
    check(KmzFile::IsKmz(z), what + ": not taken for an archive");
    KmzFilePtr k = KmzFile::OpenFromString(z);
    check(k != NULL, what + ": not opened");
    if (!k) continue;
    string same;
    check(k->SaveToString(&same) && same == z, what + ": bytes handed out differ");
    unsigned long limit = 1UL << 31;
    if (!rint_(4)) { limit = 1 + rint_(400); k->set_max_uncompressed_file_size(limit); }
    if (!longname) answers(k.get(), v, what, limit);
    else { vector<string> l; k->List(&l); for (size_t i = 0; i < l.size(); ++i) check(first(v, l[i]) != NULL, what + ": lists " + q(l[i])); }
    check(!k->AddFile("x", "new.txt"), what + ": added to an archive opened for reading");
    if (!rint_(4)) {
      spit(kFile, z);
      KmzFilePtr g = KmzFile::OpenFromFile(kFile);
      check(g != NULL, what + ": not opened from a file");
      if (g && !longname) answers(g.get(), v, what + " from a file", 1UL << 31);
    }
    // damaged: what is still read is what was put in
    for (int r = 0; r < 6; ++r) {
      string b = z;
      int m = rint_(4);
      if (m == 0) b.resize(rint_(b.size()));
      else for (int i = 0; i < m; ++i) { size_t at = rint_(2) ? rint_(b.size()) : b.size() - 1 - rint_(std::min<size_t>(b.size(), 200)); b[at] = rint_(2) ? (char)rnd() : rint_(2) ? (char)255 : 0; }
      cur(what.substr(0, 3000) + f(", damaged (%d)", r));
      KmzFilePtr d = KmzFile::OpenFromString(b);
      check((d != NULL) == (b.compare(0, 4, string("PK\003\004")) == 0), what + ": damaged, opened or not");
      if (!d) continue;
      d->set_max_uncompressed_file_size(1 << 20);
      vector<string> l;
      d->List(&l);
      for (size_t i = 0; i < l.size() + v.size(); ++i) {
        string nm = i < l.size() ? l[i] : v[i - l.size()].name, out;
        if (!d->ReadFile(nm.c_str(), &out)) continue;
        bool known = false;
        for (size_t j = 0; j < v.size(); ++j) known |= v[j].data == out;
        check(known, f("%s: damaged, %s read as %zu bytes that were never in it", what.c_str(), q(nm).c_str(), out.size()));
      }
      string kml;
      d->ReadKml(&kml);
    }
  }
  check(KmzFile::OpenFromString("") == NULL && KmzFile::OpenFromString("PK") == NULL && KmzFile::OpenFromString("<kml/>") == NULL && !KmzFile::IsKmz("PK\003"), "not an archive, but opened");
  check(KmzFile::OpenFromFile("no such file") == NULL, "no such file, but opened");
}

SECTION(kmzwrite) {
  for (int n = 0; n < (tier ? 6000 : 600); ++n) {
    vector<Item> v, uniq;
    unlink(kFile);
    string what = "archive written:";
    {
      KmzFilePtr k = KmzFile::Create(kFile);
      check(k != NULL, "no archive made");
      if (!k) return;
      for (int i = rint_(7); i >= 0; --i) {
        static const char* bad[] = {"/abs.kml", "../up.kml", "..", "\\w.kml", "/", "../../x", "..x"};
        Item t; t.deflate = true; t.data = rint_(8) ? rbytes(300) : rbytes(70000);
        bool ok = rint_(4);
        t.name = ok ? rpath() : bad[rint_(7)];
        what += " " + q(t.name);
        cur(what.substr(0, 4000));
        bool got = k->AddFile(t.data, t.name);
        check(got == ok, f("%s: path %s", what.c_str(), ok ? "refused" : "accepted"));
        if (got && ok) v.push_back(t);
      }
    }
    string z = slurp(kFile);
    vector<Item> got;
    if (v.empty()) continue;
    check(open_zip(z, &got), what + ": not a ZIP file");
    bool same = got.size() == v.size();
    for (size_t i = 0; same && i < v.size(); ++i) same = got[i].name == v[i].name && got[i].data == v[i].data;
    check(same, what + ": holds " + names(got));
    KmzFilePtr k = KmzFile::OpenFromFile(kFile);
    check(k != NULL, what + ": not opened again");
    if (k) answers(k.get(), v, what, 1UL << 31);
  }
  for (int n = 0; n < (tier ? 600 : 60); ++n) {
    string kml = "<kml>" + rbytes(400) + "</kml>";
    unlink(kFile);
    cur("WriteKmz");
    check(KmzFile::WriteKmz(kFile, kml), "WriteKmz failed");
    vector<Item> got;
    check(open_zip(slurp(kFile), &got) && got.size() == 1 && got[0].name == "doc.kml" && got[0].data == kml, "WriteKmz: holds " + names(got));
  }
  check(KmzFile::Create("no/such/dir/x.kmz") == NULL && !KmzFile::WriteKmz("no/such/dir/x.kmz", "<kml/>"), "archive made in no directory");
  // an archive of a KML file and the files it refers to
  mkdir("base", 0700); mkdir("base/sub", 0700);
  const char* files[] = {"a.png", "b.kml", "sub/c.png", "sub/d.dae", "e f.png"};
  for (int i = 0; i < 5; ++i) spit(string("base/") + files[i], f("contents of %d ", i) + string(i * 40, 'x'));
  spit("outside.png", "secret");
  for (int n = 0; n < (tier ? 3000 : 300); ++n) {
    struct L { const char* href; const char* file; };      // file: what is to be stored, NULL: nothing
    static const L l[] = {{"a.png", "a.png"}, {"./a.png", "a.png"}, {"b.kml#frag", "b.kml"}, {"sub/c.png", "sub/c.png"}, {"sub/../sub/c.png", "sub/c.png"}, {"sub/d.dae", "sub/d.dae"},
                          {"../outside.png", NULL}, {"sub/../../outside.png", NULL}, {"missing.png", NULL}, {"#local", NULL}, {"http://example.com/a.png", NULL}, {"sub/./d.dae#x", "sub/d.dae"}, {"../base/a.png", NULL}};
    vector<string> want, paths;
    size_t errors = 0;
    kmldom::KmlFactory* fac = kmldom::KmlFactory::GetFactory();
    kmldom::FolderPtr folder = fac->CreateFolder();
    string what = "archive of a KML file referring to";
    for (int i = rint_(8); i >= 0; --i) {
      const L& x = l[rint_(13)];
      kmldom::GroundOverlayPtr g = fac->CreateGroundOverlay();
      g->set_icon(fac->CreateIcon());
      g->get_icon()->set_href(x.href);
      folder->add_feature(g);
      what += string(" ") + x.href;
      if (x.file && std::find(want.begin(), want.end(), x.file) == want.end()) want.push_back(x.file);
      if (string(x.href).find("http") && x.href[0] != '#') { bool again = std::find(paths.begin(), paths.end(), string(x.href)) != paths.end(); paths.push_back(x.href); errors += !x.file && !(again && !strcmp(x.href, "missing.png")); }
    }
    cur(what);
    vector<Item> got;
    unlink(kFile);
    kmldom::KmlPtr kml = fac->CreateKml();
    kml->set_feature(folder);
    if (rint_(2)) check(KmzFile::CreateFromElement(kml, "base", kFile), what + ": not made");
    else {
      spit("base/main.kml", kmldom::SerializePretty(kml));
      check(KmzFile::CreateFromKmlFilepath("base/main.kml", kFile), what + ": not made from the file");
    }
    bool same = open_zip(slurp(kFile), &got) && got.size() == want.size() + 1 && got[0].name == "doc.kml" && got[0].data == kmldom::SerializePretty(kml);
    for (size_t i = 0; same && i < want.size(); ++i) same = got[i + 1].name == want[i] && got[i + 1].data == slurp("base/" + want[i]);
    check(same, what + ": holds " + names(got));
    unlink(kFile);
    {
      KmzFilePtr k = KmzFile::Create(kFile);
      check(k && k->AddFileList("base", paths) == errors, what + ": number of files left out");
    }
  }
}

// ------------------------------------------------------------------ links
struct Url { string scheme, host, path, query, frag; bool q_, f_; };      // path with its leading /
static Url cut(const string& s) {
  Url u; u.q_ = u.f_ = false;
  string r = s;
  size_t i = r.find('#');
  if (i != string::npos) { u.f_ = true; u.frag = r.substr(i + 1); r.resize(i); }
  i = r.find('?');
  if (i != string::npos) { u.q_ = true; u.query = r.substr(i + 1); r.resize(i); }
  i = r.find("://");
  if (i != string::npos) {
    u.scheme = r.substr(0, i); r = r.substr(i + 3);
    i = r.find('/');
    u.host = r.substr(0, i);
    r = i == string::npos ? "" : r.substr(i);
  }
  u.path = r;
  return u;
}
static string glue(const Url& u) { return (u.scheme.empty() ? "" : u.scheme + "://" + u.host) + u.path + (u.q_ ? "?" + u.query : "") + (u.f_ ? "#" + u.frag : ""); }
static string dots(const string& p) {     // RFC 3986 5.2.4
  vector<string> in, out;
  size_t i = 1;
  for (;;) { size_t j = p.find('/', i); in.push_back(p.substr(i, j == string::npos ? j : j - i)); if (j == string::npos) break; i = j + 1; }
  for (size_t k = 0; k < in.size(); ++k) {
    bool last = k + 1 == in.size();
    if (in[k] == ".") { if (last) out.push_back(""); }
    else if (in[k] == "..") { if (!out.empty()) out.pop_back(); if (last) out.push_back(""); }
    else out.push_back(in[k]);
  }
  string r;
  for (size_t k = 0; k < out.size(); ++k) r += "/" + out[k];
  return r;
}
static string resolve(const string& base, const string& ref) {     // RFC 3986 5.2.2
  Url b = cut(base), r = cut(ref);
  if (!r.scheme.empty()) { r.path = r.path.empty() ? "" : dots(r.path); return glue(r); }
  Url t = b;
  t.frag = r.frag; t.f_ = r.f_;
  if (r.path.empty()) { if (r.q_) { t.query = r.query; t.q_ = true; } return glue(t); }
  t.query = r.query; t.q_ = r.q_;
  t.path = dots(r.path[0] == '/' ? r.path : b.path.substr(0, b.path.rfind('/') + 1) + r.path);
  return glue(t);
}
typedef map<string, string> Web;
static Web web;
static map<string, int> fetched;
static int asked;
class Net : public kmlbase::NetFetcher {
 public:
  virtual bool FetchUrl(const string& url, string* data) const {
    ++asked;
    Web::iterator i = web.find(url);
    if (i == web.end()) return false;
    ++fetched[url];
    *data = i->second;
    return true;
  }
};
static bool split_kmz(const string& url, string* kmz, string* path) {
  Url u = cut(url);
  u.q_ = u.f_ = false;
  string s = glue(u);
  size_t i = s.find(".kmz");
  if (i == string::npos) return false;
  *kmz = s.substr(0, i + 4);
  *path = s.size() > i + 4 ? s.substr(i + 5) : "";
  return true;
}
static bool direct(const string& url, string* out, string* at) {
  string kmz, path;
  *at = url;
  if (!split_kmz(url, &kmz, &path)) { if (!web.count(url)) return false; *out = web[url]; return true; }
  vector<Item> v;
  if (!web.count(kmz) || !open_zip(web[kmz], &v)) return false;
  if (path.empty()) {
    for (size_t i = 0; i < v.size(); ++i) if (ends(v[i].name, ".kml")) { *out = v[i].data; *at = kmz + "/" + v[i].name; return true; }
    return false;
  }
  const Item* t = first(v, path);
  if (!t) return false;
  *out = t->data;
  return true;
}
static bool want_fetch(const string& base, const string& target, string* out, string* at) {
  string url = resolve(base, target), kmz, path;
  if (direct(url, out, at)) return true;
  if (!split_kmz(url, &kmz, &path)) return false;
  vector<Item> v;
  if (!web.count(kmz) || !open_zip(web[kmz], &v)) return false;
  return direct(resolve(kmz, target), out, at);
}
static string kmldoc(const string& name) { return "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Document id=\"d\"><name>" + name + "</name></Document></kml>"; }
static void href_case() {
  static const char* sc[] = {"", "", "", "http", "ftp", "file"};
  static const char* hosts[] = {"example.com", "h:80", ""};
  static const char* paths[] = {"", "a.kml", "b/c.png", "x y.png", "../u.kml", "a.kmz/doc.kml"};
  static const char* frags[] = {"", "#style", "#a/b", "#"};
  string s = sc[rint_(6)], host = hosts[rint_(3)], p = paths[rint_(6)], fr = frags[rint_(4)];
  if (s.empty()) host = "";
  string t = (s.empty() ? "" : s + "://" + host + "/") + p + fr;
  cur("Href(" + q(t) + ")");
  Href x(t);
  string wf = fr.empty() ? "" : fr.substr(1);
  check(x.get_scheme() == s && x.get_net_loc() == host && x.get_path() == p && x.get_fragment() == wf,
        f("%s taken apart: scheme %s host %s path %s fragment %s", q(t).c_str(), q(x.get_scheme()).c_str(), q(x.get_net_loc()).c_str(), q(x.get_path()).c_str(), q(x.get_fragment()).c_str()));
  check(x.IsRelativePath() == (s.empty() && !p.empty()) && x.IsFragmentOnly() == (s.empty() && p.empty() && !wf.empty()), q(t) + ": relative or not");
}
SECTION(links) {
  static const char* dirs[] = {"http://h.com/", "http://h.com/d/", "http://h.com/d/e/", "http://other.org:8080/d/"};
  static const char* files[] = {"a.kml", "b.kml", "p.png", "k.kmz", "m.kmz", "n.kmz"};
  static const char* inner[] = {"doc.kml", "s/x.kml", "s/p.png", "q.kml", "p.png"};
  static const char* targets[] = {"a.kml", "b.kml", "p.png", "k.kmz", "m.kmz", "n.kmz/doc.kml", "k.kmz/s/x.kml", "k.kmz/missing.png", "s/x.kml", "s/p.png", "../a.kml", "../p.png", "../../a.kml", "../k.kmz", "e/a.kml", "./b.kml", "d/p.png",
                                  "#d", "a.kml#d", "doc.kml", "q.kml#x", "../s/x.kml", "http://h.com/d/k.kmz", "http://h.com/k.kmz/doc.kml", "http://h.com/d/m.kmz/missing.kml", "http://other.org:8080/d/a.kml", "/a.kml", "/d/k.kmz/doc.kml",
                                  "missing.kml", "missing.kmz", "s/../doc.kml", "d/k.kmz/q.kml", "e/n.kmz/p.png", "a.kml?x=1", "..", "a//b.kml"};
  for (int n = 0; n < (tier ? 8000 : 800); ++n) {
    for (int i = 0; i < 10; ++i) href_case();
    web.clear(); fetched.clear();
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 6; ++j) {
      if (!rint_(3)) continue;
      string u = string(dirs[i]) + files[j];
      if (j < 2) web[u] = kmldoc(u);
      else if (j == 2) web[u] = "image " + u;
      else {
        vector<Item> v;
        for (int k = 0; k < 5; ++k) if (rint_(2)) { Item t; t.name = inner[k]; t.deflate = rint_(2); t.data = ends(t.name, "kml") ? kmldoc(u + "/" + t.name) : "image " + u + t.name; v.push_back(t); }
        if (v.empty()) { Item t; t.name = "empty.txt"; t.data = "x"; t.deflate = false; v.push_back(t); }
        web[u] = make_zip(v, "");
      }
    }
    Net net;
    KmlCache cache(&net, 1000);
    KmzCache kc(&net, 1000);
    map<string, KmlFilePtr> first;
    for (int i = 0; i < 12; ++i) {
      string base = string(dirs[rint_(4)]) + files[rint_(2) ? rint_(2) : 3 + rint_(3)];
      if (ends(base, ".kmz") && rint_(3)) base += string("/") + inner[rint_(5)];
      string target = targets[rint_(sizeof targets / sizeof *targets)], out, at, got;
      string what = target + " from " + base;
      cur(what);
      string r;
      check(ResolveUri(base, target, &r) && r == resolve(base, target), f("%s resolved as %s, should be %s", what.c_str(), r.c_str(), resolve(base, target).c_str()));
      bool can = want_fetch(base, target, &out, &at);
      asked = 0;
      bool ok = cache.FetchDataRelative(base, target, &got);
      check(ok == can, f("%s: %s", what.c_str(), ok ? "fetched, should not be" : ("not fetched, should be " + at).c_str()));
      check(asked <= 3, f("%s: asked the network %d times", what.c_str(), asked));
      if (ok && can) check(got == out, f("%s: fetched %zu bytes, should be those of %s", what.c_str(), got.size(), at.c_str()));
      KmlFilePtr kf = cache.FetchKmlRelative(base, target);
      bool kml = can && out.compare(0, 4, "<kml") == 0;
      check((kf != NULL) == kml, f("%s as KML: %s", what.c_str(), kf ? "fetched" : ("not fetched, should be " + at).c_str()));
      if (kf && kml) {
        check(kf->get_url() == at, f("%s: its url is %s, should be %s", what.c_str(), kf->get_url().c_str(), at.c_str()));
        check(kf->get_kml_cache() == &cache, what + ": its cache");
        if (!first.count(at)) first[at] = kf;
        check(cache.FetchKmlRelative(base, at) == first[at] && cache.FetchKmlAbsolute(at) == first[at], what + ": parsed again for its own url " + at);
        kmldom::KmlPtr k = kmldom::AsKml(kf->get_root());
        check(k && k->has_feature() && kmldoc(k->get_feature()->get_name()) == out, what + ": other contents");
      }
      // the pieces
      string kmz, path, k2 = "old", p2 = "old", fu;
      bool is = split_kmz(r, &kmz, &path);
      Url u = cut(r); u.q_ = u.f_ = false;
      check(GetFetchableUri(r, &fu) && fu == glue(u), f("%s: fetchable part %s", r.c_str(), fu.c_str()));
      check(KmzSplit(fu, &k2, &p2) == is && (is ? k2 == kmz && p2 == path : k2 == "old" && p2 == "old"), f("%s split as %s and %s", fu.c_str(), k2.c_str(), p2.c_str()));
      string fr = "old", wf = cut(target).frag;
      check(SplitUriFragment(target, &fr) == cut(target).f_ && (!cut(target).f_ || fr == wf), target + ": its fragment is " + fr);
    }
    for (map<string, int>::iterator i = fetched.begin(); i != fetched.end(); ++i) check(i->second <= 1, f("%s fetched %d times", i->first.c_str(), i->second));
    // links of a KML file
    vector<string> want, wantrel, l, rel;
    string kml = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Folder>";
    for (int i = rint_(7); i > 0; --i) {
      string t = targets[rint_(sizeof targets / sizeof *targets)];
      size_t amp;
      (void)amp;
      bool counts = true;
      switch (rint_(8)) {
        case 0: kml += "<NetworkLink><Link><href>" + t + "</href></Link></NetworkLink>"; break;
        case 1: kml += "<GroundOverlay><Icon><href>" + t + "</href></Icon></GroundOverlay>"; break;
        case 2: kml += "<Placemark><styleUrl>" + t + "</styleUrl></Placemark>"; break;
        case 3: kml += "<Placemark><Style><IconStyle><Icon><href>" + t + "</href></Icon></IconStyle></Style></Placemark>"; break;
        case 4: kml += "<Placemark><Model><ResourceMap><Alias><targetHref>" + t + "</targetHref><sourceHref>no</sourceHref></Alias></ResourceMap></Model></Placemark>"; break;
        case 5: kml += "<Placemark><ExtendedData><SchemaData schemaUrl=\"" + t + "\"/></ExtendedData></Placemark>"; break;
        case 6: kml += "<Placemark><Style><ListStyle><ItemIcon><href>" + t + "</href></ItemIcon></ListStyle></Style></Placemark>"; break;
        default: kml += "<NetworkLinkControl><Update><targetHref>" + t + "</targetHref></Update></NetworkLinkControl><name>" + t + "</name>"; counts = false;
      }
      if (!counts) continue;
      want.push_back(t);
      if (t.find("://") == string::npos && t[0] != '#') wantrel.push_back(t);
    }
    kml += "</Folder></kml>";
    cur("links of " + kml);
    check(GetLinks(kml, &l) && l == want, f("%zu links found of %zu in %s", l.size(), want.size(), kml.c_str()));
    rel.push_back("before"); wantrel.insert(wantrel.begin(), "before");
    check(GetRelativeLinks(kml, &rel) && rel == wantrel, f("%zu relative links found of %zu in %s", rel.size() - 1, wantrel.size() - 1, kml.c_str()));
    check(!GetLinks("<kml><Folder></kml>", &l) && !GetLinks(kml, NULL), "links of what is no KML");
  }
}
