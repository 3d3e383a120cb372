#ifndef DOM_H_H
#define DOM_H_H
#include "h.h"
#include "kml/dom.h"
#include "kml/dom/kml_factory.h"
#include "kml/dom/kml_cast.h"
#include "kml/dom/kml_ptr.h"
#include "kml/dom/xsd.h"
#include "kml/base/vec3.h"
#include "kml/base/color32.h"
using namespace kmldom;
using std::string;
struct FieldD {
  string name, owner, kind;      // kind: bool int double string color ptr aptr astr avec3 aint
  int enumn;                     // >0: enum with that many values
  std::function<void(Element*, int)> set;                       // simple kinds; array kinds: append
  std::function<string(Element*)> obs;                          // "-" when unset, else rendering (ptr: address)
  std::function<string(Element*)> raw;                          // value whether set or not (simple kinds)
  std::function<void(Element*)> clear;                          // may be empty
  std::function<bool(Element*, const ElementPtr&)> setp;        // ptr kinds: false when not castable
  std::function<std::vector<Element*>(Element*)> kids;          // ptr kinds: current children
  std::function<string(Element*, int)> val;                     // text of variant
};
struct ClassD { string name; int type; std::function<ElementPtr()> create; std::vector<FieldD> fields; };
struct CastD { string name; std::function<Element*(const ElementPtr&)> as; };
struct IdD { string name, alias, cls; int id; };
struct EnumD { string name; int id; std::vector<string> t; };
std::vector<CastD> casts(); std::vector<IdD> type_ids(); std::vector<EnumD> enum_texts(); int type_invalid();
std::vector<ClassD>& classes();
string dstr(double d);
string dump_tree(Element* e);                                   // abstract value of a tree
ElementPtr random_elem(ClassD& c, int depth, int dens);         // random tree of the class
ClassD* class_of(Element* e);
void all_elements(Element* e, std::vector<Element*>* out);      // e and everything below
string vstr(const kmlbase::Vec3& v);
double dval(int v);
string sval(int v);
int ival(int v, int n);
#endif
