// A small stand-in for the parts of pugixml (an external library) that PreCore's XML code
// calls, used in the encoding only: native replays run on the installed pugixml.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <string>
#define PUGIXML_TEXT(t) t
namespace pugi {
typedef char char_t;
enum xml_node_type { node_null, node_document, node_element, node_pcdata };
enum xml_encoding { encoding_auto };
enum xml_parse_status { status_ok_ };
const unsigned parse_default = 0x74, format_default = 1, format_indent = 1;
namespace impl {
struct Attr { std::string name, value; Attr *next = nullptr; };
struct Node { xml_node_type type; std::string name, value; Node *parent = nullptr, *first = nullptr, *next = nullptr; Attr *attr = nullptr; Node(xml_node_type t) : type(t) {} };
inline bool boolean(const char *v) { return (*v == '1') | (*v == 't') | (*v == 'T') | (*v == 'y') | (*v == 'Y'); }
inline void drop(Node *n) {
  for (Attr *a = n->attr; a;) { Attr *x = a->next; delete a; a = x; }
  for (Node *c = n->first; c;) { Node *x = c->next; drop(c); c = x; }
  delete n;
}
} // namespace impl
class xml_attribute {
  impl::Attr *a = nullptr;
public:
  xml_attribute() = default;
  explicit xml_attribute(impl::Attr *x) : a(x) {}
  const char *name() const { return a ? a->name.c_str() : ""; }
  const char *value() const { return a ? a->value.c_str() : ""; }
  const char *as_string(const char *d = "") const { return a ? a->value.c_str() : d; }
  bool as_bool(bool d = false) const { return a ? impl::boolean(a->value.c_str()) : d; }
  bool set_value(const char *v) { if (!a) return false; a->value = v; return true; }
  bool set_value(bool v) { return set_value(v ? "true" : "false"); }
  bool set_value(int v) { return set_value(std::to_string(v).c_str()); }
  bool set_value(unsigned v) { return set_value(std::to_string(v).c_str()); }
  template <class T> xml_attribute &operator=(T v) { set_value(v); return *this; }
  bool empty() const { return !a; }
  explicit operator bool() const { return a; }
  xml_attribute next_attribute() const { return xml_attribute(a ? a->next : nullptr); }
  bool operator==(const xml_attribute &o) const { return a == o.a; }
  bool operator!=(const xml_attribute &o) const { return a != o.a; }
};
template <class T> struct Iter {
  T at;
  T &operator*() { return at; }
  T *operator->() { return &at; }
  Iter &operator++();
  bool operator==(const Iter &o) const { return at == o.at; }
  bool operator!=(const Iter &o) const { return at != o.at; }
};
template <class T> struct Range { Iter<T> b; Iter<T> begin() const { return b; } Iter<T> end() const { return {T()}; } };
class xml_node;
class xml_text {
  impl::Node *n;
  impl::Node *data() const {
    if (!n || n->type == node_pcdata) return n;
    for (impl::Node *c = n->first; c; c = c->next) if (c->type == node_pcdata) return c;
    return nullptr;
  }
public:
  explicit xml_text(impl::Node *x) : n(x) {}
  bool empty() const { return !data(); }
  explicit operator bool() const { return data(); }
  const char *get() const { impl::Node *d = data(); return d ? d->value.c_str() : ""; }
  const char *as_string(const char *d = "") const { impl::Node *x = data(); return x ? x->value.c_str() : d; }
  bool as_bool(bool d = false) const { impl::Node *x = data(); return x ? impl::boolean(x->value.c_str()) : d; }
  inline bool set(const char *v);
};
class xml_node {
protected:
  impl::Node *n = nullptr;
public:
  typedef Iter<xml_node> iterator;
  typedef Iter<xml_attribute> attribute_iterator;
  xml_node() = default;
  explicit xml_node(impl::Node *x) : n(x) {}
  impl::Node *raw() const { return n; }
  bool empty() const { return !n; }
  explicit operator bool() const { return n; }
  bool operator==(const xml_node &o) const { return n == o.n; }
  bool operator!=(const xml_node &o) const { return n != o.n; }
  xml_node_type type() const { return n ? n->type : node_null; }
  const char *name() const { return n ? n->name.c_str() : ""; }
  const char *value() const { return n ? n->value.c_str() : ""; }
  bool set_name(const char *v) { if (!n) return false; n->name = v; return true; }
  bool set_value(const char *v) { if (!n || n->type != node_pcdata) return false; n->value = v; return true; }
  xml_text text() const { return xml_text(n); }
  xml_node parent() const { return xml_node(n ? n->parent : nullptr); }
  xml_node root() const { impl::Node *r = n; while (r && r->parent) r = r->parent; return xml_node(r); }
  xml_node first_child() const { return xml_node(n ? n->first : nullptr); }
  xml_node next_sibling() const { return xml_node(n ? n->next : nullptr); }
  xml_attribute first_attribute() const { return xml_attribute(n ? n->attr : nullptr); }
  xml_node append_child(xml_node_type t = node_element) {
    if (!n || n->type == node_pcdata) return xml_node();
    impl::Node *c = new impl::Node(t), **to = &n->first;
    while (*to) to = &(*to)->next;
    c->parent = n;
    *to = c;
    return xml_node(c);
  }
  xml_node append_child(const char *name) { xml_node c = append_child(node_element); c.set_name(name); return c; }
  xml_attribute append_attribute(const char *name) {
    if (!n || n->type != node_element) return xml_attribute();
    impl::Attr *c = new impl::Attr, **to = &n->attr;
    while (*to) to = &(*to)->next;
    c->name = name;
    *to = c;
    return xml_attribute(c);
  }
  xml_node child(const char *name) const {
    for (impl::Node *c = n ? n->first : nullptr; c; c = c->next) if (c->type == node_element && c->name == name) return xml_node(c);
    return xml_node();
  }
  xml_attribute attribute(const char *name) const {
    for (impl::Attr *c = n ? n->attr : nullptr; c; c = c->next) if (c->name == name) return xml_attribute(c);
    return xml_attribute();
  }
  // parses: here for plain text only, markup ends it
  int append_buffer(const void *data, size_t size, unsigned = parse_default, xml_encoding = encoding_auto) {
    std::string out;
    bool solid = false;
    for (size_t i = 0; i < size; i++) {
      const char c = ((const char *)data)[i];
      if (c == '<' || c == 0) break;
      if (c == '\r') { if (i + 1 < size && ((const char *)data)[i + 1] == '\n') i++; out.push_back('\n'); continue; }
      if (c != ' ' && c != '\t' && c != '\n') solid = true;
      out.push_back(c);
    }
    if (solid) append_child(node_pcdata).set_value(out.c_str());
    return 0;
  }
  template <class F> xml_node find_child(F f) const {
    for (impl::Node *c = n ? n->first : nullptr; c; c = c->next) if (f(xml_node(c))) return xml_node(c);
    return xml_node();
  }
  iterator begin() const { return {first_child()}; }
  iterator end() const { return {xml_node()}; }
  attribute_iterator attributes_begin() const { return {first_attribute()}; }
  attribute_iterator attributes_end() const { return {xml_attribute()}; }
  Range<xml_node> children() const { return {{first_child()}}; }
  Range<xml_attribute> attributes() const { return {{first_attribute()}}; }
};
template <> inline Iter<xml_node> &Iter<xml_node>::operator++() { at = at.next_sibling(); return *this; }
template <> inline Iter<xml_attribute> &Iter<xml_attribute>::operator++() { at = at.next_attribute(); return *this; }
inline bool xml_text::set(const char *v) {
  impl::Node *d = data();
  if (!d && n) d = xml_node(n).append_child(node_pcdata).raw();
  if (!d) return false;
  d->value = v;
  return true;
}
struct xml_parse_result { xml_parse_status status = status_ok_; ptrdiff_t offset = 0; explicit operator bool() const { return status == status_ok_; } };
class xml_document : public xml_node {
public:
  xml_document() : xml_node(new impl::Node(node_document)) {}
  xml_document(xml_document &&o) : xml_node(o.n) { o.n = nullptr; }
  ~xml_document() { if (n) impl::drop(n); }
  xml_parse_result load_file(const char *, unsigned = parse_default, xml_encoding = encoding_auto) { return {}; }
  bool save_file(const char *, const char * = "\t", unsigned = format_default, xml_encoding = encoding_auto) const { return false; }
};
} // namespace pugi
