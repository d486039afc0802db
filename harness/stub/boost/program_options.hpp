// A model of Boost.ProgramOptions (default style), written after its manual, for the symbolic runs only:
// the native replay is linked with the real library, and must agree with it.
#pragma once
#include <algorithm>
#include <exception>
#include <iterator>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <cstring>
#include <ostream>
#include <sstream>

namespace boost {
struct bad_any_cast : std::exception {};
/// Type-safe container of a single value
class any {
  struct Base {
    virtual ~Base() {}
    virtual Base* clone() const = 0;
    const void* tag;
  };
  template <typename T> struct Tag { static const char* id() { static const char c = 0; return &c; } };
  template <typename T> struct Holder : Base {
    T value;
    explicit Holder(const T& v) : value(v) { this->tag = Tag<T>::id(); }
    Base* clone() const override { return new Holder(value); }
  };
  Base* m;
public:
  any() : m(nullptr) {}
  template <typename T> any(const T& v) : m(new Holder<T>(v)) {}
  any(const any& o) : m(o.m ? o.m->clone() : nullptr) {}
  any& operator=(const any& o) { if (this != &o) { delete m; m = o.m ? o.m->clone() : nullptr; } return *this; }
  ~any() { delete m; }
  bool empty() const { return !m; }
  template <typename T> T* get() const { return m && m->tag == Tag<T>::id() ? &static_cast<Holder<T>*>(m)->value : nullptr; }
};
template <typename T> T* any_cast(any* a) { return a->get<T>(); }
template <typename T> const T* any_cast(const any* a) { return a->get<T>(); }
template <typename T> T any_cast(const any& a) { T* p = a.get<T>(); if (!p) throw bad_any_cast(); return *p; }

namespace program_options {
struct error : std::exception {};
struct unknown_option : error {};
struct ambiguous_option : error {};
struct too_many_positional_options_error : error {};
struct invalid_syntax : error {};
struct invalid_command_line_syntax : invalid_syntax {};
struct validation_error : error {};
struct invalid_option_value : validation_error {};
struct invalid_bool_value : validation_error {};
struct multiple_values : validation_error {};
struct multiple_occurrences : error {};
struct required_option : error {};

class value_semantic {
public:
  virtual ~value_semantic() {}
  virtual std::string name() const = 0;
  virtual unsigned min_tokens() const = 0;
  virtual unsigned max_tokens() const = 0;
  virtual bool is_composing() const = 0;
  virtual bool is_required() const = 0;
  virtual void parse(any& store, const std::vector<std::string>& tokens, bool utf8) const = 0;
  virtual bool apply_default(any& store) const = 0;
  virtual void notify(const any& store) const = 0;
};

namespace detail {
inline const std::string& single(const any& v, const std::vector<std::string>& s, bool empty = false) {
  static const std::string none;
  if (!v.empty()) throw multiple_occurrences();
  if (s.size() > 1) throw multiple_values();
  if (s.size() == 1) return s[0];
  if (!empty) throw validation_error();
  return none;
}
template <typename T, bool Integral> struct Lexical;
template <typename T> struct Lexical<T, true> {
  static T cast(const std::string& s) {
    std::size_t i = 0;
    const bool neg = s.size() > 0 && s[0] == '-';
    if (neg || (s.size() > 0 && s[0] == '+')) ++i;
    if (i == s.size() || s.size() - i > 18) throw invalid_option_value();
    long v = 0;
    for (; i < s.size(); ++i) {
      const char c = s[i];
      if (c < '0' || c > '9') throw invalid_option_value();
      v = v * 10 + (c - '0');
    }
    if (neg) v = -v;
    if (std::is_signed<T>::value && long(T(v)) != v) throw invalid_option_value();
    return T(v);
  }
};
template <typename T> struct Lexical<T, false> { // integral values only
  static T cast(const std::string& s) { return T(Lexical<long, true>::cast(s)); }
};
template <typename T> struct Validate {
  static void run(any& v, const std::vector<std::string>& s) { const std::string& t = single(v, s); v = any(Lexical<T, std::is_integral<T>::value>::cast(t)); }
};
template <> struct Validate<char> {
  static void run(any& v, const std::vector<std::string>& s) { const std::string& t = single(v, s); if (t.size() != 1) throw invalid_option_value(); v = any(t[0]); }
};
template <> struct Validate<std::string> {
  static void run(any& v, const std::vector<std::string>& s) { const std::string& t = single(v, s); v = any(t); }
};
template <> struct Validate<bool> {
  static bool is(const std::string& t, const char* w) { // case insensitive
    if (t.size() != std::strlen(w)) return false;
    for (std::size_t i = 0; i < t.size(); ++i) if (t[i] != w[i] && !(t[i] >= 'A' && t[i] <= 'Z' && t[i] + 32 == w[i])) return false;
    return true;
  }
  static void run(any& v, const std::vector<std::string>& s) {
    const std::string& t = single(v, s, true);
    if (t.empty() || is(t, "on") || is(t, "yes") || is(t, "1") || is(t, "true")) v = any(true);
    else if (is(t, "off") || is(t, "no") || is(t, "0") || is(t, "false")) v = any(false);
    else throw invalid_bool_value();
  }
};
template <typename T> struct Validate<std::vector<T>> {
  static void run(any& v, const std::vector<std::string>& s) {
    if (v.empty()) v = any(std::vector<T>());
    auto* tv = any_cast<std::vector<T>>(&v);
    for (const auto& e : s) {
      any a;
      Validate<T>::run(a, std::vector<std::string> {e});
      tv->push_back(any_cast<T>(a));
    }
  }
};
}

template <typename T>
class typed_value : public value_semantic {
  any m_default, m_implicit;
  std::string m_text, m_name = "arg";
  T* m_to;
  bool m_composing = false, m_multi = false, m_zero = false, m_required = false;
public:
  explicit typed_value(T* to) : m_to(to) {}
  typed_value* default_value(const T& v) { std::ostringstream os; os << v; return default_value(v, os.str()); }
  typed_value* default_value(const T& v, const std::string& text) { m_default = any(v); m_text = text; return this; }
  typed_value* implicit_value(const T& v) { m_implicit = any(v); return this; }
  typed_value* implicit_value(const T& v, const std::string&) { m_implicit = any(v); return this; }
  typed_value* value_name(const std::string& n) { m_name = n; return this; }
  typed_value* composing() { m_composing = true; return this; }
  typed_value* multitoken() { m_multi = true; return this; }
  typed_value* zero_tokens() { m_zero = true; return this; }
  typed_value* required() { m_required = true; return this; }
  std::string name() const override { return m_name + (m_text.empty() ? "" : " (=" + m_text + ")"); }
  unsigned min_tokens() const override { return m_zero || !m_implicit.empty() ? 0 : 1; }
  unsigned max_tokens() const override { return m_multi ? 32000 : m_zero ? 0 : 1; }
  bool is_composing() const override { return m_composing; }
  bool is_required() const override { return m_required; }
  void parse(any& store, const std::vector<std::string>& tokens, bool) const override {
    if (tokens.empty() && !m_implicit.empty()) store = m_implicit;
    else detail::Validate<T>::run(store, tokens);
  }
  bool apply_default(any& store) const override { if (m_default.empty()) return false; store = m_default; return true; }
  void notify(const any& store) const override { if (m_to) if (const T* v = any_cast<T>(&store)) *m_to = *v; }
};
template <typename T> typed_value<T>* value() { return new typed_value<T>(nullptr); }
template <typename T> typed_value<T>* value(T* v) { return new typed_value<T>(v); }
inline typed_value<bool>* bool_switch() { return (new typed_value<bool>(nullptr))->default_value(false)->zero_tokens(); }
inline typed_value<bool>* bool_switch(bool* v) { return (new typed_value<bool>(v))->default_value(false)->zero_tokens(); }

class option_description {
  std::string m_long, m_short, m_description;
  const value_semantic* m_semantic;
public:
  option_description(const char* name, const value_semantic* s, const char* description) : m_description(description), m_semantic(s) {
    const std::string n(name);
    const auto comma = n.find(',');
    if (comma == std::string::npos) m_long = n;
    else {
      m_long = n.substr(0, comma);
      const std::string c = n.substr(comma + 1);
      if (c.size() != 1) throw error();
      m_short = "-" + c;
    }
  }
  /// 0: none, 1: approximate, 2: full
  int match(const std::string& o, bool approx) const {
    int r = 0;
    if (!m_long.empty()) {
      if (m_long == o) r = 2;
      else if (approx && m_long.compare(0, o.size(), o) == 0) r = 1;
    }
    if (r != 2 && !m_short.empty() && m_short == o) r = 2;
    return r;
  }
  const std::string& key(const std::string&) const { return m_long.empty() ? m_short : m_long; }
  std::string format_name() const { return m_short.empty() ? "--" + m_long : m_long.empty() ? m_short : m_short + " [ --" + m_long + " ]"; }
  const std::string& long_name() const { return m_long; }
  const std::string& description() const { return m_description; }
  const value_semantic* semantic() const { return m_semantic; }
};

class options_description;
class options_description_easy_init {
  options_description* m_owner;
public:
  explicit options_description_easy_init(options_description* owner) : m_owner(owner) {}
  inline options_description_easy_init& operator()(const char* name, const char* description);
  inline options_description_easy_init& operator()(const char* name, const value_semantic* s);
  inline options_description_easy_init& operator()(const char* name, const value_semantic* s, const char* description);
};
class options_description {
  std::string m_caption;
  std::vector<const option_description*> m_options; // shared between copies
public:
  explicit options_description(const std::string& caption = "", unsigned = 80, unsigned = 40) : m_caption(caption) {}
  options_description(const options_description&) = default;
  options_description& operator=(const options_description&) = delete;
  options_description_easy_init add_options() { return options_description_easy_init(this); }
  void add(const option_description* o) { m_options.push_back(o); }
  options_description& add(const options_description& o) { for (auto* d : o.m_options) m_options.push_back(d); return *this; }
  /// The layout is simplified: only the pieces of text are those of the library
  friend std::ostream& operator<<(std::ostream& os, const options_description& o) {
    if (!o.m_caption.empty()) os << o.m_caption << ":\n";
    for (auto* d : o.m_options) os << "  " << d->format_name() << " " << d->semantic()->name() << " " << d->description() << "\n";
    return os;
  }
  const std::vector<const option_description*>& options() const { return m_options; }
  const option_description* find_nothrow(const std::string& name, bool approx, bool = false, bool = false) const {
    const option_description* found = nullptr;
    int full = 0, close = 0;
    for (auto* o : m_options) {
      const int r = o->match(name, approx);
      if (r == 2) { ++full; found = o; }
      else if (r == 1) { ++close; if (!full) found = o; }
    }
    if (full > 1) throw ambiguous_option();
    if (full == 1) return found;
    if (close > 1) throw ambiguous_option();
    return found;
  }
  const option_description& find(const std::string& name, bool approx, bool = false, bool = false) const {
    auto* d = find_nothrow(name, approx);
    if (!d) throw unknown_option();
    return *d;
  }
};
inline options_description_easy_init& options_description_easy_init::operator()(const char* name, const char* description) {
  m_owner->add(new option_description(name, (new typed_value<std::string>(nullptr))->zero_tokens(), description));
  return *this;
}
inline options_description_easy_init& options_description_easy_init::operator()(const char* name, const value_semantic* s) {
  m_owner->add(new option_description(name, s, ""));
  return *this;
}
inline options_description_easy_init& options_description_easy_init::operator()(const char* name, const value_semantic* s, const char* description) {
  m_owner->add(new option_description(name, s, description));
  return *this;
}

class positional_options_description {
  std::vector<std::string> m_names;
  std::string m_trailing;
public:
  positional_options_description& add(const char* name, int max) {
    if (max == -1) m_trailing = name;
    else m_names.resize(m_names.size() + max, name);
    return *this;
  }
  unsigned max_total_count() const { return m_trailing.empty() ? unsigned(m_names.size()) : 0x7fffffffu; }
  const std::string& name_for_position(unsigned p) const { return p < m_names.size() ? m_names[p] : m_trailing; }
};

struct option {
  std::string string_key;
  int position_key = -1;
  bool terminated = false; // given after --
  std::vector<std::string> value;
};
template <typename C> struct basic_parsed_options {
  std::vector<option> options;
  const options_description* description;
};
using parsed_options = basic_parsed_options<char>;

template <typename C> class basic_command_line_parser {
  std::vector<std::string> m_args;
  const options_description* m_desc = nullptr;
  const positional_options_description* m_pos = nullptr;
  bool m_unregistered = false;

  bool longOption(std::vector<std::string>& args, std::vector<option>& out) {
    const std::string tok = args[0];
    if (tok.size() < 3 || tok[0] != '-' || tok[1] != '-') return false;
    option o;
    const auto eq = tok.find('=');
    if (eq != std::string::npos) {
      o.string_key = tok.substr(2, eq - 2);
      o.value.push_back(tok.substr(eq + 1));
      if (o.value[0].empty()) throw invalid_command_line_syntax();
    } else o.string_key = tok.substr(2);
    out.push_back(o);
    args.erase(args.begin());
    return true;
  }
  bool shortOption(std::vector<std::string>& args, std::vector<option>& out) {
    const std::string tok = args[0];
    if (tok.size() < 2 || tok[0] != '-' || tok[1] == '-') return false;
    std::string name = tok.substr(0, 2), adjacent = tok.substr(2);
    for (;;) {
      auto* d = m_desc->find_nothrow(name, false);
      option o;
      o.string_key = name;
      if (d && d->semantic()->max_tokens() == 0 && !adjacent.empty()) {
        out.push_back(o);
        name = std::string("-") + adjacent[0];
        adjacent.erase(adjacent.begin());
      } else {
        if (!adjacent.empty()) o.value.push_back(adjacent);
        out.push_back(o);
        args.erase(args.begin());
        return true;
      }
    }
  }
  void finish(option& o, std::vector<std::string>& others) {
    if (o.string_key.empty()) return;
    auto* d = m_desc->find_nothrow(o.string_key, true);
    if (!d) throw unknown_option();
    o.string_key = d->key(o.string_key);
    unsigned min = d->semantic()->min_tokens();
    const unsigned max = d->semantic()->max_tokens(), present = unsigned(o.value.size() + others.size());
    if (present < min) throw invalid_command_line_syntax();
    if (!o.value.empty() && max == 0) throw invalid_command_line_syntax();
    min = o.value.size() <= min ? min - unsigned(o.value.size()) : 0;
    for (; !others.empty() && min > 0; --min) {
      std::vector<std::string> next {others[0]};
      std::vector<option> followed;
      if (longOption(next, followed) || shortOption(next, followed)) {
        if (m_desc->find_nothrow(others[0], true)) throw invalid_command_line_syntax();
      }
      o.value.push_back(others[0]);
      others.erase(others.begin());
    }
  }
public:
  basic_command_line_parser(int argc, const char* const argv[]) { for (int i = 1; i < argc; ++i) m_args.push_back(argv[i]); }
  explicit basic_command_line_parser(const std::vector<std::string>& args) : m_args(args) {}
  basic_command_line_parser& options(const options_description& d) { m_desc = &d; return *this; }
  basic_command_line_parser& positional(const positional_options_description& p) { m_pos = &p; return *this; }
  basic_command_line_parser& allow_unregistered() { m_unregistered = true; return *this; }
  parsed_options run() {
    parsed_options out;
    out.description = m_desc;
    auto args = m_args;
    while (!args.empty()) {
      std::vector<option> next;
      if (longOption(args, next) || shortOption(args, next)) {
        std::vector<std::string> none;
        for (std::size_t i = 0; i + 1 < next.size(); ++i) finish(next[i], none);
        finish(next.back(), args);
        for (auto& o : next) out.options.push_back(o);
      } else if (args[0].size() == 2 && args[0][0] == '-' && args[0][1] == '-') {
        for (std::size_t i = 1; i < args.size(); ++i) {
          option o;
          o.value.push_back(args[i]);
          o.position_key = 1;
          o.terminated = true;
          out.options.push_back(o);
        }
        args.clear();
      } else {
        option o;
        o.value.push_back(args[0]);
        o.position_key = 1;
        out.options.push_back(o);
        args.erase(args.begin());
      }
    }
    // options which may take more values grab the following positional ones
    std::vector<option> grabbed;
    for (std::size_t i = 0; i < out.options.size(); ++i) {
      grabbed.push_back(out.options[i]);
      option& o = grabbed.back();
      if (o.string_key.empty()) continue;
      auto* d = m_desc->find_nothrow(o.string_key, true);
      if (!d) continue;
      const unsigned min = d->semantic()->min_tokens(), max = d->semantic()->max_tokens();
      if (min >= max || o.value.size() >= max) continue;
      while (o.value.size() < max && i + 1 < out.options.size() && out.options[i + 1].string_key.empty() && !out.options[i + 1].terminated) o.value.push_back(out.options[++i].value[0]);
    }
    out.options.swap(grabbed);
    if (m_pos) {
      unsigned position = 0;
      for (auto& o : out.options)
        if (o.position_key != -1) {
          if (position >= m_pos->max_total_count()) throw too_many_positional_options_error();
          o.string_key = m_pos->name_for_position(position++);
        }
    }
    return out;
  }
};
using command_line_parser = basic_command_line_parser<char>;

class variables_map;
class variable_value {
  any v;
  bool m_defaulted = false;
  const value_semantic* m_semantic = nullptr;
  friend class variables_map;
  friend void store(const parsed_options&, variables_map&, bool);
  friend void notify(variables_map&);
public:
  variable_value() {}
  variable_value(const any& a, bool defaulted) : v(a), m_defaulted(defaulted) {}
  template <typename T> const T& as() const { const T* p = any_cast<T>(&v); if (!p) throw bad_any_cast(); return *p; }
  template <typename T> T& as() { T* p = any_cast<T>(&v); if (!p) throw bad_any_cast(); return *p; }
  bool empty() const { return v.empty(); }
  bool defaulted() const { return m_defaulted; }
  const any& value() const { return v; }
  any& value() { return v; }
};
class variables_map : public std::map<std::string, variable_value> {
  std::set<std::string> m_final;
  std::map<std::string, std::string> m_required;
  friend void store(const parsed_options&, variables_map&, bool);
  friend void notify(variables_map&);
public:
  const variable_value& operator[](const std::string& name) const {
    static const variable_value none;
    const auto it = this->find(name);
    return it == this->end() ? none : it->second;
  }
  void clear() { std::map<std::string, variable_value>::clear(); m_final.clear(); m_required.clear(); }
};
inline void store(const parsed_options& options, variables_map& xm, bool utf8 = false) {
  std::map<std::string, variable_value>& m = xm;
  std::set<std::string> final;
  for (const auto& o : options.options) {
    if (o.string_key.empty() || xm.m_final.count(o.string_key)) continue;
    const auto& d = options.description->find(o.string_key, false);
    auto& v = m[o.string_key];
    if (v.defaulted()) v = variable_value();
    d.semantic()->parse(v.value(), o.value, utf8);
    v.m_semantic = d.semantic();
    if (!d.semantic()->is_composing()) final.insert(o.string_key);
  }
  xm.m_final.insert(final.begin(), final.end());
  for (auto* d : options.description->options()) {
    const auto& key = d->key("");
    if (key.empty()) continue;
    if (!m.count(key)) {
      any def;
      if (d->semantic()->apply_default(def)) {
        m[key] = variable_value(def, true);
        m[key].m_semantic = d->semantic();
      }
    }
    if (d->semantic()->is_required()) xm.m_required[key] = key;
  }
}
inline void notify(variables_map& vm) {
  for (const auto& r : vm.m_required) {
    const auto it = vm.find(r.first);
    if (it == vm.end() || it->second.empty()) throw required_option();
  }
  for (auto& p : vm) if (p.second.m_semantic) p.second.m_semantic->notify(p.second.value());
}
template <typename C> parsed_options parse_command_line(int argc, const C* const argv[], const options_description& d) { return command_line_parser(argc, argv).options(d).run(); }
}
}
