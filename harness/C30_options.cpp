#include "vf.h"
#include <iterator>
#include <algorithm>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <LitlRun/ProgramOptions.h>
using namespace Litl;
// VF-MODEL: stub
// VF-LIBS: -lboost_program_options
// NOTE: up to 2 positional, 4 named options and 2 flags per declaration, each of integral (1 to 3 arbitrary digits, arbitrary sign), character, string (2 arbitrary characters), Boolean and vector types; command lines of up to 8 tokens (up to 42 tokens, and values of up to 5000 characters, in dedicated cases) in every form (long, short, equal sign, adjacent, abbreviated) and every order of 3 options; every overload of parse. Boost.ProgramOptions itself is a model (harness/stub), written after its manual, in the symbolic run, and the real library in the native replays; arguments which look like options where a value is expected, localized or wide characters are outside

namespace po = boost::program_options;
using Strings = std::vector<std::string>;

static std::string number(const char* name, int digits, long& value, bool sign) {
  std::string s;
  const bool minus = sign && vf_pick("minus", 0, 1);
  if (minus) s += "-";
  value = 0;
  for (int i = 0; i < digits; ++i) {
    const long d = vf_int(name, 0, 9);
    s.push_back(char('0' + d));
    value = value * 10 + d;
  }
  if (minus) value = -value;
  return s;
}
static char character(const char* name) { // neither blank, nor starting an option, nor a separator
  const long c = vf_int(name, '0', 'z');
  vf_assume(c != '=' && c != '-');
  return char(c);
}
/// Parses the same command line with one of the overloads
static void parse(ProgramOptions& options, const Strings& args, long overload) {
  if (overload == 0) {
    std::vector<const char*> argv;
    for (const auto& a : args) argv.push_back(a.c_str());
    argv.push_back(nullptr); // as in main
    options.parse(int(args.size()), argv.data());
  } else if (overload == 1) {
    std::vector<const char*> argv;
    for (const auto& a : args) argv.push_back(a.c_str());
    options.parse(argv);
  } else if (overload == 2) {
    options.parse(args);
  } else {
    std::string line;
    for (std::size_t i = 0; i < args.size(); ++i) {
      if (i > 0) line += overload == 3 ? " " : "  ";
      line += args[i];
    }
    if (overload == 4) line = " " + line + " ";
    options.parse(line);
  }
}
/// Tokens for an option with a value
static void give(Strings& args, const std::string& name, char brief, const std::string& value, long form) {
  if (form == 0) { args.push_back("--" + name); args.push_back(value); }
  else if (form == 1) args.push_back("--" + name + "=" + value);
  else if (form == 2) { args.push_back(std::string("-") + brief); args.push_back(value); }
  else if (form == 3) args.push_back(std::string("-") + brief + value);
  else { args.push_back("--" + name.substr(0, name.size() - 1)); args.push_back(value); }
}

/// The value of each option is that of the command line, in whichever form it is given
VF_CASE(named) {
  ProgramOptions options("Description");
  options.named<int>("alpha,a", "No default");
  options.named<int>("beta,b", "Default", 42);
  options.named<long>("gamma", "No short form");
  options.named("delta,d", "Default, no short form", 'x');
  const long which = vf_pick("which", 0, 3), form = vf_pick("form", 0, 4), overload = vf_pick("overload", 0, 4);
  vf_assume(which != 2 || (form != 2 && form != 3));
  static const char* names[] = {"alpha", "beta", "gamma", "delta"};
  long v = 0;
  std::string value;
  if (which == 3) { value.push_back(character("c")); v = value[0]; }
  else value = number("digit", 2, v, form == 1 || form == 3);
  Strings args {"exe"};
  give(args, names[which], names[which][0], value, form);
  parse(options, args, overload);
  vf_assert(options.has(names[which]), "given options are set");
  if (which == 0) vf_assert(options.as<int>("alpha") == v, "value of the command line");
  if (which == 1) vf_assert(options.as<int>("beta") == v, "the command line has priority over the default");
  if (which == 2) vf_assert(options.as<long>("gamma") == v, "value of the command line (long)");
  if (which == 3) vf_assert(options.as<char>("delta") == v, "value of the command line (character)");
  if (which != 0) vf_assert(!options.has("alpha") && vf_throws([&] { options.as<int>("alpha"); }), "unset without default");
  if (which != 1) vf_assert(options.has("beta") && options.as<int>("beta") == 42, "default value");
  if (which != 2) vf_assert(!options.has("gamma") && vf_throws([&] { options.as<long>("gamma"); }), "unset without default (long)");
  if (which != 3) vf_assert(options.has("delta") && options.as<char>("delta") == 'x', "default value (character)");
  vf_assert(vf_throws([&] { options.as<int>("epsilon"); }) && !options.has("epsilon"), "undeclared options are not set");
  vf_observe("v", v);
  vf_reach("end");
}
/// Any subset of the options, in any order, amid the positional ones
VF_CASE(order) {
  ProgramOptions options;
  options.positional<int>("first", "Positional");
  options.named<int>("alpha,a", "Named");
  options.flag("flag,f", "Flag");
  options.positional("second", "Positional with default", -5);
  options.named("beta,b", "Named with default", std::string("none"));
  options.flag("quiet", "Flag");
  long first = 0, second = 0, alpha = 0;
  const long count = vf_pick("positionals", 0, 2), mask = vf_pick("mask", 0, 15), order = vf_pick("order", 0, 5);
  Strings groups[3]; // positional, named, flags
  if (count > 0) groups[0].push_back(number("first", 1, first, false));
  if (count > 1) groups[0].push_back(number("second", 2, second, false));
  std::string beta("none");
  if (mask & 1) give(groups[1], "alpha", 'a', number("alpha", 1, alpha, false), mask & 2 ? 1 : 2);
  if (mask & 2) { beta = std::string(1, character("c0")); beta += character("c1"); give(groups[1], "beta", 'b', beta, mask & 1 ? 3 : 0); }
  if (mask & 4) groups[2].push_back(mask & 1 ? "-f" : "--flag");
  if (mask & 8) groups[2].push_back("--quiet");
  static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  Strings args {"exe"};
  for (int g = 0; g < 3; ++g)
    for (const auto& a : groups[orders[order][g]]) args.push_back(a);
  if (orders[order][0] == 2 && (mask & 12)) std::rotate(args.begin() + 1, args.begin() + 2, args.end()); // split flags
  options.parse(args);
  vf_assert(options.has("first") == (count > 0), "first positional set");
  if (count > 0) vf_assert(options.as<int>("first") == first, "first positional");
  vf_assert(options.as<int>("second") == (count > 1 ? second : -5), "second positional, or its default");
  vf_assert(options.has("alpha") == bool(mask & 1), "named set");
  if (mask & 1) vf_assert(options.as<int>("alpha") == alpha, "named");
  vf_assert(options.as<std::string>("beta") == beta, "named, or its default");
  vf_assert(options.as<bool>("flag") == bool(mask & 4), "flag");
  vf_assert(options.as<bool>("quiet") == bool(mask & 8), "flag without short form");
  vf_reach("end");
}
/// Flags never take a value, can be grouped, and options after -- are positional
VF_CASE(flags) {
  ProgramOptions options("Flags");
  options.flag("flag,f", "Flag");
  options.flag("quiet,q", "Flag");
  options.positional<int>("first", "Positional");
  options.named<int>("alpha,a", "Named");
  const long kind = vf_pick("kind", 0, 5), overload = vf_pick("overload", 0, 4);
  long v = 0;
  const std::string d = number("d", 1, v, false);
  Strings args {"exe"};
  if (kind == 0) args = {"exe", "-f", d};
  else if (kind == 1) args = {"exe", "-fq", d};
  else if (kind == 2) args = {"exe", "--quiet", "--flag", d};
  else if (kind == 3) args = {"exe", "-fa" + d, d};
  else if (kind == 4) args = {"exe", "-q", "--", d};
  else args = {"exe", "--flag=" + d};
  if (kind == 5) {
    vf_assert(vf_throws([&] { parse(options, args, overload); }), "a value for a flag throws");
  } else {
    parse(options, args, overload);
    vf_assert(options.has("first") && options.as<int>("first") == v, "the positional option is not the value of the flag");
    vf_assert(options.as<bool>("flag") == (kind != 4) && options.as<bool>("quiet") == (kind != 0 && kind != 3), "flags which are given");
    vf_assert(options.has("alpha") == (kind == 3), "named after a flag");
    if (kind == 3) vf_assert(options.as<int>("alpha") == v, "value of the named option after a flag");
  }
  vf_reach("end");
}
/// Values of each type
VF_CASE(types) {
  ProgramOptions options;
  const long type = vf_pick("type", 0, 7), positional = vf_pick("positional", 0, 1);
  long v = 0;
  auto declare = [&](auto x) {
    using T = decltype(x);
    if (positional) options.positional<T>("value", "Positional");
    else options.named<T>("value,v", "Named");
  };
  Strings args {"exe"};
  auto add = [&](const std::string& s) { if (positional) args.push_back(s); else give(args, "value", 'v', s, 1); };
  if (type == 0) { declare(int()); add(number("d", 3, v, !positional)); options.parse(args); vf_assert(options.as<int>("value") == v, "int"); }
  else if (type == 1) { declare((unsigned short)(0)); add(number("d", 3, v, false)); options.parse(args); vf_assert(options.as<unsigned short>("value") == v, "unsigned short"); }
  else if (type == 2) { declare(short()); add(number("d", 2, v, !positional)); options.parse(args); vf_assert(options.as<short>("value") == v, "short"); }
  else if (type == 3) { declare(double()); add(number("d", 1, v, !positional)); options.parse(args); vf_assert(options.as<double>("value") == double(v), "double"); }
  else if (type == 4) {
    declare(std::string());
    std::string s(1, character("a"));
    s += character("b");
    s += 'c';
    s += character("d");
    add(s);
    options.parse(args);
    vf_assert(options.as<std::string>("value") == s, "string");
    vf_assert(vf_throws([&] { options.as<int>("value"); }), "only as the declared type");
  } else if (type == 5) { declare(char()); add(std::string(1, character("a"))); options.parse(args); vf_assert(options.as<char>("value") == args[1].back(), "char"); }
  else if (type == 6) {
    declare(bool());
    static const char* texts[] = {"0", "1", "no", "yes", "false", "true", "off", "on"};
    v = vf_pick("b", 0, 7);
    add(texts[v]);
    options.parse(args);
    vf_assert(options.as<bool>("value") == bool(v & 1), "bool");
  } else { declare(int()); v = vf_int("bad", ':', 'z'); std::string s {'1', char(v)}; add(s); vf_assert(vf_throws([&] { options.parse(args); }), "values which are not of the type throw"); }
  vf_reach("end");
}
/// Custom semantics: several values
VF_CASE(semantics) {
  ProgramOptions options("Custom");
  const long kind = vf_pick("kind", 0, 3), count = vf_pick("count", 0, 3);
  long digits[3];
  for (auto& d : digits) d = vf_int("x", 0, 9);
  Strings args {"exe"};
  int to = -1;
  if (kind == 0) { // all remaining arguments
    options.positional<int>("head", "First");
    options.positional("tail", po::value<std::vector<int>>()->multitoken(), "Others");
    args.push_back("7");
  } else if (kind == 1) { // accumulated occurrences
    options.named("tail,t", po::value<std::vector<int>>()->composing(), "Occurrences");
  } else if (kind == 3) { // several values at once
    options.named("tail,t", po::value<std::vector<int>>()->multitoken(), "Several");
    options.named<int>("other", "Other");
    if (count > 0) args.push_back("-t");
  } else { // external variable
    options.named("tail,t", po::value<int>(&to)->default_value(3), "Output");
  }
  const long n = kind == 2 ? (count > 0) : count;
  for (long i = 0; i < n; ++i) {
    const std::string s(1, char('0' + digits[i]));
    if (kind == 0 || kind == 3) args.push_back(s);
    else give(args, "tail", 't', s, i);
  }
  if (kind == 3) args.push_back("--other=8");
  options.parse(args);
  if (kind == 3) vf_assert(options.as<int>("other") == 8, "named after several values");
  if (kind == 2) {
    vf_assert(options.as<int>("tail") == (n ? digits[0] : 3) && to == options.as<int>("tail"), "external variable");
  } else {
    vf_assert(options.has("tail") == (n > 0), "set by any value");
    if (n > 0) {
      const auto v = options.as<std::vector<int>>("tail");
      vf_assert(long(v.size()) == n, "as many values as given");
      for (long i = 0; i < n && i < long(v.size()); ++i) vf_assert(v[i] == digits[i], "values in order");
    }
    if (kind == 0) vf_assert(options.as<int>("head") == 7, "leading positional");
  }
  vf_reach("end");
}
/// Whatever was not declared throws
VF_CASE(errors) {
  ProgramOptions options("Errors");
  options.positional<int>("pos", "Positional");
  options.named<int>("alpha,a", "Named");
  options.named<int>("alpine", "Named");
  options.flag("flag,f", "Flag");
  const long kind = vf_pick("kind", 0, 7), overload = vf_pick("overload", 0, 4);
  Strings args {"exe"};
  const char c = char(vf_int("c", 'a', 'z'));
  if (kind == 0) { vf_assume(c != 'a' && c != 'f'); args.push_back(std::string("-") + c); args.push_back("1"); } // unknown short form
  else if (kind == 1) { args.push_back(std::string("--beta") + c); args.push_back("1"); }
  else if (kind == 2) { args.push_back("1"); args.push_back(std::string(1, char('0' + vf_int("d", 0, 9)))); } // too many positionals
  else if (kind == 3) args.push_back("--alpha"); // missing value
  else if (kind == 4) args.push_back("-a");
  else if (kind == 5) { args.push_back("--alpha"); args.push_back("-f"); } // option instead of a value
  else if (kind == 6) { args.push_back("--alp"); args.push_back("1"); } // ambiguous
  else { args.push_back("--alpha"); args.push_back("1"); args.push_back("-a"); args.push_back("2"); } // twice
  vf_assert(vf_throws([&] { parse(options, args, overload); }), "undeclared options, missing values, too many positional options and ambiguities throw");
  vf_reach("end");
}
/// Copies are independent, and usable after the original
VF_CASE(copies) {
  std::unique_ptr<ProgramOptions> original(new ProgramOptions("Original"));
  original->positional<int>("pos", "Positional");
  original->named("alpha,a", "Named", 1);
  const long kind = vf_pick("kind", 0, 2);
  ProgramOptions copy = kind == 1 ? std::move(*original) : *original;
  const bool alive = kind == 2;
  if (!alive) original.reset();
  copy.named<int>("beta,b", "Only in the copy");
  copy.flag("flag,f", "Only in the copy");
  long a = 0, b = 0, p = 0;
  const std::string as = number("a", 1, a, false);
  const std::string ps = number("p", 1, p, false);
  const std::string bs = number("b", 1, b, false);
  copy.parse(Strings {"exe", "-a", as, ps, "--beta=" + bs, "-f"});
  vf_assert(copy.as<int>("alpha") == a && copy.as<int>("beta") == b && copy.as<int>("pos") == p && copy.as<bool>("flag"), "declared before and after the copy");
  if (alive) {
    vf_assert(vf_throws([&] { original->parse("exe --beta 1"); }), "declarations of the copy are not those of the original");
    original->parse("exe --alpha 6");
    vf_assert(original->as<int>("alpha") == 6 && copy.as<int>("alpha") == a && !original->has("beta") && !original->has("pos"), "values of the copy are not those of the original");
  }
  vf_reach("end");
}
/// The pair of descriptions suits a Boost parser
VF_CASE(pair) {
  ProgramOptions options("Some program");
  options.positional<int>("pos", "A position");
  options.named("alpha,a", "A letter", 5);
  options.named<std::string>("omega", "Last letter");
  options.flag("flag,f", "A flag");
  const auto pair = options.asPair();
  long p = 0;
  const std::string first = number("p", 1, p, false);
  const char* argv[] = {"exe", first.c_str(), "--omega=o", "-f"};
  po::variables_map vm;
  po::store(po::command_line_parser(4, argv).options(pair.first).positional(pair.second).run(), vm);
  po::notify(vm);
  vf_assert(vm["pos"].as<int>() == p && vm["alpha"].as<int>() == 5 && vm["omega"].as<std::string>() == "o" && vm["flag"].as<bool>(), "values");
  std::ostringstream os;
  os << pair.first;
  const std::string text = os.str();
  for (const char* s : {"Some program\n\nOptions:", "--pos arg", "A position", "-a [ --alpha ] arg (=5)", "A letter", "--omega arg", "Last letter", "-f [ --flag ]", "A flag"})
    vf_assert(text.find(s) != std::string::npos, "description");
  std::ostringstream other;
  other << ProgramOptions().asPair().first;
  vf_assert(other.str().compare(0, 8, "Options:") == 0, "no description");
  vf_reach("end");
}
/// Options which are not set by a command line can be by another
VF_CASE(successive) {
  ProgramOptions options;
  options.positional<int>("pos", "Positional");
  options.named("alpha,a", "Named", 9);
  options.named<int>("beta,b", "Named");
  options.flag("flag,f", "Flag");
  long p = 0, a = 0, b = 0;
  const long mask = vf_pick("mask", 0, 15), overload = vf_pick("overload", 0, 4);
  Strings lines[2] = {{"exe"}, {"exe"}};
  lines[mask & 1].push_back(number("p", 1, p, false));
  give(lines[(mask >> 1) & 1], "alpha", 'a', number("a", 1, a, false), 0);
  give(lines[(mask >> 2) & 1], "beta", 'b', number("b", 1, b, false), 3);
  if (mask & 8) lines[1].push_back("-f");
  parse(options, lines[0], overload);
  vf_assert(options.has("pos") == !(mask & 1) && options.as<int>("alpha") == (mask & 2 ? 9 : a) && options.has("beta") == !(mask & 4) && !options.as<bool>("flag"), "first command line");
  parse(options, lines[1], overload);
  vf_assert(options.as<int>("pos") == p && options.as<int>("alpha") == a && options.as<int>("beta") == b && options.as<bool>("flag") == bool(mask & 8), "second command line");
  vf_reach("end");
}
/// Long values and long command lines
VF_CASE(longValues) {
  static const long sizes[] = {1, 15, 16, 63, 64, 127, 128, 255, 256, 257, 1023, 1025, 5000};
  ProgramOptions options;
  options.positional<std::string>("first", "Positional");
  options.named<std::string>("alpha,a", "Named");
  options.named("omega,o", "After", 1);
  const long n = sizes[vf_pick("n", 0, 12)], overload = vf_pick("overload", 0, 4), form = vf_pick("form", 0, 4);
  std::string value(n, 'x');
  value[0] = character("c0");
  value[n - 1] = character("c1");
  value[n / 2] = character("c2");
  long o = 0;
  Strings args {"exe"};
  if (form == 4) args.push_back(value); // positional
  else give(args, "alpha", 'a', value, form);
  give(args, "omega", 'o', number("digit", 3, o, false), 1);
  parse(options, args, overload);
  vf_assert(options.as<std::string>(form == 4 ? "first" : "alpha") == value, "long value");
  vf_assert(options.has(form == 4 ? "first" : "alpha") && !options.has(form == 4 ? "alpha" : "first"), "only that option");
  vf_assert(options.as<int>("omega") == o, "option after a long value");
  vf_reach("end");
}
VF_CASE(manyArguments) {
  ProgramOptions options;
  options.positional<int>("head", "First");
  options.positional("tail", po::value<std::vector<int>>()->multitoken(), "Others");
  options.flag("flag,f", "Flag");
  const long n = 10 * vf_pick("n", 0, 4), overload = vf_pick("overload", 0, 4), flag = vf_pick("flag", 0, 2);
  Strings args {"exe"};
  std::vector<long> digits;
  if (flag == 1) args.push_back("-f");
  for (long i = 0; i <= n; ++i) {
    digits.push_back(vf_int("x", 0, 9));
    args.push_back(std::string(1, char('0' + digits[i])));
  }
  if (flag == 2) args.push_back("--flag");
  parse(options, args, overload);
  vf_assert(options.as<int>("head") == digits[0] && options.as<bool>("flag") == (flag > 0), "head and flag");
  vf_assert(options.has("tail") == (n > 0), "set by any value");
  if (n > 0) {
    const auto v = options.as<std::vector<int>>("tail");
    vf_assert(long(v.size()) == n, "as many values as given");
    for (long i = 0; i < n && i < long(v.size()); ++i) vf_assert(v[i] == digits[i + 1], "values in order");
  }
  vf_reach("end");
}
/// Many options: every one gets its own value
VF_CASE(manyOptions) {
  ProgramOptions options;
  const long n = vf_pick("n", 1, 12), reverse = vf_pick("reverse", 0, 1);
  for (long i = 0; i < n; ++i) options.named<int>((std::string("option") + char('A' + i) + "," + char('a' + i)).c_str(), "Named");
  std::vector<long> values(n);
  Strings args {"exe"};
  for (long i = 0; i < n; ++i) {
    const long k = reverse ? n - 1 - i : i;
    if (k == n / 2) continue; // not given
    give(args, std::string("option") + char('A' + k), char('a' + k), number("v", 2, values[k], false), i % 4);
  }
  options.parse(args);
  for (long k = 0; k < n; ++k) {
    const std::string name = std::string("option") + char('A' + k);
    vf_assert(options.has(name.c_str()) == (k != n / 2), "set iff given");
    if (k != n / 2) vf_assert(options.as<int>(name.c_str()) == values[k], "own value");
  }
  vf_reach("end");
}
