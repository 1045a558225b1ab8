// Executes commands (one JSON object per line) against the real library and
// writes what happened, one event per line.  The specification (spec/Trace.tla)
// judges the events; this program decides nothing.
//
//   driver COMMANDS EVENTS
//
// Only the public interface of libhext is used, plus Gumbo to look at nodes.
#include "hext/AppendPipe.h"
#include "hext/AttributeCapture.h"
#include "hext/AttributeCountMatch.h"
#include "hext/AttributeMatch.h"
#include "hext/BeginsWithTest.h"
#include "hext/Builtins.h"
#include "hext/CasePipe.h"
#include "hext/ChildCountMatch.h"
#include "hext/CollapseWsPipe.h"
#include "hext/ContainsTest.h"
#include "hext/ContainsWordsTest.h"
#include "hext/EndsWithTest.h"
#include "hext/EqualsTest.h"
#include "hext/FunctionCapture.h"
#include "hext/FunctionMatch.h"
#include "hext/FunctionValueMatch.h"
#include "hext/Html.h"
#include "hext/MaxSearchError.h"
#include "hext/NegateMatch.h"
#include "hext/NegateTest.h"
#include "hext/NthChildMatch.h"
#include "hext/OnlyChildMatch.h"
#include "hext/ParseHext.h"
#include "hext/PrependPipe.h"
#include "hext/RegexPipe.h"
#include "hext/RegexReplacePipe.h"
#include "hext/RegexTest.h"
#include "hext/Rule.h"
#include "hext/SyntaxError.h"
#include "hext/TrimPipe.h"
#include "hext/TypeRegexMatch.h"

#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace hext;
using J = rapidjson::Value;
using W = rapidjson::Writer<rapidjson::StringBuffer>;
using std::string;

static string bytes(const J& a)
{
  string s;
  for(const auto& v : a.GetArray())
    s.push_back(static_cast<char>(v.GetInt()));
  return s;
}
static void put(W& w, const string& s)
{
  w.StartArray();
  for(unsigned char c : s) w.Int(c);
  w.EndArray();
}

// ---- documents
struct Doc
{
  std::unique_ptr<string> buf;
  std::unique_ptr<Html> html;
  std::vector<const GumboNode *> nodes;  // document order
};
static void walk(const GumboNode * n, std::vector<const GumboNode *>& out)
{
  out.push_back(n);
  if( n->type == GUMBO_NODE_ELEMENT || n->type == GUMBO_NODE_TEMPLATE )
    for(unsigned i = 0; i < n->v.element.children.length; ++i)
      walk(static_cast<const GumboNode *>(n->v.element.children.data[i]), out);
}
static void put_dom(W& w, const std::vector<const GumboNode *>& nodes)
{
  std::map<const GumboNode *, int> id;
  for(std::size_t i = 0; i < nodes.size(); ++i) id[nodes[i]] = static_cast<int>(i) + 1;
  w.StartArray();
  for(const GumboNode * n : nodes)
  {
    bool el = n->type == GUMBO_NODE_ELEMENT || n->type == GUMBO_NODE_TEMPLATE;
    w.StartObject();
    const char * k = n->type == GUMBO_NODE_ELEMENT ? "e" : n->type == GUMBO_NODE_TEMPLATE ? "p"
      : n->type == GUMBO_NODE_TEXT ? "t" : n->type == GUMBO_NODE_WHITESPACE ? "w"
      : n->type == GUMBO_NODE_CDATA ? "d" : "c";
    w.Key("k"); w.String(k);
    auto p = id.find(n->parent);
    w.Key("p"); w.Int(p == id.end() ? 0 : p->second);
    w.Key("ch"); w.StartArray();
    if( el )
      for(unsigned i = 0; i < n->v.element.children.length; ++i)
        w.Int(id[static_cast<const GumboNode *>(n->v.element.children.data[i])]);
    w.EndArray();
    string name, text;
    bool unk = false;
    if( el )
    {
      unk = n->v.element.tag == GUMBO_TAG_UNKNOWN;
      if( unk )
      {
        GumboStringPiece o = n->v.element.original_tag;
        if( o.data && o.length )
        {
          gumbo_tag_from_original_text(&o);
          name.assign(o.data, o.length);
        }
      }
      else
        name = gumbo_normalized_tagname(n->v.element.tag);
    }
    else
      text = n->v.text.text ? n->v.text.text : "";
    w.Key("n"); put(w, name);
    w.Key("u"); w.Bool(unk);
    w.Key("at"); w.StartArray();
    if( el )
      for(unsigned i = 0; i < n->v.element.attributes.length; ++i)
      {
        auto a = static_cast<const GumboAttribute *>(n->v.element.attributes.data[i]);
        w.StartObject();
        w.Key("s"); w.Int(a->attr_namespace);
        w.Key("n"); put(w, a->name);
        w.Key("v"); put(w, a->value);
        w.EndObject();
      }
    w.EndArray();
    w.Key("x"); put(w, text);
    w.EndObject();
  }
  w.EndArray();
}

// ---- parts of rules
static boost::regex regex_of(const J& x)
{
  boost::regex::flag_type f = boost::regex::perl;
  if( x["ic"].GetBool() ) f |= boost::regex::icase;
  return boost::regex(bytes(x["src"]), f);
}
static CaptureFunction func_of(const J& f)
{
  string s = f.GetString();
  if( s == "text" ) return TextBuiltin;
  if( s == "inner-html" ) return InnerHtmlBuiltin;
  return StripTagsBuiltin;
}
static std::unique_ptr<ValueTest> test_of(const J& x)
{
  string t = x["t"].GetString();
  if( t == "any" ) return nullptr;
  if( t == "not" ) return std::make_unique<NegateTest>(test_of(x["x"]));
  if( t == "re" ) return std::make_unique<RegexTest>(regex_of(x["re"]));
  string v = bytes(x["v"]);
  if( t == "words" )
  {
    if( !x.HasMember("vec") )
      return std::make_unique<ContainsWordsTest>(v);
    std::vector<string> ws(1);
    for(char c : v) if( c == ' ' ) ws.emplace_back(); else ws.back().push_back(c);
    ws.erase(std::remove(ws.begin(), ws.end(), string()), ws.end());
    return std::make_unique<ContainsWordsTest>(std::move(ws));
  }
  if( t == "eq" ) return std::make_unique<EqualsTest>(v);
  if( t == "begins" ) return std::make_unique<BeginsWithTest>(v);
  if( t == "ends" ) return std::make_unique<EndsWithTest>(v);
  if( t == "contains" ) return std::make_unique<ContainsTest>(v);
  std::abort();
}
static std::unique_ptr<StringPipe> pipe1_of(const J& p)
{
  string k = p["p"].GetString();
  string v = p.HasMember("v") ? bytes(p["v"]) : "";
  if( k == "trim" ) return std::make_unique<TrimPipe>(v);
  if( k == "collapsews" ) return std::make_unique<CollapseWsPipe>();
  if( k == "tolower" ) return std::make_unique<CasePipe>();
  if( k == "toupper" ) return std::make_unique<CasePipe>(CasePipe::ToUpper);
  if( k == "prepend" ) return std::make_unique<PrependPipe>(v);
  if( k == "append" ) return std::make_unique<AppendPipe>(v);
  if( k == "filter" ) return std::make_unique<RegexPipe>(regex_of(p["re"]));
  if( k == "replace" ) return std::make_unique<RegexReplacePipe>(regex_of(p["re"]), v);
  std::abort();
}
static std::unique_ptr<StringPipe> pipes_of(const J& ps)
{
  std::unique_ptr<StringPipe> r;
  for(const auto& p : ps.GetArray())
    if( r ) r->append(pipe1_of(p)); else r = pipe1_of(p);
  return r;
}
static std::unique_ptr<Match> match_of(const J& m)
{
  string k = m["m"].GetString();
  if( k == "attr" ) return std::make_unique<AttributeMatch>(bytes(m["n"]), test_of(m["x"]));
  if( k == "fn" ) return std::make_unique<FunctionValueMatch>(func_of(m["f"]), test_of(m["x"]));
  if( k == "nth" )
  {
    auto o = m["last"].GetBool() ? NthChildMatch::Last : NthChildMatch::First;
    if( m["same"].GetBool() ) o = o | NthChildMatch::OfType;
    return std::make_unique<NthChildMatch>(m["a"].GetInt(), m["b"].GetInt(), o);
  }
  if( k == "only" )
    return std::make_unique<OnlyChildMatch>(m["same"].GetBool() ? OnlyChildMatch::OfType
                                                                 : OnlyChildMatch::AnyType);
  if( k == "children" ) return std::make_unique<ChildCountMatch>(static_cast<unsigned>(m["c"].GetInt()));
  if( k == "attrs" ) return std::make_unique<AttributeCountMatch>(static_cast<unsigned>(m["c"].GetInt()));
  if( k == "type" ) return std::make_unique<TypeRegexMatch>(regex_of(m["re"]));
  if( k == "user" )
    return std::make_unique<FunctionMatch>(
      [](const GumboNode * n){ return n && n->type == GUMBO_NODE_ELEMENT; });
  if( k == "not" )
  {
    auto ms = m["ms"].GetArray();
    auto n = ms.Size() == 1 ? std::make_unique<NegateMatch>(match_of(ms[0])) : std::make_unique<NegateMatch>();
    for(unsigned i = ms.Size() == 1; i < ms.Size(); ++i) n->append_match(match_of(ms[i]));
    return n;
  }
  std::abort();
}
static std::unique_ptr<Capture> capture_of(const J& c)
{
  if( string(c["c"].GetString()) == "attr" )
    return std::make_unique<AttributeCapture>(bytes(c["n"]), bytes(c["to"]), pipes_of(c["ps"]));
  return std::make_unique<FunctionCapture>(func_of(c["f"]), bytes(c["to"]), pipes_of(c["ps"]));
}

// A part of a rule in a slot.
struct Obj
{
  std::unique_ptr<ValueTest> test;
  std::unique_ptr<Match> match;
  std::unique_ptr<Capture> capture;
  std::unique_ptr<StringPipe> pipe;
};
// *dst = *src (or move), if both are of type T
template<class T, class B>
static bool assign_as(B * dst, B * src, bool move)
{
  T * d = dynamic_cast<T *>(dst);
  T * s = dynamic_cast<T *>(src);
  if( !d || !s ) return false;
  if( move ) *d = std::move(*s); else *d = *s;
  return true;
}
template<class T, class B>
static std::unique_ptr<B> construct_as(B * src, bool move)
{
  T * s = dynamic_cast<T *>(src);
  if( !s ) return nullptr;
  return move ? std::make_unique<T>(std::move(*s)) : std::make_unique<T>(*s);
}
template<class B, class... Ts>
struct Types
{
  static bool assign(B * d, B * s, bool m) { return (assign_as<Ts>(d, s, m) || ...); }
  static std::unique_ptr<B> construct(B * s, bool m)
  {
    std::unique_ptr<B> r;
    ((r = r ? std::move(r) : construct_as<Ts>(s, m)), ...);
    return r;
  }
};
using Tests = Types<ValueTest, NegateTest, RegexTest, ContainsWordsTest, EqualsTest, BeginsWithTest,
                    EndsWithTest, ContainsTest>;
using Matches = Types<Match, AttributeMatch, FunctionValueMatch, NthChildMatch, OnlyChildMatch,
                      ChildCountMatch, AttributeCountMatch, TypeRegexMatch, FunctionMatch, NegateMatch>;
using Captures_ = Types<Capture, AttributeCapture, FunctionCapture>;
using Pipes = Types<StringPipe, TrimPipe, CollapseWsPipe, CasePipe, PrependPipe, AppendPipe, RegexPipe,
                    RegexReplacePipe>;

// how: "clone", "construct", "assign" (falls back to "construct" when the
// slots hold different types); move: "construct" or "assign" with std::move
template<class Ty, class B>
static void transfer(std::unique_ptr<B>& dst, std::unique_ptr<B>& src, const string& how, bool move)
{
  if( !src ) { dst = nullptr; return; }
  if( how == "clone" ) { dst = src->clone(); return; }
  if( how == "assign" && dst && Ty::assign(dst.get(), src.get(), move) ) return;
  dst = Ty::construct(src.get(), move);
}

// ---- the session
static std::map<int, Doc> docs;
static std::map<int, Rule> rules;
static std::map<int, Obj> objs;
static std::FILE * out;

static void emit(rapidjson::StringBuffer& b)
{
  b.Put('\n');
  std::fwrite(b.GetString(), 1, b.GetSize(), out);
}

static Rule * at_path(Rule * r, const J& path)
{
  auto p = path.GetArray();
  auto chain = [](Rule * q, int i){ while( q && --i > 0 ) q = q->next(); return q; };
  r = chain(r, p[0].GetInt());
  for(unsigned i = 1; r && i + 1 < p.Size(); i += 2)
  {
    int k = p[i].GetInt();
    if( k == 0 ) r = r->child();
    else r = k <= static_cast<int>(r->nested().size()) ? &r->nested()[static_cast<unsigned>(k) - 1] : nullptr;
    r = chain(r, p[i + 1].GetInt());
  }
  return r;
}
static HtmlTag tag_of(const string& s)
{
  if( s == "*" ) return HtmlTag::ANY;
  if( s.empty() ) return HtmlTag::UNKNOWN;
  return static_cast<HtmlTag>(gumbo_tag_enum(s.c_str()));
}
static void put_shape(W& w, const Rule * r)
{
  w.StartArray();
  for(; r; r = r->next())
  {
    w.StartObject();
    string tag = r->get_tag() == HtmlTag::ANY ? "*" : r->get_tag() == HtmlTag::UNKNOWN ? ""
      : gumbo_normalized_tagname(static_cast<GumboTag>(r->get_tag()));
    w.Key("tag"); put(w, tag);
    w.Key("name"); w.StartArray();
    if( auto n = r->get_tagname() ) put(w, *n);
    w.EndArray();
    w.Key("opt"); w.Bool(r->is_optional());
    w.Key("greedy"); w.Bool(r->is_greedy());
    w.Key("ch"); put_shape(w, r->child());
    w.Key("ne"); w.StartArray();
    for(const Rule& n : r->nested()) put_shape(w, &n);
    w.EndArray();
    w.EndObject();
  }
  w.EndArray();
}
struct Outcome { const char * out = "ok"; Result groups; string what; };
static Outcome extract(const Rule& r, const Doc& d, int n, long max)
{
  Outcome o;
  std::uint64_t m = max < 0 ? (std::uint64_t(1) << 32) + static_cast<std::uint64_t>(-max) : static_cast<std::uint64_t>(max);
  try
  {
    o.groups = n == 1 ? r.extract(*d.html, m) : r.extract(d.nodes.at(static_cast<unsigned>(n) - 1), m);
  }
  catch( const MaxSearchError& e ) { o.out = "limit"; o.what = e.what(); }
  catch( const std::exception& e ) { o.out = "other"; o.what = e.what(); }
  return o;
}
static void put_pairs(W& w, const std::vector<ResultPair>& ps)
{
  w.StartArray();
  for(const auto& p : ps) { w.StartArray(); put(w, p.first); put(w, p.second); w.EndArray(); }
  w.EndArray();
}
static void put_outcome(W& w, const Outcome& o)
{
  w.Key("out"); w.String(o.out);
  w.Key("groups"); w.StartArray();
  for(const auto& g : o.groups)
    put_pairs(w, std::vector<ResultPair>(g.begin(), g.end()));
  w.EndArray();
  if( !o.what.empty() ) { w.Key("what"); put(w, o.what); }
}

// Several extractions at once.  Begin and end are logged in the order in which
// they happen.
static void run_parallel(const J& c)
{
  struct Job { int t, r, d, n; long max; };
  std::vector<std::vector<Job>> per;
  for(const auto& l : c["threads"].GetArray())
  {
    per.emplace_back();
    for(const auto& j : l.GetArray())
      per.back().push_back({j["t"].GetInt(), j["r"].GetInt(), j["d"].GetInt(), j["n"].GetInt(), j["max"].GetInt()});
  }
  std::mutex m;
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for(const auto& jobs : per)
    ts.emplace_back([&, jobs]{
      ++ready;
      while( ready.load() < static_cast<int>(per.size()) ) std::this_thread::yield();
      for(const Job& j : jobs)
      {
        const Rule& r = rules.at(j.r);
        const Doc& d = docs.at(j.d);
        {
          rapidjson::StringBuffer b; W w(b);
          w.StartObject();
          w.Key("op"); w.String("begin"); w.Key("t"); w.Int(j.t); w.Key("r"); w.Int(j.r);
          w.Key("d"); w.Int(j.d); w.Key("n"); w.Int(j.n); w.Key("max"); w.Int(static_cast<int>(j.max));
          w.EndObject();
          std::lock_guard<std::mutex> l(m);
          emit(b);
        }
        Outcome o = extract(r, d, j.n, j.max);
        {
          rapidjson::StringBuffer b; W w(b);
          w.StartObject();
          w.Key("op"); w.String("end"); w.Key("t"); w.Int(j.t);
          put_outcome(w, o);
          w.EndObject();
          std::lock_guard<std::mutex> l(m);
          emit(b);
        }
      }
    });
  for(auto& t : ts) t.join();
}

static void echo(W& w, const J& c, std::initializer_list<const char *> drop = {})
{
  for(auto it = c.MemberBegin(); it != c.MemberEnd(); ++it)
  {
    bool skip = false;
    for(const char * d : drop) skip = skip || !std::strcmp(d, it->name.GetString());
    if( skip ) continue;
    w.Key(it->name.GetString());
    it->value.Accept(w);
  }
}

static void run(const J& c)
{
  string op = c["op"].GetString();
  auto has_rule = [&](const char * k){ return rules.count(c[k].GetInt()) > 0; };
  auto rule = [&](const char * k) -> Rule& { return rules.at(c[k].GetInt()); };
  rapidjson::StringBuffer b; W w(b);

  // A command about a rule that does not exist (its template was rejected) is
  // skipped, and leaves no event.
  static const char * needs[] = {"extract", "limit-of", "add-match", "add-capture", "set-optional", "set-greedy",
    "set-tag", "set-tagname", "append", "look", "matches", "captures", "add-obj", "free"};
  for(auto k : needs)
    if( op == k && !has_rule("r") ) return;
  if( (op == "append" || op == "copy" || op == "move") && !has_rule("from") ) return;
  // So is one about a node that the document does not have.
  auto has_node = [](const J& x)
  {
    if( !x.HasMember("d") || !x.HasMember("n") ) return true;
    auto d = docs.find(x["d"].GetInt());
    return d != docs.end() && x["n"].GetInt() >= 1 && x["n"].GetInt() <= static_cast<int>(d->second.nodes.size());
  };
  if( !has_node(c) ) return;
  if( op == "par" )
  {
    for(const auto& l : c["threads"].GetArray())
      for(const auto& j : l.GetArray())
        if( !rules.count(j["r"].GetInt()) || !has_node(j) ) return;
    run_parallel(c);
    return;
  }

  w.StartObject();
  if( op == "reset" )
  {
    echo(w, c);
    rules.clear(); objs.clear(); docs.clear();
  }
  else if( op == "doc" )   // html, cstr: construct from a C string
  {
    Doc d;
    d.buf = std::make_unique<string>(bytes(c["html"]));
    GumboOutput * g = gumbo_parse_with_options(&kGumboDefaultOptions, d.buf->data(), d.buf->size());
    echo(w, c, {"html", "cstr"});
    std::vector<const GumboNode *> ns;
    walk(g->root, ns);
    w.Key("dom"); put_dom(w, ns);
    gumbo_destroy_output(&kGumboDefaultOptions, g);
    d.html = c.HasMember("cstr") ? std::make_unique<Html>(d.buf->c_str())
                                 : std::make_unique<Html>(d.buf->data(), d.buf->size());
    if( d.html->root() ) walk(d.html->root(), d.nodes);
    docs[c["d"].GetInt()] = std::move(d);
  }
  else if( op == "doc-move" )   // how: construct | assign
  {
    echo(w, c);
    Doc& s = docs.at(c["from"].GetInt());
    int to = c["d"].GetInt();
    if( string(c["how"].GetString()) == "assign" && docs.count(to) )
    {
      Doc& t = docs.at(to);
      *t.html = std::move(*s.html);   // the old buffer must outlive nothing now
      t.buf = std::move(s.buf);
    }
    else
    {
      Doc t;
      t.html = std::make_unique<Html>(std::move(*s.html));
      t.buf = std::move(s.buf);
      docs[to] = std::move(t);
    }
    docs.erase(c["from"].GetInt());
    Doc& t = docs.at(to);
    t.nodes.clear();
    if( t.html->root() ) walk(t.html->root(), t.nodes);
  }
  else if( op == "doc-free" ) { echo(w, c); docs.erase(c["d"].GetInt()); }
  else if( op == "doc-look" )
  {
    echo(w, c);
    Doc& d = docs.at(c["d"].GetInt());
    std::vector<const GumboNode *> ns;
    if( d.html->root() ) walk(d.html->root(), ns);
    w.Key("dom"); put_dom(w, ns);
  }
  else if( op == "parse" )   // how: "size" or "cstr"
  {
    echo(w, c, {"how"});
    string src = bytes(c["src"]);
    string o = "ok", msg;
    // an exact copy on the heap: nothing behind the end may be read
    std::unique_ptr<char[]> exact(new char[src.size() ? src.size() : 1]);
    std::memcpy(exact.get(), src.data(), src.size());
    try
    {
      if( c.HasMember("how") && string(c["how"].GetString()) == "cstr" )
        rules.insert_or_assign(c["r"].GetInt(), ParseHext(src.c_str()));
      else
        rules.insert_or_assign(c["r"].GetInt(), ParseHext(exact.get(), src.size()));
    }
    catch( const SyntaxError& e ) { o = "syntax"; msg = e.what(); }
    catch( const std::exception& e ) { o = "other"; msg = e.what(); }
    if( o != "ok" ) rules.erase(c["r"].GetInt());
    w.Key("out"); w.String(o.c_str());
    w.Key("msg"); put(w, msg);
  }
  else if( op == "rule" )
  {
    echo(w, c);
    string tag = bytes(c["tag"]);
    bool opt = c["opt"].GetBool(), greedy = c["greedy"].GetBool();
    rules.insert_or_assign(c["r"].GetInt(), string(c["by"].GetString()) == "name"
      ? Rule(tag, opt, greedy) : Rule(tag_of(tag), opt, greedy));
  }
  else if( op == "add-match" ) { echo(w, c); at_path(&rule("r"), c["path"])->append_match(match_of(c["v"])); }
  else if( op == "add-capture" ) { echo(w, c); at_path(&rule("r"), c["path"])->append_capture(capture_of(c["v"])); }
  else if( op == "set-optional" ) { echo(w, c); at_path(&rule("r"), c["path"])->set_optional(c["v"].GetBool()); }
  else if( op == "set-greedy" ) { echo(w, c); at_path(&rule("r"), c["path"])->set_greedy(c["v"].GetBool()); }
  else if( op == "set-tag" ) { echo(w, c); at_path(&rule("r"), c["path"])->set_tag(tag_of(bytes(c["v"]))); }
  else if( op == "set-tagname" ) { echo(w, c); at_path(&rule("r"), c["path"])->set_tagname(bytes(c["v"])); }
  else if( op == "append" )
  {
    echo(w, c);
    bool move = c["move"].GetBool();
    Rule arg = move ? std::move(rule("from")) : rule("from");
    if( move ) rules.erase(c["from"].GetInt());
    Rule * t = at_path(&rule("r"), c["path"]);
    string how = c["how"].GetString();
    if( how == "child" ) t->append_child(std::move(arg));
    else if( how == "next" ) t->append_next(std::move(arg));
    else t->append_nested(std::move(arg));
  }
  else if( op == "copy" )   // how: construct | assign
  {
    echo(w, c);
    int to = c["r"].GetInt();
    if( string(c["how"].GetString()) == "assign" && rules.count(to) )
      rules.at(to) = *at_path(&rule("from"), c["path"]);
    else
    {
      Rule r(*at_path(&rule("from"), c["path"]));
      rules.insert_or_assign(to, std::move(r));
    }
  }
  else if( op == "move" )
  {
    echo(w, c);
    int to = c["r"].GetInt(), from = c["from"].GetInt();
    if( to != from )
    {
      if( string(c["how"].GetString()) == "assign" && rules.count(to) )
        rules.at(to) = std::move(rules.at(from));
      else
      {
        Rule r(std::move(rules.at(from)));
        rules.insert_or_assign(to, std::move(r));
      }
      rules.erase(from);
    }
  }
  else if( op == "free" ) { echo(w, c); rules.erase(c["r"].GetInt()); }
  else if( op == "look" ) { echo(w, c); w.Key("shape"); put_shape(w, &rule("r")); }
  else if( op == "extract" )
  {
    echo(w, c);
    put_outcome(w, extract(rule("r"), docs.at(c["d"].GetInt()), c["n"].GetInt(), c["max"].GetInt()));
  }
  else if( op == "limit-of" )   // the smallest limit that lets the extraction finish, and what the one below it does
  {
    echo(w, c);
    const Rule& r = rule("r");
    const Doc& d = docs.at(c["d"].GetInt());
    int n = c["n"].GetInt();
    auto done = [&](long m) { return string(extract(r, d, n, m).out) == "ok"; };
    long lo = 0, hi = 1;
    while( hi < (1L << 28) && !done(hi) ) { lo = hi; hi *= 2; }
    while( hi - lo > 1 )
    {
      long m = lo + (hi - lo) / 2;
      (done(m) ? hi : lo) = m;
    }
    w.Key("min"); w.Int(static_cast<int>(hi));
    w.Key("below"); w.String(lo ? extract(r, d, n, lo).out : "limit");
  }
  else if( op == "grid" )   // all rules, in the order of their slots; max: one limit for each, or none
  {
    echo(w, c, {"max"});
    w.Key("outs"); w.StartArray();
    unsigned k = 0;
    for(const auto& r : rules)
    {
      w.StartObject();
      put_outcome(w, extract(r.second, docs.at(c["d"].GetInt()), c["n"].GetInt(),
                             c.HasMember("max") ? c["max"][k].GetInt() : 0));
      w.EndObject();
      ++k;
    }
    w.EndArray();
  }
  else if( op == "matches" || op == "captures" )
  {
    echo(w, c);
    auto n = docs.at(c["d"].GetInt()).nodes.at(static_cast<unsigned>(c["n"].GetInt()) - 1);
    Rule * r = at_path(&rule("r"), c["path"]);
    bool yes = false;
    std::vector<ResultPair> ps;
    const char * o = "ok";
    try { if( op == "matches" ) yes = r->matches(n); else ps = r->capture(n); }
    catch( const std::exception& ) { o = "other"; }
    w.Key("out"); w.String(o);
    w.Key("res");
    if( op == "matches" ) w.Bool(yes); else put_pairs(w, ps);
  }
  else if( op == "builtin" )
  {
    echo(w, c);
    auto n = docs.at(c["d"].GetInt()).nodes.at(static_cast<unsigned>(c["n"].GetInt()) - 1);
    w.Key("res"); put(w, func_of(c["f"])(n));
  }
  else if( op == "builtins" )   // of the first nodes
  {
    echo(w, c);
    const Doc& d = docs.at(c["d"].GetInt());
    w.Key("res"); w.StartArray();
    for(std::size_t i = 0; i < d.nodes.size() && i < 40; ++i) put(w, func_of(c["f"])(d.nodes[i]));
    w.EndArray();
  }
  else if( op == "probe" )   // parse pre followed by each of sufs
  {
    echo(w, c);
    string pre = bytes(c["pre"]);
    w.Key("outs"); w.StartArray();
    for(const auto& suf : c["sufs"].GetArray())
    {
      string src = pre + bytes(suf), o = "ok", msg;
      std::unique_ptr<char[]> exact(new char[src.size() ? src.size() : 1]);
      std::memcpy(exact.get(), src.data(), src.size());
      try { ParseHext(exact.get(), src.size()); }
      catch( const SyntaxError& e ) { o = "syntax"; msg = e.what(); }
      catch( const std::exception& e ) { o = "other"; msg = e.what(); }
      w.StartObject(); w.Key("out"); w.String(o.c_str()); w.Key("msg"); put(w, msg); w.EndObject();
    }
    w.EndArray();
  }
  else if( op == "tour" )   // is pre + byte + completion accepted?  For every byte
  {
    string pre = bytes(c["pre"]), outs;
    std::vector<string> sufs;
    for(const auto& suf : c["sufs"].GetArray())
      sufs.push_back(bytes(suf));
    for(int b = 0; b < 256; ++b)
    {
      string src = pre + static_cast<char>(b) + sufs.at(c["by"][b].GetInt());
      std::unique_ptr<char[]> exact(new char[src.size()]);
      std::memcpy(exact.get(), src.data(), src.size());
      try { ParseHext(exact.get(), src.size()); outs += 'a'; }
      catch( const SyntaxError& ) { outs += 's'; }
      catch( const std::exception& ) { outs += 'o'; }
    }
    echo(w, c, {"pre", "sufs", "by"});
    w.Key("outs"); w.String(outs.c_str());
  }
  else if( op == "obj" )
  {
    echo(w, c);
    Obj o;
    string k = c["kind"].GetString();
    if( k == "test" ) o.test = test_of(c["v"]);
    else if( k == "match" ) o.match = match_of(c["v"]);
    else if( k == "capture" ) o.capture = capture_of(c["v"]);
    else o.pipe = pipes_of(c["v"]);
    objs[c["o"].GetInt()] = std::move(o);
  }
  else if( op == "obj-copy" || op == "obj-move" )
  {
    echo(w, c);
    bool move = op == "obj-move";
    string how = c["how"].GetString();
    int to = c["o"].GetInt(), from = c["from"].GetInt();
    Obj& s = objs.at(from);
    Obj& d = objs[to];
    transfer<Tests>(d.test, s.test, how, move);
    transfer<Matches>(d.match, s.match, how, move);
    transfer<Captures_>(d.capture, s.capture, how, move);
    transfer<Pipes>(d.pipe, s.pipe, how, move);
    if( move && to != from ) objs.erase(from);
  }
  else if( op == "obj-free" ) { echo(w, c); objs.erase(c["o"].GetInt()); }
  else if( op == "obj-use" )
  {
    echo(w, c);
    Obj& o = objs.at(c["o"].GetInt());
    const GumboNode * n = c.HasMember("d")
      ? docs.at(c["d"].GetInt()).nodes.at(static_cast<unsigned>(c["n"].GetInt()) - 1) : nullptr;
    rapidjson::StringBuffer rb; W rw(rb);
    const char * res = "ok";
    try
    {
      if( o.test )
      {
        auto v = c["val"].GetArray();
        string s = v.Size() ? bytes(v[0]) : "";
        rw.Bool(o.test->test(v.Size() ? s.c_str() : nullptr));
      }
      else if( o.match ) rw.Bool(o.match->matches(n));
      else if( o.capture )
      {
        std::vector<ResultPair> ps;
        if( auto p = o.capture->capture(n) ) ps.push_back(*p);
        put_pairs(rw, ps);
      }
      else if( o.pipe ) put(rw, o.pipe->pipe(bytes(c["val"])));
      else put(rw, bytes(c["val"]));
    }
    catch( const std::exception& ) { res = "other"; rw.Int(0); }
    w.Key("out"); w.String(res);
    w.Key("res"); w.RawValue(rb.GetString(), rb.GetSize(), rapidjson::kArrayType);
  }
  else if( op == "add-obj" )
  {
    echo(w, c);
    Obj& o = objs.at(c["o"].GetInt());
    Rule * t = at_path(&rule("r"), c["path"]);
    if( o.match ) t->append_match(o.match->clone());
    else t->append_capture(o.capture->clone());
  }
  else
  {
    std::cerr << "unknown command " << op << "\n";
    std::exit(3);
  }
  w.EndObject();
  emit(b);
}

int main(int argc, char ** argv)
{
  if( argc != 3 ) return 3;
  std::ifstream in(argv[1], std::ios::binary);
  out = std::fopen(argv[2], "wb");
  if( !in || !out ) return 3;
  string line;
  while( std::getline(in, line) )
  {
    rapidjson::Document c;
    c.Parse(line.c_str());
    if( c.HasParseError() || !c.IsObject() ) { std::cerr << "bad command: " << line << "\n"; return 3; }
    run(c);
    std::fflush(out);
  }
  std::fclose(out);
  return 0;
}
