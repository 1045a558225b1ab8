From 318ef1208bf32e781fe96e5f0166edcd854211eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 01/22] fix: do not carry regex flags over to the next regex

pv.regex_flag was only reset at the end of a pattern. Every regex after the
first in a pipe chain, and every regex following a trait with a flag, was
compiled with the flags of its predecessors.
---
 libhext/ragel/hext-machine.rl | 2 +-
 libhext/src/Parser.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 9b9502f..284e645 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -100,7 +100,7 @@ regex = (
   ( 'c' %{ pv.regex_flag |= boost::regex::collate; } )
 )*
 %{ try {
-     pv.regex = boost::regex(tok, pv.regex_flag);
+     pv.regex = boost::regex(tok, std::exchange(pv.regex_flag, boost::regex::perl));
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index b299e10..0e5a86d 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -2020,7 +2020,7 @@ _match:
 	case 27:
 #line 102 "hext-machine.rl"
 	{ try {
-     pv.regex = boost::regex(tok, pv.regex_flag);
+     pv.regex = boost::regex(tok, std::exchange(pv.regex_flag, boost::regex::perl));
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
-- 
2.43.0


From f58da9805d01cbdb1e4e7d18d9f757d3a72f0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 02/22] fix: report numbers out of range as SyntaxError

std::stoi throws std::out_of_range for numbers that do not fit into an int,
which escaped from ParseHext.
---
 libhext/ragel/Parser.cpp.rl   | 12 ++++++++++++
 libhext/ragel/hext-machine.rl |  8 ++++----
 libhext/src/Parser.cpp        | 20 ++++++++++++++++----
 libhext/src/Parser.h          |  5 +++++
 4 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index b0c7523..5b599e8 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -444,6 +444,18 @@ void Parser::throw_error_message(const std::string& msg) const
   throw SyntaxError(error_msg.str());
 }
 
+int Parser::to_int_or_throw(const std::string& number) const
+{
+  try
+  {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& )
+  {
+    this->throw_error_message("Number out of range");
+  }
+}
+
 void Parser::print_error_location(
   const char * uc,
   std::size_t mark_len,
diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 284e645..cfd963e 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -70,13 +70,13 @@ nth_pattern = (
 
   ( ( ( '-'? [0-9]+ )
       >{ tk_start(); }
-      %{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+      %{ tk_stop(); pv.nth = {0, to_int_or_throw(tok)}; }
     )
     ( 'n'
       %{ pv.nth = {pv.nth.second, 0}; }
       ( ( ('+'|'-') [0-9]+ )
         >{ tk_start(); }
-        %{ tk_stop(); pv.nth.second = std::stoi(tok); }
+        %{ tk_stop(); pv.nth.second = to_int_or_throw(tok); }
       )?
     )?
   )
@@ -120,14 +120,14 @@ trait = ':' (
   ( 'child-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<ChildCountMatch>(to_int_or_throw(tok)); } )
     ')' )
   |
 
   ( 'attribute-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(to_int_or_throw(tok)); } )
     ')' )
   |
 
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index 0e5a86d..d77b09f 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -1971,7 +1971,7 @@ _match:
 	break;
 	case 15:
 #line 73 "hext-machine.rl"
-	{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+	{ tk_stop(); pv.nth = {0, to_int_or_throw(tok)}; }
 	break;
 	case 16:
 #line 76 "hext-machine.rl"
@@ -1983,7 +1983,7 @@ _match:
 	break;
 	case 18:
 #line 79 "hext-machine.rl"
-	{ tk_stop(); pv.nth.second = std::stoi(tok); }
+	{ tk_stop(); pv.nth.second = to_int_or_throw(tok); }
 	break;
 	case 19:
 #line 88 "hext-machine.rl"
@@ -2043,7 +2043,7 @@ _match:
 	break;
 	case 31:
 #line 123 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<ChildCountMatch>(to_int_or_throw(tok)); }
 	break;
 	case 32:
 #line 129 "hext-machine.rl"
@@ -2051,7 +2051,7 @@ _match:
 	break;
 	case 33:
 #line 130 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<AttributeCountMatch>(to_int_or_throw(tok)); }
 	break;
 	case 34:
 #line 135 "hext-machine.rl"
@@ -2629,6 +2629,18 @@ void Parser::throw_error_message(const std::string& msg) const
   throw SyntaxError(error_msg.str());
 }
 
+int Parser::to_int_or_throw(const std::string& number) const
+{
+  try
+  {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& )
+  {
+    this->throw_error_message("Number out of range");
+  }
+}
+
 void Parser::print_error_location(
   const char * uc,
   std::size_t mark_len,
diff --git a/libhext/src/Parser.h b/libhext/src/Parser.h
index c44f4fc..1271746 100644
--- a/libhext/src/Parser.h
+++ b/libhext/src/Parser.h
@@ -134,6 +134,11 @@ private:
   /// @param msg:  The error message.
   [[noreturn]] void throw_error_message(const std::string& msg) const;
 
+  /// Returns the value of a decimal number.
+  ///
+  /// @throws SyntaxError if the number does not fit into an int.
+  int to_int_or_throw(const std::string& number) const;
+
   /// Prints an error at the current location within hext. Prints hext with line
   /// numbers up to the unexpected character.
   ///
-- 
2.43.0


From 9a3850b1dc43370e9798ca9c5981dc2e7c497f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 03/22] fix: do not dereference a null PyObject

If a value isn't valid UTF-8, PyString_FromString returns nullptr and
ScopedPyObject crashed the interpreter while reporting the error.
---
 libhext/bindings/python/pyhext.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 813d5df..593aa0d 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -41,7 +41,7 @@ struct ScopedPyObject
   : obj(object)
   {}
 
-  ~ScopedPyObject() noexcept { Py_DECREF(this->obj); }
+  ~ScopedPyObject() noexcept { Py_XDECREF(this->obj); }
 
   PyObject * obj;
 };
-- 
2.43.0


From 03369bc49148d2d9b6a6843d7fe0335d0222d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 04/22] fix: turn every exception of Rule::extract into a host
 exception

boost::regex throws std::runtime_error if an expression is too complex for
its subject. The bindings only caught MaxSearchError, and the interpreter was
terminated.
---
 libhext/bindings/php/phphext.i   | 2 +-
 libhext/bindings/python/pyhext.i | 2 +-
 libhext/bindings/ruby/rbhext.i   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 52a143b..f613d0a 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -79,7 +79,7 @@
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 593aa0d..93d8b31 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -136,7 +136,7 @@ struct ScopedPyObject
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
diff --git a/libhext/bindings/ruby/rbhext.i b/libhext/bindings/ruby/rbhext.i
index 4f68d3c..ac16f34 100644
--- a/libhext/bindings/ruby/rbhext.i
+++ b/libhext/bindings/ruby/rbhext.i
@@ -75,7 +75,7 @@
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
-- 
2.43.0


From 41f7050af8c17521f183cdeed13e14f3d93b926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 05/22] fix: match childless elements if all rules below are
 optional

Optional rules are ignored if not found, but an element without any child
nodes was rejected by a rule that had nothing but optional rules below.
---
 libhext/src/RuleMatching.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libhext/src/RuleMatching.cpp b/libhext/src/RuleMatching.cpp
index cf77658..42bd8bd 100644
--- a/libhext/src/RuleMatching.cpp
+++ b/libhext/src/RuleMatching.cpp
@@ -18,6 +18,8 @@
 #include "hext/Rule.h"
 #include "NodeUtil.h"
 
+#include <algorithm>
+
 
 namespace hext {
 
@@ -193,9 +195,19 @@ bool RuleMatchesNodeRecursive(const Rule *      rule,
   if( !rule->child() && rule->nested().empty() )
     return true;
 
-  if( node->type != GUMBO_NODE_ELEMENT || !node->v.element.children.length )
+  if( node->type != GUMBO_NODE_ELEMENT )
     return false;
 
+  // Without child nodes, only optional rules can be satisfied.
+  if( !node->v.element.children.length )
+    return !FindMandatoryRule(rule->child(), nullptr) &&
+           std::none_of(
+             rule->nested().cbegin(),
+             rule->nested().cend(),
+             [](const Rule& nested) {
+               return FindMandatoryRule(&nested, nullptr);
+             });
+
   auto first_child = static_cast<const GumboNode *>(
       node->v.element.children.data[0]);
 
-- 
2.43.0


From 1d825d7a9395797c1589cc4eab348b80753d5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 06/22] fix: report read errors instead of treating the input
 as empty

operator<<(streambuf*) reports a failing read by setting badbit on the
destination, e.g. when reading a directory.
---
 htmlext/htmlext/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index e014da2..34d4940 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -80,7 +80,7 @@ std::string ReadFileOrThrow(const std::string& path)
   std::stringstream buffer;
   buffer << file.rdbuf();
 
-  if( file.fail() )
+  if( file.fail() || buffer.bad() )
     throw FileError(
       "cannot read '" + path + "': " + StrError(errno)
     );
-- 
2.43.0


From bf7b569cadb5fd2a9515e20c4cd764ef3b013e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 07/22] fix: allow assigning captures without a pipe

---
 libhext/src/AttributeCapture.cpp | 2 +-
 libhext/src/FunctionCapture.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/src/AttributeCapture.cpp b/libhext/src/AttributeCapture.cpp
index 8631433..c772099 100644
--- a/libhext/src/AttributeCapture.cpp
+++ b/libhext/src/AttributeCapture.cpp
@@ -43,7 +43,7 @@ AttributeCapture& AttributeCapture::operator=(const AttributeCapture& other)
   {
     this->attr_name_ = other.attr_name_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
diff --git a/libhext/src/FunctionCapture.cpp b/libhext/src/FunctionCapture.cpp
index a3b0d0b..dd60108 100644
--- a/libhext/src/FunctionCapture.cpp
+++ b/libhext/src/FunctionCapture.cpp
@@ -43,7 +43,7 @@ FunctionCapture& FunctionCapture::operator=(const FunctionCapture& other)
   {
     this->func_ = other.func_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
-- 
2.43.0


From 01524ed66c5d77c2c4e2f77c2cc3c115f80c557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 08/22] fix: read hext files beyond the first NUL byte

Whatever followed a NUL byte was neither parsed nor checked.
---
 htmlext/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index c4049c3..2cbe517 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -64,8 +64,8 @@ int main(int argc, const char ** argv)
     for(const auto& filename : hext_filenames)
     {
       try {
-        rules.emplace_back(
-            hext::ParseHext(htmlext::ReadFileOrThrow(filename).c_str()));
+        auto hext = htmlext::ReadFileOrThrow(filename);
+        rules.emplace_back(hext::ParseHext(hext.c_str(), hext.size()));
       } catch( const hext::SyntaxError& e ) {
         errout.print(std::string("Error in " + filename), e.what());
         return EXIT_FAILURE;
-- 
2.43.0


From 1f0014dc789f46620a8ddf93b94f96fd91f610f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 09/22] fix: keep NUL bytes of captured names and values in
 JSON

---
 htmlext/htmlext/Json.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/htmlext/htmlext/Json.cpp b/htmlext/htmlext/Json.cpp
index ab3c672..a6785cb 100644
--- a/htmlext/htmlext/Json.cpp
+++ b/htmlext/htmlext/Json.cpp
@@ -34,8 +34,14 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 
     for(const auto& p : group)
     {
-      rapidjson::Value name(p.first.c_str(), alloc);
-      rapidjson::Value value(p.second.c_str(), alloc);
+      rapidjson::Value name(
+          p.first.c_str(),
+          static_cast<rapidjson::SizeType>(p.first.size()),
+          alloc);
+      rapidjson::Value value(
+          p.second.c_str(),
+          static_cast<rapidjson::SizeType>(p.second.size()),
+          alloc);
       // If the key is already taken, transform the value into an array
       if( obj.HasMember(name) )
       {
-- 
2.43.0


From 334244837c9c072adcd7512cfb060d61de1f22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 10/22] fix: transfer ownership when moving Html

The defaulted move operations copied the owning pointer: the document was
destroyed twice.
---
 libhext/include/hext/Html.h |  4 ++--
 libhext/src/Html.cpp        | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/libhext/include/hext/Html.h b/libhext/include/hext/Html.h
index bbee510..c71e201 100644
--- a/libhext/include/hext/Html.h
+++ b/libhext/include/hext/Html.h
@@ -64,8 +64,8 @@ public:
   Html(const char * buffer, std::size_t size) noexcept;
 
   ~Html() noexcept;
-  Html(Html&&) noexcept = default;
-  Html& operator=(Html&&) noexcept = default;
+  Html(Html&& other) noexcept;
+  Html& operator=(Html&& other) noexcept;
 
   /// Returns a non-owning pointer to the root node of the HTML document.
   ///
diff --git a/libhext/src/Html.cpp b/libhext/src/Html.cpp
index 553ce7c..0392648 100644
--- a/libhext/src/Html.cpp
+++ b/libhext/src/Html.cpp
@@ -15,6 +15,7 @@
 #include "hext/Html.h"
 
 #include <cstring>
+#include <utility>
 
 
 namespace hext {
@@ -42,6 +43,17 @@ Html::~Html() noexcept
     gumbo_destroy_output(&kGumboDefaultOptions, this->g_outp_);
 }
 
+Html::Html(Html&& other) noexcept
+: g_outp_(std::exchange(other.g_outp_, nullptr))
+{
+}
+
+Html& Html::operator=(Html&& other) noexcept
+{
+  std::swap(this->g_outp_, other.g_outp_);
+  return *this;
+}
+
 const GumboNode * Html::root() const noexcept
 {
   return this->g_outp_ ? this->g_outp_->root : nullptr;
-- 
2.43.0


From 6a4b15dbf5ef520f2c21e61495cc92afd064ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 11/22] fix: the root element has no position among siblings

Its position was counted as zero, which nth patterns like even, 2n and 0
accepted.
---
 libhext/src/NthChildMatch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 6c266e8..ccfd5d8 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -53,6 +53,10 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
   else
     node_pos = this->count_following_siblings(node, count_tag);
 
+  // The root element is no child of an element and has no position.
+  if( !node_pos )
+    return false;
+
   // If step is zero, the user gave a specific number of the child element to
   // match. E.g. nth-child(23) or nth-child(0n+23).
   if( !this->step_ )
-- 
2.43.0


From a74ec5197f8eaeaac5e96c7b44828561b917931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 12/22] fix: detect errors while reading a file

Inserting the stream buffer never reported them: a directory was read as an
empty file.
---
 htmlext/htmlext/File.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index 34d4940..01c5cf9 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -15,7 +15,6 @@
 #include "htmlext/File.h"
 
 #include <fstream>
-#include <sstream>
 // strerror_r, strerror_s are not part of the C++ stdlib
 #include <string.h>
 
@@ -77,15 +76,24 @@ std::string ReadFileOrThrow(const std::string& path)
       );
   }
 
-  std::stringstream buffer;
-  buffer << file.rdbuf();
+  // Inserting file.rdbuf() into a stream would hide a failing read: it leaves
+  // the state of file untouched, and only sets the failbit of the other stream,
+  // just as it does for an empty file.
+  std::string content;
+  char buffer[4096];
+  do
+  {
+    file.read(buffer, sizeof(buffer));
+    content.append(buffer, static_cast<std::string::size_type>(file.gcount()));
+  }
+  while( file );
 
-  if( file.fail() || buffer.bad() )
+  if( file.bad() )
     throw FileError(
       "cannot read '" + path + "': " + StrError(errno)
     );
 
-  return buffer.str();
+  return content;
 }
 
 
-- 
2.43.0


From 02e6bc9c6c15e28c4873f8c5303de0465c88f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 13/22] fix: reject surplus arguments of --lint instead of
 ignoring them

---
 htmlext/htmlext/ProgramOptions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmlext/htmlext/ProgramOptions.cpp b/htmlext/htmlext/ProgramOptions.cpp
index f7a8650..db6ac3e 100644
--- a/htmlext/htmlext/ProgramOptions.cpp
+++ b/htmlext/htmlext/ProgramOptions.cpp
@@ -80,8 +80,9 @@ void ProgramOptions::store_and_validate_or_throw(int argc, const char * argv[])
   {
     pos_opt.add("hext", 1);
     pos_opt.add("html", -1);
-    cli_parser.positional(pos_opt);
   }
+  // Without any positional options every positional argument is an error.
+  cli_parser.positional(pos_opt);
 
   po::store(cli_parser.run(), this->vm_);
   po::notify(this->vm_);
-- 
2.43.0


From 90e3db7b4ed9e7cc79ccabdbfea0b706e98f39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 14/22] fix: fail if the output cannot be written

---
 htmlext/main.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index 2cbe517..b2d6d9d 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -25,10 +25,27 @@
 #include <ios>
 #include <iostream>
 #include <memory>
+#include <ostream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
 
+namespace {
+
+
+/// Throw if anything that was printed could not be written, e.g. because the
+/// disk is full.
+void FlushOrThrow(std::ostream& out)
+{
+  if( !out.flush() )
+    throw std::runtime_error("cannot write to standard output");
+}
+
+
+} // namespace
+
+
 int main(int argc, const char ** argv)
 {
   std::ios_base::sync_with_stdio(false);
@@ -43,12 +60,14 @@ int main(int argc, const char ** argv)
     if( po.contains("help") )
     {
       po.print(argv[0], std::cout);
+      FlushOrThrow(std::cout);
       return EXIT_SUCCESS;
     }
 
     if( po.contains("version") )
     {
       htmlext::PrintVersion(std::cout);
+      FlushOrThrow(std::cout);
       return EXIT_SUCCESS;
     }
 
@@ -115,6 +134,8 @@ int main(int argc, const char ** argv)
           htmlext::PrintJson(result, po.get_json_options(), std::cout);
         }
       }
+
+    FlushOrThrow(std::cout);
   }
   catch( const htmlext::FileError& e )
   {
-- 
2.43.0


From f90b2d2c6c634fd84e7566d5603e30513e5b3132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:55 +0000
Subject: [PATCH 15/22] fix: filter the whole value, not the part before its
 first zero byte

RegexPipe searched str.c_str(), so that the pipes before it could produce a
value (append, prepend and replace take any literal) of which filter only
saw a prefix, while every other pipe works on the whole string.
---
 libhext/src/RegexPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/src/RegexPipe.cpp b/libhext/src/RegexPipe.cpp
index 144cf6f..8b80945 100644
--- a/libhext/src/RegexPipe.cpp
+++ b/libhext/src/RegexPipe.cpp
@@ -25,8 +25,8 @@ RegexPipe::RegexPipe(boost::regex regex)
 
 std::string RegexPipe::transform(std::string str) const
 {
-  boost::match_results<const char *> mr;
-  if( boost::regex_search(str.c_str(), mr, this->regex_) )
+  boost::smatch mr;
+  if( boost::regex_search(str, mr, this->regex_) )
   {
     // If there are no parentheses contained within the regex, return whole
     // regex capture (mr[0]), if there are, then return the first one.
-- 
2.43.0


From ea076c309d1af9dfbd1c2019873295d63117b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:48 +0000
Subject: [PATCH 16/22] fix: zero bytes in names and values captured through
 Python and PHP

The Python binding cut names and values at their first zero byte, the PHP
binding did so with names and with values captured once (not with those in
lists). The Ruby binding and htmlext pass them on unchanged.
---
 libhext/bindings/php/phphext.i   | 13 ++++++--
 libhext/bindings/python/pyhext.i | 56 +++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index f613d0a..2c96cfc 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -32,10 +32,12 @@
     {
       if( map.count(it->first) < 2 )
       {
-        add_assoc_string(
+        add_assoc_stringl_ex(
           &out_map,
           it->first.c_str(),
-          it->second.c_str()
+          it->first.size(),
+          it->second.c_str(),
+          it->second.size()
         );
         ++it;
       }
@@ -54,7 +56,12 @@
             lower->second.size()
           );
 
-        add_assoc_zval(&out_map, it->first.c_str(), &values);
+        add_assoc_zval_ex(
+          &out_map,
+          it->first.c_str(),
+          it->first.size(),
+          &values
+        );
         it = upper;
       }
     }
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 93d8b31..5037858 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -53,6 +53,32 @@ struct ScopedPyObject
 %} // %inline
 
 
+%{
+
+
+namespace {
+
+
+// Create a string object from all of str, including any zero bytes. Returns a
+// new reference or nullptr.
+PyObject * ToPyString(const std::string& str)
+{
+#if PY_VERSION_HEX >= 0x03000000
+  return PyUnicode_FromStringAndSize(
+      str.data(), static_cast<Py_ssize_t>(str.size()));
+#else
+  return PyString_FromStringAndSize(
+      str.data(), static_cast<Py_ssize_t>(str.size()));
+#endif
+}
+
+
+} // namespace
+
+
+%}
+
+
 // Convert vector of multimaps to list of dicts
 %typemap(out) std::vector<std::multimap<std::string, std::string>>
 {
@@ -69,17 +95,19 @@ struct ScopedPyObject
     auto it = map.cbegin();
     while( it != map.cend() )
     {
+      ScopedPyObject key(ToPyString(it->first));
+      if( !key.obj )
+        SWIG_exception(SWIG_RuntimeError, "ToPyString returned nullptr");
+
       if( map.count(it->first) < 2 )
       {
-        ScopedPyObject value(PyString_FromString(it->second.c_str()));
+        ScopedPyObject value(ToPyString(it->second));
         if( !value.obj )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyString_FromString returned nullptr");
+          SWIG_exception(SWIG_RuntimeError, "ToPyString returned nullptr");
 
-        // does not steal a reference to value
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), value.obj) )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+        // does not steal a reference to key or value
+        if( PyDict_SetItem(dict.obj, key.obj, value.obj) )
+          SWIG_exception(SWIG_RuntimeError, "PyDict_SetItem returned != 0");
 
         ++it;
       }
@@ -93,22 +121,18 @@ struct ScopedPyObject
         auto upper = map.upper_bound(it->first);
         for(; lower != upper; ++lower)
         {
-          // Swig defines PyString_FromString, which forwards to
-          // PyUnicode_FromString
-          ScopedPyObject value(PyString_FromString(lower->second.c_str()));
+          ScopedPyObject value(ToPyString(lower->second));
           if( !value.obj )
-            SWIG_exception(SWIG_RuntimeError,
-                "PyString_FromString returned nullptr");
+            SWIG_exception(SWIG_RuntimeError, "ToPyString returned nullptr");
 
           // does not steal a reference to value
           if( PyList_Append(list.obj, value.obj) )
             SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
         }
 
-        // does not steal a reference to list
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), list.obj) )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+        // does not steal a reference to key or list
+        if( PyDict_SetItem(dict.obj, key.obj, list.obj) )
+          SWIG_exception(SWIG_RuntimeError, "PyDict_SetItem returned != 0");
 
         it = upper;
       }
-- 
2.43.0


From c67793ba9578f51a47ad4b11f0e9bb53cb6af275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:27 +0000
Subject: [PATCH 17/22] fix: positional traits with extreme steps and shifts
 overflowed int

For example, :nth-child(3n-2147483648) subtracts -2147483648 from the
position of an element, which is undefined and selected wrong elements.
---
 libhext/src/NthChildMatch.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index ccfd5d8..1a749a5 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -15,6 +15,7 @@
 #include "hext/NthChildMatch.h"
 
 #include <cassert>
+#include <cstdint>
 
 
 namespace hext {
@@ -47,7 +48,8 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
   if( this->options_ & Option::OfType )
     count_tag = static_cast<HtmlTag>(node->v.element.tag);
 
-  int node_pos = 0;
+  // The difference between a position and an int does not always fit into int.
+  std::int64_t node_pos = 0;
   if( this->options_ & Option::First )
     node_pos = this->count_preceding_siblings(node, count_tag);
   else
@@ -80,7 +82,7 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
     if( node_pos > this->shift_ )
       return false;
 
-    return ( this->shift_ - node_pos ) % ( -1 * this->step_ ) == 0;
+    return ( this->shift_ - node_pos ) % ( std::int64_t{-1} * this->step_ ) == 0;
   }
 }
 
-- 
2.43.0


From 01c8a637ec4d196f329a938d8365ae3ce39539b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:49 +0000
Subject: [PATCH 18/22] fix: --lint ignored positional arguments in other
 spellings of the option

Only the arguments -l and --lint were recognised: with -cl or --lin, htmlext
checked the first file only, took the others for documents, and reported
success. A file named -l (after --) was taken for the option.
---
 htmlext/htmlext/ProgramOptions.cpp | 32 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/htmlext/htmlext/ProgramOptions.cpp b/htmlext/htmlext/ProgramOptions.cpp
index db6ac3e..7e1aae7 100644
--- a/htmlext/htmlext/ProgramOptions.cpp
+++ b/htmlext/htmlext/ProgramOptions.cpp
@@ -69,22 +69,26 @@ void ProgramOptions::store_and_validate_or_throw(int argc, const char * argv[])
   po::positional_options_description pos_opt;
   cli_parser.options(this->desc_);
 
-  // If --lint was given, then do not add positional options to avoid
-  // confusion. For example, the following would only parse first.hext,
-  // but not second.hext because it is interpreted as the positional
-  // option <html-file>:
-  // ./htmlext --lint first.hext second.hext
-  const auto end = argv + argc;
-  if( std::find(argv, end, std::string("-l")) == end &&
-      std::find(argv, end, std::string("--lint")) == end )
-  {
-    pos_opt.add("hext", 1);
-    pos_opt.add("html", -1);
-  }
-  // Without any positional options every positional argument is an error.
+  pos_opt.add("hext", 1);
+  pos_opt.add("html", -1);
   cli_parser.positional(pos_opt);
 
-  po::store(cli_parser.run(), this->vm_);
+  const auto parsed = cli_parser.run();
+
+  // If --lint was given (in any spelling), then do not accept positional
+  // options to avoid confusion. For example, the following would only parse
+  // first.hext, but not second.hext because it is interpreted as the positional
+  // option <html-file>:
+  // ./htmlext --lint first.hext second.hext
+  const auto is_lint =
+    [](const po::option& opt){ return opt.string_key == "lint"; };
+  const auto is_positional =
+    [](const po::option& opt){ return opt.position_key != -1; };
+  if( std::any_of(parsed.options.cbegin(), parsed.options.cend(), is_lint) &&
+      std::any_of(parsed.options.cbegin(), parsed.options.cend(), is_positional) )
+    throw po::too_many_positional_options_error();
+
+  po::store(parsed, this->vm_);
   po::notify(this->vm_);
 
   if( this->contains("help") || this->contains("version") )
-- 
2.43.0


From 99c9ca4713057e97f0c880c9935d4e1545a7c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 19/22] fix: --max-searches accepted negative numbers and
 wrapped them around

--max-searches=-18446744073709551615 was a limit of one search, and
--max-searches=-1 one of 18446744073709551615.
---
 htmlext/htmlext/ProgramOptions.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/htmlext/htmlext/ProgramOptions.cpp b/htmlext/htmlext/ProgramOptions.cpp
index 7e1aae7..7d5511c 100644
--- a/htmlext/htmlext/ProgramOptions.cpp
+++ b/htmlext/htmlext/ProgramOptions.cpp
@@ -88,6 +88,13 @@ void ProgramOptions::store_and_validate_or_throw(int argc, const char * argv[])
       std::any_of(parsed.options.cbegin(), parsed.options.cend(), is_positional) )
     throw po::too_many_positional_options_error();
 
+  // The conversion to an unsigned type accepts negative numbers, and wraps them
+  // around.
+  for(const auto& opt : parsed.options)
+    if( opt.string_key == "max-searches" && !opt.value.empty() &&
+        opt.value.front().find('-') != std::string::npos )
+      throw po::invalid_option_value(opt.value.front());
+
   po::store(parsed, this->vm_);
   po::notify(this->vm_);
 
-- 
2.43.0


From 25313564de6b7735b1fc7944d7b8244d8e52aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 20/22] fix: @inner-html wrote backslashes into attribute
 values

A double quote inside of a value is written as a character reference, and
a backslash as is: HTML has no backslash escapes, therefore the values
changed when the result was parsed again.
---
 libhext/src/NodeUtil.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 5328b8e..295dda5 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -16,7 +16,6 @@
 
 #include <cassert>
 #include <cstddef>
-#include <iomanip>
 #include <iterator>
 #include <string_view>
 
@@ -162,7 +161,15 @@ void SerializeAttribute(const GumboAttribute& a, std::ostringstream& os)
     }
     os << a.name;
     if( a.value )
-      os << '=' << std::quoted(a.value);
+    {
+      os << "=\"";
+      for(const char * c = a.value; *c; ++c)
+        if( *c == '"' )
+          os << "&quot;";
+        else
+          os << *c;
+      os << '"';
+    }
   }
 }
 
-- 
2.43.0


From d804aae80b003a89f46741e8fc0da43c65084592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 21/22] fix: PHP arguments that are no strings were freed twice

SWIG's conversion converts the argument in place, although it is not
counted as used: arrays and objects, which the caller still holds, were
freed.
---
 libhext/bindings/php/phphext.i | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 2c96cfc..e9cec59 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -18,6 +18,24 @@
 %include "stdint.i"
 %include "std_string.i"
 
+// SWIG's conversion changes the argument in place, which frees arrays and
+// objects that are still used by the caller.
+%typemap(in) std::string {
+  zend_string * str = zval_get_string(&$input);
+  $1.assign(ZSTR_VAL(str), ZSTR_LEN(str));
+  zend_string_release(str);
+  if( EG(exception) )
+    SWIG_fail;
+}
+%typemap(in) const std::string & (std::string temp) {
+  zend_string * str = zval_get_string(&$input);
+  temp.assign(ZSTR_VAL(str), ZSTR_LEN(str));
+  zend_string_release(str);
+  if( EG(exception) )
+    SWIG_fail;
+  $1 = &temp;
+}
+
 // Convert vector of multimaps to an array of arrays
 %typemap(out) std::vector<std::multimap<std::string, std::string>> {
   // Assuming $1 is of type SwigValueWrapper.
-- 
2.43.0


From 51a43dd5b0998eb77eb0fff8b1beb3932b25bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 22/22] fix: extracting with an unconstructed HextRule
 terminated PHP

The constructor of a derived class does not have to call the one of
HextRule, and unserialize() calls none.
---
 libhext/bindings/php/phphext.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index e9cec59..216d987 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -100,6 +100,11 @@
   }
 }
 %exception Rule::extract {
+  // The constructor of a derived class does not have to call HextRule's, and
+  // unserialize() does not call any.
+  if( !arg1 )
+    SWIG_exception(SWIG_ValueError, "HextRule was not constructed");
+
   try
   {
     $action
-- 
2.43.0

