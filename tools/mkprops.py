#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)
L = "libhext/src/"; I = "libhext/include/hext/"

prop("C01", "A sequence of sibling rules matches an ordered run of siblings, all or nothing",
 "A result group for a sequence of sibling rules contains, for every mandatory rule, the first sibling element after the previous mandatory rule's element that satisfies the rule (siblings in between are skipped), so the rules of a group match in document order; if any mandatory rule of the sequence finds no element, no part of that group is reported. After a complete group, matching resumes behind it, so the groups of one sibling list occupy disjoint, ascending stretches of it.",
 ["inputs", "programs"], "every template (rule sequences of any length and modifiers) and every HTML document",
 "97 golden files and a handful of gtest cases fix single template/document pairs; partial groups, resumption points and backtracking only show for particular sibling arrangements.",
 [L+"RuleMatching.cpp", L+"Rule.cpp"],
 [("MatchRuleGroup/MatchRuleOnce", L+"RuleMatching.cpp"), ("SaveMatchingNodesRecursive loop", L+"RuleMatching.cpp")],
 ["Rule::extract result groups"])
prop("C02", "Optional rules add captures but never decide whether a group matches",
 "A rule marked optional is matched in order, at most once (unless greedy), only among the siblings between its neighbouring mandatory matches (or up to where the next group starts), and its values join the group; if it finds nothing it is skipped and the group is reported regardless. Adding or removing an optional non-greedy rule never changes which elements the mandatory non-greedy rules of the template match. An element whose child and nested rules are all optional matches whether or not it has children.",
 ["inputs", "programs"], "every placement of optional rules (leading, between, trailing, all-optional, in child and nested rules) and every document",
 "The golden files cover about ten placements over one document each; the interaction of the optional window with repeated mandatory matches depends on sibling arrangement.",
 [L+"RuleMatching.cpp"], [("optional branch of MatchRuleGroup, MatchRange, FindMandatoryRule", L+"RuleMatching.cpp")],
 ["Rule::extract result groups"])
prop("C03", "Greedy rules collect every repetition into one group",
 "Once a greedy rule has matched, every further sibling that satisfies it, up to the next mandatory rule's match, or the start of the next group, or the end of the siblings, is added to the same group, skipping siblings that do not satisfy it. A greedy rule that only serves as the end marker of preceding optional or greedy rules is matched once per group. A greedy mandatory rule needs at least one match.",
 ["inputs", "programs"], "every placement of greedy rules and every document",
 "Three golden files; none varies the siblings in between or the rule behind the greedy one.",
 [L+"RuleMatching.cpp"], [("rule_is_greedy_and_has_matched, MatchRange", L+"RuleMatching.cpp")],
 ["Rule::extract result groups"])
prop("C04", "Children are direct, nested rules search descendants, all lists are searched",
 "A child rule matches only among the direct children of its parent rule's element, repeatedly, and a mandatory child sequence must match at least once; a rule nested in braces is searched among all descendants, and a mandatory one must be found. The template is applied to every sibling list of the document exactly once, so every complete match at any depth is reported; groups are ordered by sibling list, a list before the lists below it, subtrees in document order. All captures below a matched element join the group of that element.",
 ["inputs", "programs"], "every rule tree (children, nested rules, their siblings, to any depth) and every document tree",
 "Golden files use shallow trees and sort the output before comparing, so result order is never tested.",
 [L+"RuleMatching.cpp", L+"Rule.cpp"],
 [("SaveMatchingNodesRecursive, RuleMatchesNodeRecursive", L+"RuleMatching.cpp")], ["Rule::extract result groups and their order"])
prop("C05", "Positional and structural traits select exactly what their CSS counterparts do",
 "nth-child, nth-last-child, nth-of-type, nth-last-of-type with any step and shift (also even, odd, negative steps), first/last-child, first/last-of-type, only-child, only-of-type, empty (no child elements), child-count and attribute-count hold for exactly the elements whose one-based position among sibling elements, counted from the right end and, for of-type, among equal tag types only, satisfies the formula; text and comments never count and never match. :not(...) holds exactly if none of the traits in it holds. All custom (non-standard) element names count as one type.",
 ["inputs"], "every element position, sibling arrangement, and step/shift pair in the range of int where position minus shift is representable",
 "Tests check a few positions over one list; step, shift, sign, text nodes and type interact.",
 [L+"NthChildMatch.cpp", L+"OnlyChildMatch.cpp", L+"ChildCountMatch.cpp", L+"AttributeCountMatch.cpp", L+"NegateMatch.cpp"],
 [("NthChildMatch::matches and sibling counting", L+"NthChildMatch.cpp"), ("trait actions", L+"Parser.cpp")],
 ["Rule::extract", "Match::matches"])
prop("C06", "Tag names and attribute/value predicates decide matches as written",
 "A rule matches elements of its tag name, ignoring letter case, for standard and custom names; * matches any node including text and comments. Each attribute or builtin predicate must hold: presence, whole-word containment (= , words separated by spaces only), equality (==), prefix (^=), substring (*=), suffix ($=), and with a trailing ! exactly the complement, where a missing attribute fails every plain test and passes every negated one; attribute names ignore letter case. Literals are compared byte for byte, case-sensitively, exactly as written between the quotes.",
 ["inputs", "programs"], "every predicate list, attribute list and byte string",
 "Each test class is tried on a dozen strings; overlaps, repeated words, empty values and boundary positions are not.",
 [L+"Rule.cpp", L+"AttributeMatch.cpp", L+"FunctionValueMatch.cpp", L+"NegateTest.cpp", L+"ContainsWordsTest.cpp", L+"EqualsTest.cpp", L+"BeginsWithTest.cpp", L+"ContainsTest.cpp", L+"EndsWithTest.cpp", L+"StringUtil.cpp"],
 [("Rule::matches", L+"Rule.cpp"), ("ValueTest::test", L+"*Test.cpp"), ("ContainsWord", L+"StringUtil.cpp")],
 ["Rule::extract", "ValueTest::test", "Match::matches"])
prop("C07", "Every regular expression is applied as written, with its own flags only",
 "=~ holds if the expression is found anywhere in the value (a missing attribute fails it), type-matches if it is found in the element's tag name (custom names in their original case), filter yields the first parenthesised group of the first match or the whole match if there are no parentheses, or the empty string without a match, and replace substitutes every match, expanding back-references. Matching is case-sensitive unless that very expression carries the flag i: a flag on one expression never affects another expression of the template.",
 ["inputs", "programs"], "every template using several expressions, over the modelled sublanguage of regular expressions, and every subject without NUL bytes",
 "Tests use a single expression each; interference between expressions and group selection across subjects is untested.",
 [L+"RegexTest.cpp", L+"RegexPipe.cpp", L+"RegexReplacePipe.cpp", L+"TypeRegexMatch.cpp", L+"Parser.cpp", "libhext/ragel/hext-machine.rl", L+"PatternValues.cpp"],
 [("regex action", "libhext/ragel/hext-machine.rl"), ("PatternValues::regex_flag", L+"PatternValues.cpp")], ["Rule::extract", "StringPipe::pipe"])
prop("C08", "Pipes transform the captured value left to right, each exactly as named",
 "A captured value is the source value passed through all pipes of its capture in the order written: trim (strips exactly the given characters, by default spaces, at both ends only), collapsews (trims and reduces each run of HTML whitespace to one space), tolower/toupper (ASCII letters only), prepend, append, filter, replace. Without pipes the value is the source value, byte for byte; a pipe never affects another capture.",
 ["inputs", "programs"], "every pipe chain and every byte string",
 "Each pipe is tested alone on few strings; order, chain length and degenerate values are not.",
 [L+"StringPipe.cpp", L+"TrimPipe.cpp", L+"CollapseWsPipe.cpp", L+"CasePipe.cpp", L+"PrependPipe.cpp", L+"AppendPipe.cpp", L+"StringUtil.cpp", L+"PatternValues.h"],
 [("StringPipe::pipe/append", L+"StringPipe.cpp"), ("add_pipe", L+"PatternValues.h")], ["Rule::extract", "StringPipe::pipe"])
prop("C09", "Each match contributes exactly the captures it defines, and all of them",
 "A group's values are exactly one name/value pair for each capture of each matched rule/element pair: builtin captures always yield a value, attribute captures yield one if the attribute is present (a capture not marked ? also requires the attribute for the element to match). Pairs with equal names are all kept, a matched element's own captures following those of the rules below it; pairs of different names are sorted by name; a group without any pair is dropped.",
 ["inputs", "programs"], "every assignment of captures to rules, every document",
 "Golden files sort and compare a few groups; ordering of equal names and optional attribute captures across rules is untested.",
 [L+"Rule.cpp", L+"AttributeCapture.cpp", L+"FunctionCapture.cpp", L+"RuleMatching.cpp"],
 [("Rule::capture, Rule::extract", L+"Rule.cpp")], ["Rule::extract"])
prop("C10", "@text is the visible text with whitespace normalised",
 "@text of an element is the concatenation of all text below it in document order, in which every block-level (non-inline) element is separated from its surroundings by whitespace and inline elements are not, with every run of HTML whitespace collapsed to a single space and none at the ends. Comments, markup and template contents contribute nothing; no other character is added, lost or reordered.",
 ["inputs"], "every document subtree",
 "Unit tests sample a few fragments; the inline/block set, nesting and whitespace placements combine freely.",
 [L+"NodeUtil.cpp", L+"StringUtil.cpp", L+"Builtins.cpp"], [("StripTags(smart_wrap), TagWrapsText, TrimAndCollapseWs", L+"NodeUtil.cpp")], ["Rule::extract with @text", "TextBuiltin"])
prop("C11", "@inner-html and @strip-tags reproduce an element's content",
 "@strip-tags is the exact concatenation, unnormalised, of all text below the element; @inner-html is the serialisation of its children in order: each element as its tag with all attributes in order and in double quotes (a double quote in a value is written as &quot;, all else as is), then its content, then its end tag (void elements self-closed and without content), comments in comment delimiters, text as is. Re-parsing @inner-html yields the same child tree whenever text contains no < or & and attribute values no &.",
 ["inputs"], "every document subtree; the re-parse clause for content without & < > quotes and backslashes",
 "Five golden files; void elements, namespaced attributes, custom elements and comments in combination are untested.",
 [L+"NodeUtil.cpp", L+"Builtins.cpp"], [("SerializeNode family, StripTags", L+"NodeUtil.cpp")], ["Rule::extract with @inner-html/@strip-tags"])
prop("C12", "A template is accepted exactly if it is in the language, else SyntaxError",
 "Parsing accepts exactly the strings of the template language (balanced rules, known traits, builtins, operators and pipes, quoted literals, valid regular expressions, numbers in range, non-empty properly placed nested braces) and reports every other string by throwing SyntaxError, never by another exception, a crash, or by accepting it.",
 ["programs", "inputs"], "every byte string given as template",
 "Tests list some dozens of good and bad templates; the language is infinite and mixed-up constructs are where parsers fail.",
 [L+"Parser.cpp", "libhext/ragel/hext-machine.rl", "libhext/ragel/Parser.cpp.rl", L+"ParseHext.cpp"],
 [("ragel state machine, rule stacks", L+"Parser.cpp")], ["ParseHext", "htmlext --lint"],
 state=[("stacks_", "open rules and finished rules per nesting level", L+"Parser.h")])
prop("C13", "A parsed template means what its text says, independent of layout",
 "The rule tree obtained from a template has exactly the rules, nesting, siblings, modifiers, traits, predicates, captures and pipes that its text spells out, in that order; whitespace and comments between tokens, self-closing versus explicit closing tags, and single versus double quotes make no difference. No construct influences the meaning of another construct.",
 ["programs"], "every valid template",
 "Tests pin individual constructs, each alone; interference between constructs is invisible to them.",
 [L+"Parser.cpp", "libhext/ragel/hext-machine.rl", L+"PatternValues.cpp"], [("push_rule/pop_rule/push_nested/pop_nested, PatternValues::reset", L+"Parser.cpp")],
 ["ParseHext then Rule::child/next/nested/get_tag and Rule::extract"])
prop("C14", "Syntax errors name the offending place and cause",
 "The message of a SyntaxError gives the one-based line and character of the first character at which the input stops being extendable to a valid template (or says end of input), names that character or the offending/expected closing tag, and shows the numbered source lines up to that point with a marker under the offending text (no marker if the input has non-ASCII bytes); a message ends at the first NUL byte of the source it shows.",
 ["programs", "inputs"], "every rejected template",
 "No test looks at positions or messages beyond two StringUtil helpers.",
 [L+"Parser.cpp", "libhext/ragel/Parser.cpp.rl", L+"StringUtil.cpp"], [("throw_* and print_error_location, CharPosition, PrintNumberedLines", L+"Parser.cpp")],
 ["SyntaxError::what"])
prop("C15", "max_searches bounds the search and never changes a completed result",
 "With a limit N > 0, extraction raises MaxSearchError exactly if the search would begin N or more sibling-list searches, counting those made for nested rules and counting repeated ones again; otherwise the result is identical to the unlimited one. 0 means no limit, the limit applies to each extraction separately, and an aborted extraction leaves rule and document usable.",
 ["inputs", "programs", "histories"], "every template, document and limit, after any history of earlier extractions",
 "One gtest and two CLI lines try limits 1 and 7 on one document without nested rules.",
 [L+"RuleMatching.cpp", L+"Rule.cpp", I+"MaxSearchError.h", "htmlext/main.cpp"], [("max_searches counter passed by reference", L+"RuleMatching.cpp")],
 ["Rule::extract"], state=[("max_searches", "remaining budget of one extraction", L+"RuleMatching.cpp")])
prop("C16", "Extraction is a pure function, also when shared between threads",
 "The outcome of an extraction depends only on the rule, the document and the limit: it is the same whenever it is repeated, whatever other parses, extractions, failures or destructions happened in between, and whichever threads use the same rule and document at the same time. Extraction changes neither rule nor document.",
 ["histories", "schedules"], "every interleaving of operations on shared rules and documents",
 "Tests run one extraction per process, single-threaded.",
 [L+"Rule.cpp", L+"RuleMatching.cpp", L+"Html.cpp", L+"Parser.cpp"], [("const extract, no shared mutable state", L+"Rule.cpp")], ["Rule::extract in histories and threads"])
prop("C17", "Rules and documents are values: copies are complete and independent",
 "A rule built through the API behaves like the parsed template of the same structure. Copying or assigning a rule yields one with equal behaviour, and later changes to (or destruction of) either never affect the other; moving transfers the behaviour. The same holds for copying and assigning matches, captures, value tests and pipes, and for moving documents.",
 ["histories"], "every history of construction, append, set, copy, assign, move, destroy and extract operations",
 "A few gtest cases copy once; aliasing and incomplete copies show only after later mutation or destruction.",
 [L+"Rule.cpp", I+"Cloneable.h", L+"StringPipe.cpp", L+"AttributeCapture.cpp", L+"FunctionCapture.cpp", L+"AttributeMatch.cpp", L+"FunctionValueMatch.cpp", L+"NegateMatch.cpp", L+"NegateTest.cpp", I+"Html.h"],
 [("copy constructor, swap, clone", L+"Rule.cpp")], ["Rule API in histories"],
 state=[("first_child_, next_, nested_, matches_, captures_, tag_, flags", "the value of a Rule", I+"Rule.h")])
prop("C18", "htmlext prints exactly the extracted results as JSON, in order",
 "For every template in order (files before strings, each in command-line order) and every document in order, htmlext prints the groups in result order as valid JSON objects that decode to exactly the captured names and values, a name captured several times becoming an array in capture order; one per line in compact mode, the same data indented with --pretty, in one array per template/document pair with --array (nothing if it has no groups); --filter prints exactly the values of that name, one per line, instead.",
 ["inputs", "configurations"], "every option combination, list of templates and documents, and every captured byte string",
 "Eleven bats cases on one value without special characters.",
 ["htmlext/main.cpp", "htmlext/htmlext/Json.cpp", "htmlext/htmlext/ProgramOptions.cpp"], [("PrintJson, main loop, get_json_options", "htmlext/htmlext/Json.cpp")], ["htmlext stdout"])
prop("C19", "htmlext fails loudly, before printing, and never half-understands its inputs",
 "If any given template is invalid, any input is missing or unreadable, or the arguments are wrong, htmlext exits with failure, a message on stderr naming the offending input, and nothing on stdout; an exhausted search limit also exits with failure after the complete results of the preceding pairs. Templates and documents are read whole, byte for byte. --lint succeeds exactly if all templates are valid, and prints nothing. If the output cannot be written, htmlext exits with failure and a message.",
 ["inputs", "configurations", "fault_sequences"], "every combination of good, bad, missing and unreadable inputs at every position, and every option combination",
 "Bats cases check exit codes for single bad inputs; order, output on failure and unreadable files are untested.",
 ["htmlext/main.cpp", "htmlext/htmlext/File.cpp", "htmlext/htmlext/ErrorOutput.cpp", "htmlext/htmlext/ProgramOptions.cpp"],
 [("main phases parse, lint, read, extract", "htmlext/main.cpp"), ("ReadFileOrThrow", "htmlext/htmlext/File.cpp")], ["htmlext exit status, stdout, stderr"])
prop("C20", "The Python, Ruby and PHP bindings return what the library returns",
 "For every template and document, a binding's extract yields one map per group, in order, with every captured name mapped to its value or, if captured more than once, to the list of its values in capture order; strings are unchanged, also those with zero bytes. Invalid templates, exhausted limits and any other failure raise an exception in the host language; the interpreter is never terminated, and the objects remain usable.",
 ["inputs", "histories"], "every template, document and limit passed through a binding, in any order of calls and failures",
 "Blackbox cases run successful extractions only; pytest has one error of each kind.",
 ["libhext/bindings/python/pyhext.i", "libhext/bindings/ruby/rbhext.i", "libhext/bindings/php/phphext.i", "libhext/bindings/wrapper/Rule.cpp", "libhext/bindings/wrapper/Html.cpp"],
 [("out typemaps and %exception blocks", "libhext/bindings/*/*.i")], ["hext module of each language"])
prop("C21", "No memory error or undefined behaviour on any input",
 "No template, document or history of API calls makes the library read or write memory it does not own or execute undefined behaviour.",
 ["inputs", "programs", "histories"], "every input and history",
 "The tests run without sanitizers and sample few inputs.",
 [L+"*.cpp"], [("RAII ownership", I+"Rule.h")], ["process memory"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p)+"\n" for p in P))
