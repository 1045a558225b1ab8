_T = "Trusted: TLC, Gumbo's HTML parsing (the checks start from the tree it returns), the driver's recording. "
_S = "Bounded: scenarios are sampled from a seeded generator; exhaustive parts are bounded as said in DESIGN.md. "
for p in ["C%02d" % i for i in range(1, 21)]:
    TECH[p] = MODEL
NOTE = {
 "C01": "The matching specification is model-checked against a declarative definition of groups on all small sibling lists, all 70,080 small behaviours are replayed into the code, and larger random ones are judged by TLC. ",
 "C02": "As C01, with optional rules in sibling, child and nested positions. ",
 "C03": "As C01, with greedy rules; the declarative laws for greedy rules are invariants of the model. ",
 "C04": "Tree search is model-checked (coverage, order, once per sibling list) on all small trees; 238,455 small behaviours are replayed; larger random ones are judged by TLC. ",
 "C05": "Every trait is replayed on every small sibling list (TLC enumerates both with the arithmetic specification's verdict). Traits are specified arithmetically; recorded extractions on random sibling lists are judged by TLC. ",
 "C06": "Every operator is replayed with every short literal on every short value. Predicates are specified on byte strings; recorded extractions and direct calls are judged by TLC. ",
 "C07": "The matcher is model-checked against a denotational definition (MCRegex), all small expressions are replayed on all short values. A backtracking semantics of regular expressions is specified for a sublanguage; expressions outside of it are not judged. ",
 "C08": "All chains of up to two pipes are replayed on all short values. Pipes are specified on byte strings; recorded extractions and direct calls are judged by TLC. ",
 "C09": "All small capture behaviours of the tree model are replayed with colliding names; random ones are judged by TLC. ",
 "C10": "All small trees are replayed. @text is specified as a fold over the tree, with laws checked by TLC; recorded calls on random documents are judged by TLC. ",
 "C11": "All small trees are replayed. @inner-html and @strip-tags are specified as folds over the tree; recorded calls on random documents are judged by TLC. ",
 "C12": "The language is specified as a machine whose reachable states are enumerated by TLC (all of them completable); every state x byte is replayed into the parser (1.5 million texts), random texts are judged by TLC. ",
 "C13": "All pairs of constructs are replayed in all layouts against an independent denotation. Parsing is specified as construction of rules by the machine; shapes and extractions of random templates in several layouts are judged by TLC. ",
 "C14": "Messages are specified byte for byte (except for the regex library's own text), compared at every state of the parser machine and on random invalid templates. ",
 "C15": "Searches are counted in the specification; limits around the exact count of 238,455 small behaviours are replayed, random ones are judged by TLC. ",
 "C16": "Concurrent extractions are model-checked in small steps (MCExtraction). Histories with repeats, failures and destruction, and threads sharing rules and documents, are judged by TLC against the stateless specification. ",
 "C17": "All histories of three commands are enumerated by TLC and replayed. Rules, parts and documents are values in the specification; random histories of copies, moves and edits are judged by TLC. ",
 "C18": "The reader is model-checked against writers (MCJson). htmlext is specified as a machine over its arguments and the printed text as a JSON reader machine; runs of the real program with random templates, documents and options (also on a terminal) are judged by TLC. ",
 "C19": "All command lines up to three arguments over a directory of good, bad, missing and unreadable files are enumerated and checked by TLC (125,425 states) and run for real; random ones with more inputs, and inputs that are easily read only in part or come slowly, and outputs that cannot be written, are judged by TLC. ",
 "C20": "Histories of constructions, extractions, failures and destructions in Python, Ruby and PHP are judged by TLC; Node.js is not covered (its binding cannot be built offline). ",
}
NOTE = {k: v + _S + _T for k, v in NOTE.items()}
