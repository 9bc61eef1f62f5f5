"""All properties: what they say, which rule decides them, and what for the MANIFEST."""

PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, rules, technique, rule, state=(), observe=(),
         floor=1, note="", assumptions=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, state=list(state),
                      mechanism=mechanism, observe=list(observe), rules=rules, technique=technique, rule=rule, floor=floor,
                      note=note, assumptions=list(assumptions))


def na(pid, title, statement, over, qtext, why, files, mechanism, reason):
    assert len(title) <= 80, (pid, len(title))
    NOT_APPLICABLE[pid] = dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, state=[],
                               mechanism=mechanism, observe=[], reason=reason)


C = "containers"
SUM = "interprocedural value-flow summaries (abstract interpretation of MIR with path conditions)"

prop("S01", "A search yields every node its agenda holds and loses no successor",
     "Each step of a search takes the next node from its agenda, puts every successor of that node on the agenda and yields that node; it "
     "ends only when the agenda is empty. The duplicate-free variant silently skips nodes it yielded before, never ends because of one, and "
     "drops only successors it yielded before. Depth-first, breadth-first and best-first searches start with all given initial nodes.",
     ["inputs", "programs"], "every graph, successor function, agenda and sequence of steps",
     "no test of the crate drives a search at all; completeness quantifies over all graphs and successor functions",
     ["search/src/search.rs", "search/src/agenda/mod.rs"], ["Search::next", "unique::Search::next", "dfs/bfs/weighted", "Agenda::extend"],
     [(C, "s01")], SUM, "every return path of next(): end iff pop is none; yielded = popped; successors of it queued without further condition",
     state=[("agenda", "nodes not yet visited"), ("elements", "nodes already yielded")], observe=["iteration over a Search"], floor=15,
     note="Decides the step function on every path; termination on infinite graphs is not claimed.")

prop("S02", "Agendas hand out elements in their documented order",
     "The stack agenda removes the newest element, the queue agenda the oldest, and the weighted agendas an element of greatest weight; peeking "
     "shows what removing would return, and removal returns exactly the element that leaves. Weighted agendas store every element together with its "
     "own weight, and compare elements by weight alone.",
     ["inputs", "histories"], "every sequence of push, pop, peek and bulk insertion, for every element and weight type",
     "the only tests are benchmarks that discard the results",
     ["search/src/agenda/mod.rs", "search/src/agenda/binary_heap.rs", "search/src/agenda/beam_heap.rs", "search/src/agenda/limited_heap.rs",
      "search/src/agenda/weighted.rs"], ["impl Agenda for Vec/VecDeque/BinaryHeap/BeamHeap/LimitedHeap", "WeightedItem ordering"],
     [(C, "s02")], SUM + " and cross-check of the five sibling implementations",
     "push/pop/peek of each agenda use matching ends of the container; stored weight = weight of the element; comparisons read only the weight",
     observe=["Agenda::{push,pop,peek,len}"], floor=35, note="Trusts std's and min_max_heap's heap order.")

prop("S03", "Beam and capacity bounds of the pruning heaps",
     "A beam heap admits an element iff it is empty or the element's priority is at least the beam factor times the best priority held, and answers whether it "
     "did. A capacity-bounded heap stores an element without loss iff it holds fewer elements than its capacity; otherwise it keeps the best ones and hands "
     "back exactly the element of lowest priority it dropped.",
     ["inputs", "histories"], "every sequence of insertions, every factor and capacity",
     "the tests only measure insertion speed", ["search/src/agenda/beam_heap.rs", "search/src/agenda/limited_heap.rs"],
     ["BeamHeap::push", "LimitedHeap::push", "their weighted adapters"], [(C, "s03")], SUM,
     "path conditions of storing / rejecting / evicting are exactly the documented comparisons", observe=["push results"], floor=20)

prop("U01", "A unique heap holds each item at most once and forgets popped items",
     "However it is built or filled, a unique heap holds every item at most once: pushing an item that is held changes nothing and answers false, pushing "
     "one that is not held stores it with its weight and answers true. Popping returns an item with its own weight, after which that item can be pushed "
     "again; size, emptiness and peeking describe the items held.",
     ["inputs", "histories"], "every sequence of push/pop and every construction from a collection",
     "one doc test runs a fixed sequence; construction from a vector is not tested", ["unique-heap/src/lib.rs"],
     ["push", "pop", "FromIterator", "From<Vec>"], [(C, "u01")], SUM,
     "every insertion into the heap is guarded by a successful insertion of the same item into the set of held items; every pop removes it there",
     state=[("heap", "items with weights"), ("current_items", "items held")], floor=12)

prop("V01", "The vector multimap is accessed within bounds and never loses a value",
     "Every access without bounds check is to a list that exists; appending puts the value at the end of the list at the given index and padding never "
     "shrinks the map. Reading yields the list at the given index, only an absent list is reported absent, and conversion to a vector cuts directly "
     "behind the last non-empty list.",
     ["inputs", "histories"], "every index and sequence of operations", "the crate has no tests; out-of-bounds access is undefined behaviour",
     ["vecmultimap/src/lib.rs"], ["pad_to before get_unchecked", "push_to", "Into<Vec<Vec<T>>>"], [(C, "v01")],
     SUM + "; bounds facts from dominating comparisons and resizes",
     "each get_unchecked(i) is dominated by i < len or by a resize beyond i; resizes only under len <= i", floor=15)

prop("R01", "The reversing weight wrapper flips the order and nothing else",
     "Values in the reversing wrapper compare in exactly the opposite order of the wrapped values, under every comparison. All arithmetic (including "
     "the assigning forms and operand order), zero, one, factorisation, printing and parsing act on the wrapped values unchanged.",
     ["inputs"], "all values of every weight type", "no test uses the wrapper; it decides the direction of every best-first search over costs",
     ["src/util/reverse.rs"], ["impl PartialOrd/Ord", "arithmetic impls", "FromStr/Display", "Factorizable"], [(C, "r01")], SUM,
     "return value of each operation is the wrapped operation on the wrapped operands, in order; cmp/partial_cmp swap them", floor=18)

prop("R02", "A weight is split into n equal factors",
     "Splitting a weight into n factors returns n values, each the n-th root of the weight, so that their product is the weight again (no factors for n = 0). "
     "The unit weight is split into n units, and a reversed weight into the reversed factors of the weight it wraps.",
     ["inputs"], "all weights and all numbers of factors", "no test splits a weight; Chomsky–Schützenberger parsing puts one factor on each bracket of a rule",
     ["src/util/factorizable.rs", "src/util/reverse.rs"], ["impl Factorizable for LogDomain<f64>", "impl Factorizable for ()", "impl Factorizable for Reverse"],
     [(C, "r02")], SUM, "returned list is n copies of pow(weight, 1/n): the exponent is normalised to a quotient of polynomials in n and compared with 1/n; "
     "the number of copies is the argument itself", floor=2)

prop("P01", "Partitions are disjoint, complete, and survive reading and writing",
     "Building a partition fails iff two cells share a symbol; otherwise each symbol of each cell is mapped to its own cell, lookup returns that cell, and "
     "listing yields each cell once. A partition is written as its list of cells, and reading overlapping cells is an error rather than an abort.",
     ["inputs"], "all lists of cells and all serialised inputs", "one test with two literal lists; reading is not tested",
     ["src/util/partition.rs"], ["Partition::new", "get_cell", "collapse", "Serialize/Deserialize"], [(C, "p01")], SUM,
     "symbol recorded with the cell it is an element of; rejection iff an insertion found an old entry; reading goes through the checked constructor without panic",
     floor=10)

Y = "symbols"

prop("E01", "Equivalence relations are total, single-valued and faithfully read",
     "A relation maps each element of each class to the label of its own class and every other element to the default label. Building it fails iff two "
     "classes share an element or one is labelled like the default class. Read from text, every line that is not blank is one class: a label "
     "and the list of its elements in brackets, or * for the default, and nothing else; a malformed line, a class or default class given twice, and a missing default "
     "class are errors.",
     ["inputs"], "every family of classes, every element and every text",
     "tests sample a handful of small relations; hash order and duplicates make single runs inconclusive",
     ["src/approximation/equivalence_classes.rs"], ["EquivalenceRelation::{new_safe, project, from, from_str}", "EquivalenceClass::from"],
     [(Y, "e01"), ("reading", "classes")], SUM, "element recorded with the label of the class it is an element of; rejection iff an element was recorded before or the label is the default; "
     "lookup-or-default; no line skipped unless blank", state=[("map", "element to label"), ("default", "label of all other elements")], floor=15)

prop("D01", "Bracket words are recognised exactly as well-nested words",
     "A bracket word is accepted iff every closing bracket closes the most recently opened bracket that is still open and has the same annotation, and no bracket "
     "is left open at the end; every bracket of the word is inspected up to the first mismatch.",
     ["inputs"], "every word over every annotation type", "the only test accepts three words and rejects none",
     ["src/dyck/mod.rs"], ["dyck::recognize"], [(Y, "d01")], SUM,
     "push of the opening annotation, pop at each closing one; rejected iff underflow, different annotation, or rest on the stack", floor=9)

prop("T01", "Gorn trees are maps from addresses to values",
     "Insertion, lookup, removal, splitting, appending, iteration, size and equality of a Gorn tree act on exactly the given address and agree with those of a "
     "map ordered by address; making a tree from pairs keeps each value at its own address, and copying out of references keeps all nodes.",
     ["inputs", "histories"], "every tree and sequence of operations", "only used indirectly by tests of evaluation",
     ["src/util/tree.rs"], ["GornTree methods"], [(Y, "t01")], SUM, "each operation delegates to the same operation of the underlying ordered map with the same arguments", floor=15)

prop("H01", "Equality and hash of rules, configurations and transitions ignore the weight",
     "Two grammar rules, configurations or transitions are equal iff they agree in all their parts except the weight, and equal ones have equal hashes, so that "
     "hash sets and maps neither hold one twice nor lose one.",
     ["inputs"], "all pairs of values of every type parameter", "hash collisions and weights that differ are not sampled by tests",
     ["src/grammars/cfg/mod.rs", "src/grammars/pmcfg/mod.rs", "src/recognisable/configuration.rs", "src/recognisable/transition.rs"],
     ["impl PartialEq / Hash"], [(Y, "h01")], SUM + " (read sets of sibling impls)", "fields compared = all but weight; fields hashed are among the fields compared", floor=12)

prop("C01", "Configurations are ordered by weight first, then by the rest still to be read",
     "Configurations compare by weight; among equal weights the one with the shorter remaining word is greater; then the word and then the storage decide. "
     "Transitions compare by weight, word, instruction. The partial order agrees with the total one, and incomparable parts are passed over.",
     ["inputs"], "all pairs of configurations", "the order steers every agenda, but no test compares two configurations",
     ["src/recognisable/configuration.rs", "src/recognisable/transition.rs"], ["impl Ord / PartialOrd"], [(Y, "c01")],
     SUM + "; decision table enumerated over all outcomes of the component comparisons", "for each combination of component outcomes the result is the first decisive one", floor=2)

G = "grammar"

prop("M01", "Multiple context-free grammars are exactly the PMCFGs they may be made of",
     "A PMCFG is accepted as an MCFG iff no rule uses the same variable twice and there is exactly one initial nonterminal. Conversions between LCFRS, MCFG and "
     "PMCFG keep all rules and the initial nonterminal unchanged.",
     ["inputs"], "every PMCFG", "the only test converts one grammar",
     ["src/grammars/mcfg/mod.rs", "src/grammars/pmcfg/mod.rs", "src/grammars/lcfrs/mod.rs"], ["Mcfg::from_pmcfg", "From<Lcfrs> for Mcfg", "From<Mcfg> for PMCFG"],
     [(G, "m01")], SUM, "rejection iff a variable was in the set of variables of this rule before, or the number of initial nonterminals is not one", floor=8)

prop("L01", "Only well-formed linear rewriting systems are accepted",
     "Building an LCFRS from rules fails iff rules of one nonterminal have different fanouts, the initial nonterminal does not have fanout one, a right-hand side "
     "nonterminal has no rule, or a rule does not use each component of each of its successors exactly once; it does not panic. The normal form test holds iff no "
     "component is empty and each rule has either no terminal or just one symbol.",
     ["inputs"], "every list of rules", "the tests check three small grammars",
     ["src/grammars/lcfrs/mod.rs"], ["Lcfrs::new", "read_fanouts", "check_composition", "in_normal_form"], [(G, "l01")], SUM,
     "the disjuncts of the rejection condition are exactly the listed defects; occurrence lists hold all variables of the rule", floor=12)

prop("G01", "Converting a PMCFG with fanout one to a context-free grammar keeps its rules",
     "Every rule with one component becomes one context-free rule, in order, with the same left-hand side and weight; its right-hand side has, in order, each terminal "
     "and, for each variable, the nonterminal it refers to. Initial nonterminals are kept.",
     ["inputs"], "every PMCFG whose rules have one component each", "there is no test of the conversion of weights and several rules",
     ["src/grammars/cfg/from_pmcfg.rs"], ["From<PMCFG> for CFG"], [(G, "g01")], SUM, "each field of each rule is traced to the same field of the source rule", floor=10)

prop("L02", "Converting an MCFG to an LCFRS deletes exactly the unused components",
     "For an MCFG whose rules have consistent fanouts, the LCFRS has, for each nonterminal with a set of deleted components reachable from the initial nonterminal "
     "(without deletions), each rule of that nonterminal whose successors all have rules: the deleted components are left out, each successor gets the set of its "
     "components that no remaining variable refers to, and variables are renumbered by the deleted components before them. Weight and terminals are kept, and the conversion does not panic.",
     ["inputs"], "every MCFG with consistent fanouts", "the tests convert one small grammar",
     ["src/grammars/lcfrs/conversion.rs"], ["From<Mcfg> for Lcfrs", "composition_deletes", "to_lcfrs_rule"], [(G, "l02")], SUM,
     "each field of each rule has the required form over the source rule and the deletions; the successor relation of the search uses the same deletions", floor=14)

X = "texts"

prop("F01", "Grammars are printed in the form that their reader accepts",
     "A printed PMCFG or LCFRS is the line `initial: [...]` with all its initial nonterminals, quoted and separated by commas, an empty line, and each rule, in order, on "
     "a line of its own. A rule is printed as its quoted left-hand side, an arrow, its right-hand side (for PMCFG rules all components with all their symbols and then all "
     "successors, quoted, in parentheses; for context-free rules all symbols), `#` and its weight. Terminals are printed as T and the quoted name, nonterminals as Nt "
     "and the quoted name, variables as Var and both of their numbers.",
     ["inputs"], "every grammar and rule", "no test prints a grammar; the form of the text depends on the numbers of rules, components, symbols and successors",
     ["src/grammars/pmcfg/mod.rs", "src/grammars/cfg/mod.rs", "src/grammars/lcfrs/mod.rs"],
     ["Display for PMCFG, PMCFGRule, Composition, VarT", "Display for CFGRule, CFGComposition, LetterT", "Display for Lcfrs"],
     [(X, "f01")], "abstraction of text (values of strings and formatters as literal text, shown values, repetitions with separators and alternatives) over MIR summaries",
     "the abstract text of each implementation of Display is exactly the documented form", floor=10)

D = "derivations"

prop("W01", "Evaluating a derivation replaces each variable by the part it refers to",
     "The evaluation of a node of a derivation tree has one component for each component of its composition, in order; it keeps terminals and replaces, in order, each "
     "variable (i, j) by all symbols of the j-th component of the evaluation of its i-th child. Evaluation starts at the root. A derivation is split into the tree of its "
     "compositions and the tree of its left-hand sides with the same addresses. Mapping the nonterminals of a rule maps its left-hand side and all of its successors, and nothing else.",
     ["inputs"], "every derivation tree whose variables refer to existing children and components", "the tests evaluate single small trees",
     ["src/grammars/pmcfg/mod.rs"], ["evaluate", "evaluate_pos", "to_term", "PMCFGRule::map_nonterminals"],
     [(D, "w01")], SUM, "the abstract value of the result has exactly the required form over the composition and the recursive evaluation", floor=12)

prop("N01", "Separating terminals keeps the rest of a derivation tree",
     "Separating terminal rules keeps exactly the rules that consist of one terminal and no other symbol. In any other rule each terminal is replaced by the first component of "
     "a new successor, one per distinct terminal, numbered from the number of the rule's successors on; variables, their order, left-hand side, weight and address stay, and "
     "the child with that number is a rule that yields just this terminal.",
     ["inputs"], "every derivation tree", "the tests transform two small trees",
     ["src/grammars/pmcfg/mod.rs"], ["separate_terminal_rules"],
     [(D, "n01")], SUM + "; finite-state abstraction of flags over the symbols of a rule",
     "each field of each new rule is traced to the old rule; the flag that decides is equivalent, as an automaton over the symbols of a rule, to 'exactly one terminal'", floor=16)

prop("X01", "The NEGRA export shows the derivation",
     "A derivation can be exported iff each of its rules consists of variables only or of one terminal. Its export has one line for each terminal of the derived sentence, in "
     "order, with the terminal (or the next given word), the left-hand side of the rule it occurs in and the number of that rule's parent, and then one line for each other "
     "node with #, its number, its left-hand side and the number of its parent. The root has the number 0; other nodes are numbered from 500, each once. A line has the five "
     "columns word, tag, --, --, parent; the lines stand between #BOS and #EOS with the number of the sentence. A sentence without a parse is exported with all its words below "
     "one node #500 NOPARSE.",
     ["inputs"], "every derivation tree and every sentence", "the tests compare three outputs",
     ["src/grammars/pmcfg/negra.rs"], ["identify_terminals, meets_negra_criteria, to_negra_vector, get_rule_number, to_negra, noparse"],
     [(D, "x01")], SUM + "; finite-state abstraction of flags over the symbols of a rule; abstract text of the strings that are built",
     "each column of each row is traced to the node it is about; the number of a node is the remembered one, 0 or the next one; the text of each line is compared with its form", floor=30)

prop("K01", "Imported treebank grammars say what their files say",
     "Every rparse clause becomes a rule with its left-hand side, successors (in order) and weight, and every disco-dop constituent and word one with its left-hand side, "
     "successors and its weight divided by the sum of the weights of all constituents and words with the same left-hand side. A yield function becomes a composition with one "
     "component for each of its components, in which each entry is the next component, counted over the whole rule, of the successor it names. The rule of a word has one "
     "component with just this word. The initial nonterminal is VROOT1 or ROOT. Without a lexer, each nonterminal that is no left-hand side is its own word, with weight one.",
     ["inputs"], "every list of clauses and every disco-dop grammar", "the tests read two small files",
     ["src/grammars/lcfrs/"], ["RparseClauses::into, From<DiscoDopGrammar> for Lcfrs, with_default_lexer, with_lexer"],
     [("imports", "k01")], SUM,
     "each field of each rule is traced to the clause it comes from; the number of each variable is a count over the entries of the same successor", floor=28)

GRAMMAR = "reading grammars written with combinator macros from the source (parsing expressions in a normal form); " + SUM

prop("Q01", "Grammar texts are read completely and in their documented form",
     "Reading a CFG, PMCFG or LCFRS skips blank lines and lines that start with % (also indented), adds the tokens of each `initial:` declaration, in order, and reads "
     "every other line as one rule; one malformed line fails the whole reading (no panic, nothing dropped). An LCFRS needs exactly one initial nonterminal. A rule is a "
     "left-hand side, an arrow (→, -> or =>), its composition in brackets (Nt and T symbols, or components of `Var i j` and T symbols), for PMCFGs the successors in "
     "parentheses, an optional `# weight` (one, if missing), an optional % comment, and nothing else; commas between elements are optional. A token is a quoted "
     "text (escapes are kept) or one or more characters except blank, \", \\, -, →, comma, ;, ), ], % and #.",
     ["inputs"], "every text", "the tests read some short texts",
     ["src/util/parsing.rs", "src/grammars/cfg/from_str.rs", "src/grammars/pmcfg/from_str.rs", "src/grammars/lcfrs/from_str.rs"],
     ["initial_rule_grammar_from_str, parse_initials, parse_token, parse_vec", "FromStr for CFG, CFGRule, PMCFG, PMCFGRule, Lcfrs"],
     [("reading", "q01")], GRAMMAR,
     "the normal form of each parser is that of the reference grammar; each result and each error of from_str has exactly the listed reasons", floor=30)

prop("Q02", "Treebank grammar files are read completely and in their form",
     "An rparse grammar is read as one clause per line: a number, weight, colon and left-hand side, -->, one or two successors and the yield function as lists of true "
     "(second successor) and false. A disco-dop grammar is read as one constituent per line: left-hand side, one or two successors, yield function, weight; a yield "
     "function is a comma-separated list of strings of at most 64 digits 0 or 1, whose n-th digit is bit n; a weight is a whole number or a fraction of two. A disco-dop lexer "
     "is read as a word and pairs of nonterminal and weight per line. Everything is kept in order; anything else, also behind the last line, fails the reading without a panic.",
     ["inputs"], "every text", "the tests read three short files",
     ["src/grammars/lcfrs/from_rparse.rs", "src/grammars/lcfrs/from_discodop.rs"],
     ["parse_rparse_clauses, parse_rparse_yield", "parse_discodop_constituents, parse_discodop_lexer, parse_yield, parse_pseudocount, from_binary", "FromStr for RparseClauses, DiscoDopGrammar, DiscoLexer"],
     [("reading", "q02")], GRAMMAR,
     "the normal form of each parser is that of the reference grammar; each result and each error of from_str has exactly the listed reasons", floor=25)

prop("B01", "A pushdown is a stack, and instructions replace its top",
     "A pushdown is a stack: push puts an element on top of the unchanged rest; pop, set and peek act on the top element and fail exactly if there is none; lists are read from "
     "the bottom to the top; mapping applies to each element and keeps its place. A replace instruction of a pushdown automaton applies to a stack iff its current value, read "
     "downwards, is the top of the stack; then exactly these symbols are replaced by the new value, whose last symbol is on top, and nothing below is touched. A stack "
     "is at its bottom iff only its lowest symbol is left.",
     ["inputs", "histories"], "every pushdown and every instruction", "no test runs them",
     ["src/util/push_down.rs", "src/automata/push_down_automaton/"], ["Pushdown", "PushDown", "PushDownInstruction::apply"],
     [("storage", "b01")], SUM, "the abstract value of each operation has the required form over the abstract stack before it", floor=24)

prop("B02", "Tree stacks move and write as their instructions say",
     "push writes a symbol to a child position iff that position is free and moves there; push_next uses the first free position; up moves to an existing child, down to the "
     "parent and fails only at the bottom; set changes the symbol at the pointer only. A move keeps every symbol and every subtree that it passes, and the position it came from, "
     "so that going down and up again gives an equal tree stack. An instruction applies iff its condition on the current symbol holds and its move is possible, and then writes "
     "its new symbol where it arrives. all and map visit every symbol; equality compares the symbols, the subtrees and the parents.",
     ["inputs", "histories"], "every tree stack and every instruction", "no test runs them",
     ["src/automata/tree_stack_automaton/"], ["TreeStack", "TreeStackInstruction::apply"],
     [("storage", "b02")], SUM, "the abstract value of each operation has the required form over the abstract tree stack before it", floor=50)

prop("A01", "A recogniser runs the automaton, and nothing but the automaton",
     "Recognition begins with the whole word, the initial storage, weight one and an empty run; there is nothing to explore if a symbol of the word is unknown. The successors of "
     "a configuration are all transitions that are filed under its storage's state or top symbol and apply to it; a transition applies iff the remaining word starts with its word "
     "and its instruction applies to the storage, and then it consumes exactly its word, multiplies its weight and is put on the run. The results are exactly the configurations "
     "with nothing left to read and an accepting storage, translated back. The beam search differs only in the size of its agenda. A transition is "
     "filed under the state or symbol that its instruction needs.",
     ["inputs", "histories"], "every automaton, word and order of exploration", "no test runs a recogniser",
     ["src/recognisable/automaton.rs", "src/recognisable/transition.rs", "src/automata/"], ["recognise, recognise_beam", "Transition::apply", "Automaton for FiniteStateAutomaton, PushDownAutomaton, TreeStackAutomaton"],
     [("automata", "a01")], SUM, "initial items, successors and results have the required form over the automaton's own operations", floor=40)

prop("I01", "Integer forms of automata translate each part by its own integeriser",
     "The integer form of a transition, instruction, stack, tree stack or configuration translates each symbol, at its place and in its order, and keeps numbers of children, "
     "weights and the shape. Terminals use the integeriser for terminals, states and storage symbols the one for states and symbols, and the way back uses the same pair: "
     "listed transitions, the initial storage, results and runs are translated with the integerisers that the automaton was built with.",
     ["inputs"], "every automaton", "no test runs them",
     ["src/automata/", "src/recognisable/transition.rs", "src/util/integerisable.rs"], ["IntegerisableM, IntegerisableMM for instructions, storages and transitions", "list_transitions, initial, item_map"],
     [("automata", "i01")], SUM, "each field of the translated value is the translation of the same field with the right integeriser", floor=40)

prop("A02", "The pushdown automaton of a CFG has the transitions of its grammar",
     "The pushdown automaton of a context-free grammar begins with the initial symbol on the bottom symbol. Its transitions are: for each initial nonterminal, one that replaces the "
     "initial symbol by it; for each rule, one that replaces its left-hand side by its right-hand side, first symbol on top, and has its weight; for each terminal of a rule, one that "
     "reads it and removes it from the stack. All but the rules' have weight one; only the last kind reads anything.",
     ["inputs"], "every context-free grammar", "no test runs it",
     ["src/automata/push_down_automaton/from_cfg.rs"], ["From<CFG> for PushDownAutomaton"],
     [("automata", "a02")], SUM, "every transition in the list has one of the three forms, and each form covers all rules, terminals and initial nonterminals", floor=10)

prop("A03", "The tree-stack automaton of a PMCFG has the transitions of its grammar",
     "The tree-stack automaton of a PMCFG begins with the initial position alone. Its transitions follow each rule r, component j and token in order: they start in front of the "
     "first component of each rule with an initial head and end behind it; before variable x(i,m) of r they read the terminals since the last variable of the same component and go to "
     "child i, for each rule of the i-th successor, in front of its component m (pushing the child with its rule's weight if it was not visited before in r, otherwise moving up to "
     "it from behind the component that was visited last); from behind component m of the child they read all terminals behind its last variable and go down to just behind "
     "the variable. All weights but those of pushed rules are one.",
     ["inputs"], "every PMCFG", "no test builds one",
     ["src/automata/tree_stack_automaton/from_pmcfg.rs"], ["From<PMCFG> for TreeStackAutomaton"],
     [("automata", "a03")], SUM, "every transition in the list has one of the five forms; the buffers of terminals start empty in each component and hold the terminals since the last variable", floor=35)

prop("Y01", "Approximations keep words and weights and remember what they approximate",
     "An approximation covers every transition and every initial storage of the automaton; an approximated transition reads the same word with the same weight and has the approximated "
     "instruction. A coarse transition is translated back to all fine transitions whose approximation it is, whatever weight an automaton gave it; a coarse run is translated "
     "back to all runs that take for each transition one of its originals, in the same order. Relabelling maps each stack symbol in its place and keeps the rest; the "
     "tree-stack approximation of a tree stack is the path of its symbols from the root to the pointer, and it has one replace instruction for each kind of move.",
     ["inputs"], "every automaton and every strategy", "no test runs an approximation",
     ["src/approximation/mod.rs", "src/approximation/relabel.rs", "src/approximation/tts.rs"], ["ApproximationStrategy, ApproximationInstance", "RlbElement", "TTSElement"],
     [("approx", "y01")], SUM, "each field of the approximated value and each entry of the reverse map has the required form", floor=18)

prop("Y02", "Coarse-to-fine recognition loses no parse",
     "Coarse-to-fine recognition reads all parses of the coarse recogniser, one after another; it translates each back, checks every run on the fine automaton and keeps all "
     "that succeed. A parse is given out only if no coarse parse that is still to be read weighs more, and the parses end only when all coarse parses are "
     "used up and all kept parses are given out. It starts with the given word on both automata.",
     ["inputs", "histories"], "every pair of recognisers and every word", "no test runs it",
     ["src/recognisable/coarse_to_fine.rs"], ["CoarseToFineRecogniser::recognise", "CoarseToFineIter::next_input, peek_input, next"],
     [("approx", "y02")], SUM, "the abstract state after each step contains every coarse parse and every successful run", floor=9)

J = "csparsing"

prop("J01", "The parse chart keeps each span and state apart and returns what was stored",
     "In the chart of Chomsky–Schützenberger parsing each span of the word has a cell of its own, and each pair of span and state a weight of its own. A constituent "
     "is stored with its state and weight, after those of its span, exactly if the span holds fewer than the beam allows; its weight is then found for this span and state and "
     "for no other, and listing a span yields exactly its stored constituents. A new chart is empty, large enough, and refuses a beam its counters cannot count to.",
     ["inputs", "histories"], "every word length, number of states, beam and sequence of insertions", "no test looks at the chart",
     ["src/grammars/lcfrs/csparsing/automaton/chart.rs"], ["index, index_with_state", "DenseChart::new", "add_entry", "get_weight", "iterate_nont"], [(J, "j01")], SUM,
     "places that are written and read, normalised to polynomials over span, length, states and beam, agree; the place of a span has no collision", floor=8)

prop("J02", "Derivations are read off bracket words faithfully or refused",
     "The derivation of a bracket word has, at each position, the rule of the component brackets that open there; the position is the list of successor numbers of the variable "
     "brackets that are open. A word is refused iff two different rules open at one position.",
     ["inputs"], "every bracket word", "two words of one grammar with one component per rule",
     ["src/grammars/lcfrs/csparsing/mod.rs"], ["CSRepresentation::toderiv"], [(J, "j02")], SUM,
     "loop summary: exactly variable brackets change the position, exactly opening component brackets record a rule, each path to None has two different rules at one position", floor=5)

prop("J03", "The parsing automaton stores each binarised rule alike in all its indices",
     "For each component of each rule the automaton of Chomsky–Schützenberger parsing has one terminal rule, one chain rule, or a left-branching sequence of binary rules over all its "
     "variables in their order. Each of these is stored once bottom-up and once top-down with the same states, weight and number, and under that number with its brackets: the component's "
     "bracket exactly for the component's state, a variable's bracket exactly for the variable's state. The factors of the rule's weight occur once each. Intermediate states "
     "are shared by no two rules, components or places.",
     ["inputs"], "every grammar in normal form", "one test with two rules, through parsing",
     ["src/grammars/lcfrs/csparsing/automaton/mod.rs"], ["Automaton::from_grammar"], [(J, "j03")], SUM,
     "entries stored under one path condition and one number are compared field by field: twin entries, states against brackets, factor of the component, last variable against the component's state", floor=12)

prop("J04", "The rule filter of the parser lets through every rule that a parse may use",
     "The filter that `RuleMaskBuilder::build` computes for a word lets a rule's binarised parts through as soon as its left-hand side is reached from the initial nonterminal through such rules and all its successors are "
     "productive, that is, derive something by rules whose terminals occur in the word; nothing else holds a rule back. The numbers it uses are those of the parsing automaton: a component of n symbols has "
     "max(n-1, 1) numbers, in the order of rules and components. (For nonterminals with at least one component.)",
     ["inputs"], "every grammar in normal form and every word", "one test with one grammar",
     ["src/grammars/lcfrs/csparsing/automaton/rulemask.rs"], ["RuleMaskBuilder::new", "RuleMaskBuilder::build"], [(J, "j04")], SUM,
     "numbers as functions of the component's length; every condition under which a bit is set, a successor visited or a nonterminal taken as productive must be one of the admitted ones", floor=8)

prop("J05", "The parse chart is filled with the constituents that the rules allow",
     "`Automaton::fill_chart` goes through all spans of the word, the shorter ones first. What it offers for a span is built from a terminal rule for the word's symbol there, from a binary rule over two constituents that are "
     "in the chart, adjacent, and together make up the span, parted anywhere within it, or from a chain rule over a constituent just taken for the span. Its weight is the product of the rule's and of those constituents' weights. "
     "Nothing is left out when it is offered but for the rule filter's answer about that very rule or the outside estimate of that very state and span; what is taken is added with its own state and weight.",
     ["inputs"], "every grammar in normal form, word and beam", "tests parse three words with one grammar",
     ["src/grammars/lcfrs/csparsing/automaton/mod.rs"], ["Automaton::fill_chart"], [(J, "j05")], SUM,
     "span ends as polynomials; weights as multisets of factors; every condition on an offered constituent must be about its own rule, state and span", floor=4)

prop("J06", "The derivations enumerated for a span are those of chart and word",
     "What `ChartIterator` lists for a span and state are: the binary rules for the state, parted anywhere within the span, whose two constituents are in the chart; the chain rules for it whose constituent is in the chart; and, for "
     "spans one word wide, its terminal rules for the word's terminal there. Only rules that pass the filter are used. The rule, states and weight noted are the rule's own, and the weight is the product of the rule's and of the constituents' "
     "weights. A derivation that may follow one has exactly one of its indices raised by one, and weighs the product of the rule's weight and of those of the derivations it notes. The parser enumerates derivations of the whole word from the "
     "initial state, starting with the first, over that word's chart and terminals.",
     ["inputs"], "every grammar in normal form, word and chart", "tests parse three words with one grammar, in which a state has one terminal",
     ["src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs", "src/grammars/lcfrs/csparsing/automaton/kbest/backtrace.rs", "src/grammars/lcfrs/csparsing/automaton/mod.rs"],
     ["ChartIterator::backtraces, weight, kth, next", "backtrace::Iter::next", "Automaton::generate"], [(J, "j06")], SUM,
     "every backtrace pushed is compared with the rule it comes from, its weight as a multiset of factors, and its condition with the filter and the word's own rules", floor=4)

na("Z01", "Conversions and recognisers accept the language of their grammar",
   "A word is recognised by the automaton of a grammar iff the grammar derives it, with the same weights; the CFG of an LCFRS and the LCFRS of an MCFG generate the same words.",
   ["inputs"], "every grammar and every word", "no finite sample of words settles equality of languages",
   ["src/automata/", "src/grammars/"], ["From<PMCFG>, From<CFG>, Mcfg::into"],
   "Equality of two languages is a theorem about the construction, by induction over derivations and runs; no static argument over the source decides it. That the source builds exactly the transitions and rules of the constructions is decided under A02, A03, G01 and L02.")
na("Z02", "Parses come in the order of their weights",
   "The parses that a recogniser yields are ordered by weight, and a beam only drops items that are worse than all that it keeps.",
   ["inputs", "histories"], "every grammar, word and beam", "the order depends on run-time weights",
   ["src/recognisable/", "search/src/"], ["recognise, recognise_beam"],
   "The order holds only if no transition raises the weight of a run, which is a fact about the given weights and not about the source; the local parts (best first, exact comparisons of the beam) are decided under S01, S02 and S03.")
na("Z03", "Recognition ends",
   "Recognition of a word ends after finitely many steps.",
   ["inputs"], "every grammar and every word", "non-termination cannot be observed by a test",
   ["src/recognisable/", "src/grammars/lcfrs/csparsing/"], ["recognise"],
   "It does not hold for grammars with cycles of empty or unary rules, and whether a given grammar has one is a run-time fact.")
na("Z04", "Weights are computed to full numerical precision",
   "Products and normalised weights equal the exact real numbers up to rounding.",
   ["inputs"], "every grammar", "rounding depends on the magnitudes",
   ["src/grammars/lcfrs/from_discodop.rs", "src/recognisable/"], ["LogDomain arithmetic"],
   "Bounds on rounding errors quantify over run-time magnitudes of an external floating-point type. Which weights are multiplied and divided is decided under K01 and A01.")
