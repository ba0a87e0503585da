V = 'Verus contracts on the functions extracted from the source, plus bounded contract replay'
RN = 'Every function named in the evidence is verified for all inputs against its contract; assumed: std/vstd specifications of str and char, syntex_pos constructors, formatting, and that a text is at most isize::MAX bytes. The replay is bounded and not counted as proved.'
for i in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09'):
    NOTES[i] = (V, RN)
GT = 'Verus contracts on the expression compilers for every grammar, and on the parsers /repo generates for each grammar of a corpus (translation validation), plus bounded comparison with a reference interpreter'
GNOTE = 'Two proofs. For every grammar: each expression compiler of back/compiler is verified against the PEG meaning of its expression, a quoted template being read as the Rust it is (lib/quoted.py), under what the earlier passes hand over (references go back, types fit). For each grammar of the corpus (quick: 27, thorough: 211) the functions /repo generates, extracted on every run, are proved for all inputs. Assumed of the first: the meaning given to a template, names do not run out, a copy equals the original.'
for i in ('C19', 'C20', 'C21', 'C22', 'C24'):
    NOTES[i] = (GT, GNOTE)
MT = 'Verus contracts on the analysis, extracted from the source with the Visitor trait monomorphised, plus bounded comparison with an independent reference'
NOTES['C12'] = (MT, 'Every function of duplicate.rs is verified for all lists of rules and items. The passes are put together under contract too (unit pipeline: middle/mod.rs, analysis/mod.rs, typing/mod.rs). Assumed: crate partial, that emitting a diagnostic reports it, identifiers compare by text, HashMap/HashSet as mathematical maps and sets.')
NOTES['C13'] = (MT, 'Every function of resolve_non_terminal.rs and the walk of visitor.rs is verified for all grammars: every occurrence reached from a rule denotes the rule of its name if there is one, everything else is as it was. The passes are put together under contract too (unit pipeline: middle/mod.rs, analysis/mod.rs, typing/mod.rs). Assumed: syn::Path::get_ident, HashSet as a set.')
NOTES['C14'] = (MT, 'Every function of well_formedness.rs and the walk of visitor.rs is verified for all grammars, and acceptance is proved to imply that every rule halts on every text (by induction over fuel-indexed PEG runs), under the condition in the property that external parsers consume. Not proved: that the analysis itself reaches its fixpoint. The passes are put together under contract too (unit pipeline: middle/mod.rs, analysis/mod.rs, typing/mod.rs).')
NOTES['C16'] = (MT, 'Every function of useless_chaining.rs is verified for all grammars: a warning may only be emitted at an expression for which the suggested replacement is proved to give the same result wherever the expression halts (fuel-indexed PEG runs), and every chain of the documented table is warned about unless it lies inside one that is. The search through rules is proved to come to an end, from what the well-formedness analysis is proved to ensure. The passes are put together under contract too (unit pipeline: middle/mod.rs, analysis/mod.rs, typing/mod.rs).')
NOTES['C17'] = (MT, 'Every function of type_rewriting.rs is verified for all grammars against the typing rules (unary, tuple, recursion); the walks that apply them (surface.rs, depth.rs) are verified for all grammars too. That the arena they start from is a forest is proved of the parser (unit front) and carried through the passes (unit pipeline). Assumed: Vec::contains of recursive paths, derived comparisons with types without content.')
NOTES['C18'] = (MT, 'reduce_sum and syntactic_eq are verified for all lists of branch types: accepted only with a type all branches agree with, refused only when two branches differ or a recursion wraps its own value. The walk that applies them to the branches of a choice (surface.rs) is verified too.')
NOTES['C23'] = ('Verus contracts on the name factory and the scopes of the code generator, plus a bounded check of the generated code', 'Every function that makes a name (NameFactory) and the functions of Context that hand names out are verified: a name just made differs from every name made before in the function, for fewer than 17,576 groups of variables. That the compilers of the operators only touch names from there is an obligation of unit compilers (C19, C20); the bindings of the code generated for random grammars are checked as well, bounded.')
NOTES['C10'] = (V + ', and on the generated matchers of a corpus of grammars', 'Reading a class is verified for all class texts: the intervals are exactly those the notation lists, and malformed texts are refused. The condition the class compiler emits is proved to hold of exactly the characters of the intervals, for every class; the generated functions of each corpus class are proved, too. The replay is bounded.')
NOTES['C11'] = (MT, 'Every function of front/parser.rs is verified for all token sequences: the expressions built are exactly those of the notation (a recursive-descent specification, one function per level of binding), or an error is reported when the text is not in the notation. Assumed: syn as a buffer of tokens with a cursor (what a Rust path, type, item or attribute is, is syn\'s; that a group with tokens left over is refused, too), the identifiers `box`, `=` .. by their text.')
for q in PROPS:
    NA.setdefault(q['id'], 'what compiles is decided by the type and borrow checker of rustc: a contract on the functions of oak could only state it over a formal semantics of those, and none is within reach; known not to hold for some odd grammars (DESIGN.md, Other observed defects)')
