#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, so that the two stay in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))

SS = 'runtime/src/str_stream.rs'
FM = 'runtime/src/file_map_stream.rs'
PST = 'runtime/src/parse_state.rs'
A = 'src/liboak/middle/analysis/'
T = 'src/liboak/middle/typing/'
B = 'src/liboak/back/compiler/'

PROPS = [
 p('C01', 'Reading a stream yields exactly its text, and a failed match consumes nothing',
   'Reading a character stream built from a string or a source file yields the characters of the text one after the other, then nothing, whatever characters the text has. Matching a literal succeeds exactly when the remaining text starts with it, then skips exactly the literal; otherwise it reports failure and leaves the stream where it was. A stream says it has more to read exactly when a character remains, and no operation stops inside a multi-byte character or panics.',
   ['inputs'], 'every text, every position reached by reading or matching, every literal',
   'The unit tests read one ASCII text and try five ASCII prefixes; multi-byte text, prefixes that end inside a character and positions near the end are not sampled.',
   [SS, FM], [('next / current_char', SS), ('consume_prefix', SS), ('has_next', SS), ('delegation to the string stream', FM)],
   [('bytes_offset', 'byte offset of the position, always a character boundary of the text', SS)], ['Iterator::next', 'ConsumePrefix::consume_prefix', 'HasNext::has_next']),
 p('C02', 'Streams over the same text compare by position',
   'Two streams over the same text are equal exactly when they stand at the same position, and ordered as their positions are; equality, partial and total comparison agree with each other.',
   ['inputs'], 'every text and every pair of positions in it',
   'The tests compare a handful of neighbouring positions of one text.',
   [SS, FM], [('eq, partial_cmp, cmp', SS), ('delegated comparison', FM)], [('bytes_offset', 'the position', SS)], ['PartialEq', 'PartialOrd', 'Ord']),
 p('C03', 'Locations are the line and column of the position in the text',
   'The location of a stream is `line:column`, where the line is one more than the number of newlines before the position and the column is one more than the number of bytes since the last of them (or since the start of the text). It holds for every line-ending style and character width.',
   ['inputs'], 'every text and every position in it, end of text included',
   'No test checks a location on text with carriage returns, empty lines or multi-byte characters.',
   [SS, FM], [('line_column', SS), ('location', SS)], [('bytes_offset', 'the position', SS)], ['Location::location']),
 p('C04', 'Code snippets are the longest whole-character prefix that fits',
   'The snippet of a stream for a size hint is the longest prefix of the remaining text made of whole characters and not exceeding the hint in bytes, or `<end-of-file>` when nothing remains. Producing it never panics.',
   ['inputs'], 'every text, position and size hint',
   'Snippets are only ever taken of short ASCII texts in the tests.',
   [SS, FM], [('code_snippet', SS)], [], ['CodeSnippet::code_snippet']),
 p('C05', 'Error information is the farthest failed attempt and everything expected there',
   'After any history of attempts and backtracking, the error information of a parse state is the farthest position at which an attempt failed (the start if none did) and the set of the items that were expected at exactly that position. Attempts that failed earlier in the input leave no trace, and successes, restorations and data manipulation do not lose or add any.',
   ['histories'], 'every sequence of reads, failed attempts, marks, restorations, successes and failures',
   'Tests look at the final message of a few parses; the invariant is over all histories of one state.',
   [PST], [('error', PST), ('success, failure, restore, extract_data keep it', PST)],
   [('farthest_read', 'farthest failed attempt', PST), ('expected', 'items expected there', PST)], ['ParseState::error', 'ParseState::into_result']),
 p('C06', 'Parse state transitions change what they name and nothing else',
   'Turning a parse state into a success, a failure or a restored state sets its status, position and data as named and keeps everything else; a restored state stands at its mark, is successful and holds no data; extracted data is the data that was stored. Reading through a state reads its stream and touches nothing else.',
   ['histories'], 'every reachable state and every operation, and their sequences',
   'The transitions are only exercised through a few generated parsers.',
   [PST], [('success, failure, mark, restore, restore_from_failure, extract_data, unwrap_data, discard_data', PST)],
   [('failed/current/data', 'status, position and value of a state', PST)], ['ParseState']),
 p('C07', 'A result is full, partial or a failure according to data and remaining input',
   'Turning a terminal parse state into a result gives: a full match with the data if there is data and nothing remains to be read; a partial match with the data and the error information if there is data and input remains; a failure with the error information if there is no data.',
   ['inputs', 'histories'], 'every terminal state',
   'The result is only observed on the sampled inputs of the test grammars.',
   [PST], [('into_result', PST), ('ParseExpectation::new', PST)], [], ['ParseState::into_result', 'ParseResult']),
 p('C08', 'The error message names location, snippet and each expected item once',
   'A reported error reads "L:C: unexpected `S`, expecting `a` or `b`." with the location and the snippet (at most 10 bytes) of the farthest failed attempt and every distinct expected item exactly once, in any order; full and partial matches print their data and, for a partial one, that same message.',
   ['inputs', 'histories'], 'every set of expected items and every position',
   'Messages are compared for a few grammars only, none with repeated items or an empty set.',
   [PST], [('expected_items', PST), ('Debug for ParseExpectation and ParseResult', PST)], [], ['ParseExpectation::expected_items', 'Debug']),
 p('C09', 'Spans and line tables point at the bytes of the text',
   'The span of a range of streams is the pair of byte positions of its two ends, shifted by the start of the file for a source-file stream. The line table registered for a source file has one entry per line, at the first byte of that line, so that looking a position up gives the line and column its location reports; registering happens once.',
   ['inputs'], 'every text, every pair of positions, every file start',
   'One test counts the lines of one text; no test looks at a span or a line start.',
   [SS, FM, 'runtime/src/lib.rs'], [('stream_span', SS), ('make_span', 'runtime/src/lib.rs'), ('register_lines, abs_pos', FM)], [('lines of the FileMap', 'first byte of each line', FM)], ['StreamSpan::stream_span', 'FileMap::lines']),
 p('C10', 'A character class matches exactly the characters its notation lists',
   'A character class matches a character exactly when it is one of the single characters of the class or lies in one of its `a-b` ranges, bounds included; `-` stands for itself at the start and at the end of a class only; `a-` at the end is `a` and `-`. A range whose bounds are inverted matches nothing. Classes whose notation is malformed (an empty class, a `-` in the middle that does not join two characters, as in `a-z-9` or `a--z`) are refused when the grammar is compiled.',
   ['inputs', 'programs'], 'every class text and every character',
   'The tests cover a few ASCII classes; escapes, hyphens and multi-byte bounds are not sampled.',
   ['src/liboak/front/parser.rs', B + 'character_class.rs', 'src/liboak/ast.rs'], [('parse_set_of_char_range, parse_char_range', 'src/liboak/front/parser.rs'), ('compile_recognizer/compile_parser', B + 'character_class.rs')], [], ['oak! grammar text', 'generated recognizers']),
 p('C11', 'Grammar text is read with the documented precedence and associativity',
   'In a grammar, postfix repetition and option bind tighter than prefix predicates, these tighter than juxtaposition, juxtaposition tighter than type ascription, action and choice; parentheses override. The grammar that is compiled has exactly the structure so determined.',
   ['programs'], 'every grammar text',
   'Tests sample a fixed list of grammars.',
   ['src/liboak/front/parser.rs'], [('recursive descent over tokens', 'src/liboak/front/parser.rs')], [], ['oak! grammar text']),
 p('C12', 'Duplicate rules and functions are refused, and nothing else is',
   'A grammar that defines two rules, or two functions, of the same name is refused with an error naming the duplicate; if all names are distinct every rule and function is kept, in order.',
   ['programs'], 'every list of rules and functions',
   'Two fixture grammars have a duplicate; lists in which the duplicate is neither adjacent nor second are not sampled.',
   [A + 'duplicate.rs'], [('populate/make', A + 'duplicate.rs')], [('items', 'items kept so far, distinct names', A + 'duplicate.rs')], ['oak! diagnostics']),
 p('C13', 'A name in a grammar refers to the rule of that name if there is one',
   'Wherever a plain name occurs in a rule, it denotes the rule of that name if the grammar has one, else the external parser of that name; paths with several segments always denote external parsers. Resolution reaches every occurrence in every rule, under every operator, and changes nothing else.',
   ['programs'], 'every grammar, every nesting of operators',
   'Tests reference rules only under a few operators.',
   [A + 'resolve_non_terminal.rs', 'src/liboak/visitor.rs'], [('visit_external_non_terminal_symbol', A + 'resolve_non_terminal.rs'), ('walk_expr', 'src/liboak/visitor.rs')], [], ['generated parsers']),
 p('C14', 'Accepted grammars cannot loop: no left recursion, no repeated empty match',
   'If a grammar (whose external parsers consume input) is accepted, no rule of it can call itself again without input having been consumed in between, and no `e*` or `e+` has an `e` that can succeed without consuming; so every generated parser terminates on every input.',
   ['programs', 'inputs'], 'every grammar and every input',
   'A dozen fixture grammars are refused; termination of all accepted grammars on all inputs is beyond sampling.',
   [A + 'well_formedness.rs', 'src/liboak/visitor.rs'], [('fixpoint over rule attributes', A + 'well_formedness.rs'), ('recursion path', A + 'well_formedness.rs')],
   [('rules_wfa', 'per rule: may fail, may succeed, always consumes, never consumes', A + 'well_formedness.rs'), ('recursion_path', 'rules being visited and whether input was consumed since', A + 'well_formedness.rs')], ['oak! diagnostics', 'generated parsers']),
 p('C16', 'Chaining warnings are true: the suggested expression is equivalent',
   'When a grammar gets the warning that a chain of predicates or repetitions is unnecessary, the expression pointed at has the form the warning states and the suggested replacement accepts the same inputs and consumes the same text. Each chain of one of the ten documented forms (`!!e`, `&&e`, `!&e`, `&!e`, `e??`, `e+?`, `e*?`, `e++`, `e+*`, `e**`) in an accepted grammar is warned about, seen through rules, actions, type ascriptions and spans, unless it lies inside another one or the rewriting would change a rule that others may use. A warning never changes whether the grammar is accepted.',
   ['programs'], 'every grammar',
   'The fixtures check a list of minimal chains, none with a sequence or a choice below the operator.',
   [A + 'useless_chaining.rs'], [('check_chain', A + 'useless_chaining.rs'), ('InnerPredicateOrRepeat', A + 'useless_chaining.rs')], [], ['oak! warnings']),
 p('C17', 'The type of an expression follows the documented typing rules',
   'Literals and predicates produce nothing (`(^)`), `.` and classes a character, `e*` and `e+` a vector and `e?` an option of the value of `e` (nothing when `e` produces nothing), a sequence the tuple of its parts that produce a value (parts of type `()` or `(^)` dropped, a single value unwrapped, nested tuples flattened), an ascription the ascribed type, `.. e` the span with the value of `e`, a rule name the type of the rule. Every expression of an accepted grammar whose value is used gets exactly that type. Recursion that adds no value to a rule leaves its type as it is (nothing, when no branch produces a value); recursion that would need an infinite type is refused. Comparing two types of Rust is left to the Rust compiler.',
   ['programs'], 'every grammar',
   'Tests check the inferred type of a few rules by compiling code that uses it.',
   [T + 'surface.rs', T + 'type_rewriting.rs'], [('reduce, reduce_unary, reduce_tuple', T + 'type_rewriting.rs'), ('visit_*', T + 'surface.rs')], [], ['types of generated functions']),
 p('C18', 'A choice is accepted exactly when its branches have one type',
   'The branches of a choice whose value is used, or that stands under an action, unify when all have the same type (an external parser or an action of unknown type adopts the type of the others; two types of Rust are taken to be the same, the Rust compiler compares them); the choice then has that type. If all branches produce nothing or unit the choice produces nothing; otherwise the grammar is refused with an error about the branches.',
   ['programs'], 'every list of branch types, in every order',
   'Fixtures pair two or three branches of fixed types.',
   [T + 'type_rewriting.rs', T + 'ast.rs'], [('reduce_sum', T + 'type_rewriting.rs'), ('syntactic_eq', T + 'ast.rs')], [], ['oak! diagnostics', 'types of generated functions']),
 p('C19', 'Generated recognizers follow PEG semantics',
   'The recognizer generated for a rule accepts a prefix of the input and stops at its end, or fails, exactly as the parsing-expression-grammar meaning of the rule says: ordered choice tries branches from the same position and commits to the first that succeeds, repetition is greedy, predicates consume nothing, sequences stop at the first failure.',
   ['programs', 'inputs'], 'every accepted grammar and every input',
   'Tests run a few grammars on a few inputs; operators nested in each other on both sides of a backtracking point are not sampled.',
   [B + f for f in ('choice.rs', 'sequence.rs', 'repeat.rs', 'optional.rs', 'syntactic_predicate.rs', 'str_literal.rs', 'any_single_char.rs', 'character_class.rs', 'non_terminal.rs')] + ['src/liboak/back/continuation.rs', 'src/liboak/back/context.rs'],
   [('continuation-passing compilation of each operator', B), ('marks and restoration', B + 'choice.rs')], [], ['generated recognize_* functions']),
 p('C20', 'Parsers agree with recognizers and build the value of the matched text',
   'The parser generated for a rule succeeds on exactly the inputs its recognizer accepts, stops at the same position, and its value is the one the matched text determines: characters read, options and vectors with one element per iteration in input order, tuples in grammar order.',
   ['programs', 'inputs'], 'every accepted grammar and every input',
   'Tests compare values for a few inputs; backtracked branches that already built values are hardly sampled.',
   [B + f for f in ('choice.rs', 'sequence.rs', 'repeat.rs', 'optional.rs', 'non_terminal.rs', 'value.rs')], [('parser compilers', B)], [], ['generated parse_* functions']),
 p('C21', 'Generated parsers report the farthest failed terminal of the parse',
   'When a generated parser or recognizer fails or stops early, the error information is the farthest input position at which a terminal of the grammar was tried and failed on this input, with exactly the terminals that failed there, in backtracked branches, predicates and last iterations too.',
   ['programs', 'inputs'], 'every accepted grammar and every input',
   'The messages of a few failing parses are compared.',
   [B, PST], [('error() in terminal compilers', B), ('restore_from_failure', PST)], [], ['ParseResult']),
 p('C22', 'Semantic actions get the values of their expression and provide its value',
   'An action is applied to the values of its expression (components of a tuple as separate arguments, in order) exactly when that expression has matched, and its result becomes the value of the expression, boxed if so declared. Actions inside predicates or branches that fail afterwards do not affect the result.',
   ['programs', 'inputs'], 'every accepted grammar and every input',
   'Actions with more than two arguments, nested and under repetition, are sampled once or not at all.',
   [B + 'semantic_action.rs', 'src/liboak/back/context.rs'], [('SemanticActionCompiler', B + 'semantic_action.rs')], [], ['generated parse_* functions']),
 p('C23', 'Names introduced by generated code are pairwise distinct',
   'Within one generated function every group of variables, every mark, counter, failure flag and closure the compiler introduces gets a name of its own, and none is bound again where it is in scope, however expressions nest and repeat, so no generated binding captures another (the state that is threaded through excepted; up to 17,575 groups of variables in one function).',
   ['programs'], 'every grammar',
   'Shadowing only shows in particular nestings.',
   ['src/liboak/back/name_factory.rs', 'src/liboak/back/context.rs'], [('NameFactory', 'src/liboak/back/name_factory.rs')], [('counters', 'next number per kind of name', 'src/liboak/back/name_factory.rs')], ['generated code']),
 p('C24', 'Spanned expressions carry the exact range they matched',
   '`.. e` produces the value of `e` together with the span from the position where `e` started to the position where it ended, and `... e` produces the range of streams between these two; both succeed exactly when `e` does.',
   ['programs', 'inputs'], 'every accepted grammar and every input',
   'Tests look at spans of a few expressions at fixed places.',
   [B + 'spanned_expr.rs'], [('SpannedExprCompiler', B + 'spanned_expr.rs')], [], ['generated parse_* functions']),
 p('C25', 'Grammars that are accepted generate code that compiles',
   'If a grammar is accepted without an error, the code generated for it compiles, provided the external parsers and actions it names exist with fitting types.',
   ['programs'], 'every accepted grammar',
   'Only the fixture grammars are compiled.',
   ['src/liboak/back/'], [('code generation', 'src/liboak/back/')], [], ['rustc on generated code']),
]

NA = {}
NOTES = {}

def main():
    import props
    exec(open(os.path.join(HERE, 'meta_notes.py')).read(), globals())
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in PROPS:
            f.write(json.dumps(q) + '\n')
    ids = [q['id'] for q in PROPS]
    checks = []
    for i in ids:
        if i in props.PROPS:
            P = props.PROPS[i]
            tech, note = NOTES[i]
            checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i,
                               evidence_file='evidence/%s.json' % i, technique=tech, level=P.level, level_note=note))
    na = [dict(property=i, reason=NA[i]) for i in ids if i not in props.PROPS]
    m = dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='none', enable='no hooks: /repo is used as it is', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='Contracts for Verus are attached to functions extracted from /repo on every run (lib/vx.py); see DESIGN.md.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')

if __name__ == '__main__':
    main()
