"""
Write DESIGN.md: the prose below, the explored spaces of the last quick run of every check (evidence/), the repaired defects
(known_findings.json) and the planted bugs with the space that caught each (tools/seed_results.json).
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Deciding the 20 bare-script-py properties by model checking

## 1. Approach

Every property is decided by **bounded exhaustive exploration of the real code, in lockstep with an independent reference
model**. A check enumerates a stated finite space (programs, statement lists, inputs, call histories, configurations,
environment answers) completely and in a fixed simplest-first order, runs the real `parse_script` / `execute_script` /
`evaluate_expression` / `lint_script` / library functions of the current `/repo/src` on every element, and compares every
observable step with a reference that was written from the property and the documentation and shares no code with the
implementation. Nothing is sampled; `VERIF_SEED` changes nothing.

Where the behaviour is a *transition system* - control flow (C01), scoping (C04), jump-level execution (C08), the statement
budget (C09), container histories (C15), include trees (C17), lint edits (C18), diff (C20) - the check is a model checker in
the strict sense: the reference is an explicit state machine, its states (or traces) are enumerated, and each trace is
replayed on the implementation, so the model is bound to the code by conformance of *every* explored trace
(`traces_validated_against_impl` in the evidence). Where the behaviour is a function of an input (parser, operators,
conversions, comparators, tables), the "states" are the inputs and the check is exhaustive enumeration of the bounded input
space against the reference function.

Nondeterminism is owned by the harness. Conditions, fetch answers and host-function results come from a *tape* of answers
that the explorer enumerates depth-first (stateless search: run, find the last consumed answer that has an untried
alternative, rerun), so every path of every program shape is taken. Time zones are set per worker process. Nothing random
or clock-dependent is called, except in C05 (where `datetimeNow` etc. only have to be contained).

### Machinery (`/verif/mc`)

* `core.py` - the explorer: shards the cases of a space over 8 worker processes, deterministic order, per-case CPU watchdog
  (a hang is a violation for properties that promise termination), worker-crash detection, distinct-outcome counting,
  *confirmation* (a failing case is rerun alone in a fresh process before it is reported), the smallest failing case first, replay files
  (`/verif/replays`, `./check.sh ID quick --replay FILE`), known findings.
* `impl.py` - imports the code under test from `/repo/src` (`MC_REPO` redirects to a scratch copy), so every run sees the
  current working tree; pure Python, nothing to build.
* `ref.py`, `prog.py` - reference values, operators, comparison, text; structured programs, their source text and the
  big-step and jump-level reference machines. `palette.py` - adversarial value palettes. `sig.py` - library signatures.
* `checks/cNN.py` - one module per property: spaces, oracle, assumptions.
* `tools/seedtool.py` - plants a bug in a scratch copy (patch applies, tests pass, demo distinguishes, check run);
  `tools/runseeds.py` - all planted bugs against the current checks; `tools/mutate/` - systematic mutation sweep (section 5).

No hooks or instrumentation were added to `/repo`: everything observed is public behaviour (`logFn`, `fetchFn`, globals,
results, exceptions). Checks judge *what the code does*: no check inspects source text or private names, models are
compared only where the property speaks about models, and generated label and variable names are never compared.

### Cost

Quick tier: all 20 checks together about 17 minutes of wall time on 8 cores (14-110 s each; the limit is 900 s).
Thorough tier: the same spaces with larger bounds (marked "(n)" in the tables) and additional spaces, 2-15 minutes each.
'''

PROSE = {
'C01': '''Programs are control skeletons: every forest of up to N nodes of {if, if-else, if-elif, if-elif-else, while, for, for-with-index,
function+call, break, continue, return}, with numbered log markers between the nodes and conditions answered from the
tape. The reference is a big-step interpreter of the *skeleton* (it never sees labels or jumps). Compared: result, log, final
globals. Additional spaces put the markers sparsely (bodies that are empty or consist of one control statement), give real data to
conditions and loops (`value-*`), repeat constructs hundreds of times (label numbering, caches), nest deep, put code far apart, and rerun.
Reaches what tests cannot: each combination of nesting x branch decision, e.g. a `continue` in the elif of an if in a while in a for.''',
'C02': '''Texts are enumerated in four ways: all operator chains (14^k), all parenthesised/unary variants, all token strings up to a length
(accept/reject), and character-level literals. The oracle is an independent tokenizer and precedence-climbing parser
producing the documented tree. Parsed models are compared node by node (number literals by value).''',
'C03': '''All operators x all operand pairs of a palette containing every type (int/float spellings, dates, aware datetimes, regexes, functions,
nested containers), expression trees with effect-logging leaves (evaluation order, exactly-once, short circuit, lazy `if`), every callee kind
x scope x arity, and expression-mode aliases against the library function they name. Evaluated in script, expression and data-row mode.''',
'C04': '''All signatures (0-4 parameters, `...` or not) x 0-6 arguments x call paths (direct, through partials, callbacks, hand-built models), all
name-collision configurations {local, global, library, host, built-in}, small multi-function programs against a scoping machine, recursion, and histories
of aborted earlier runs and calls (state left behind by an exception must not leak into a later call).''',
'C05': '''Every library function x argument lists over a palette of ~107 adversarial values, every operator pair, two-operator chains, statement templates,
26 host faults x 20 call paths x debug on/off. Monitors: only the two documented exceptions escape, the result is a BareScript value, the
documented failure value is returned, a debug log line is written exactly for failures, and execution continues (the statement after the call runs).''',
'C06': '''Line-kind sequences are compared with a block automaton (accept/reject and the offending line); a syntax fault is placed at each column of lines of
length 0..400 in each statement form and the reported line, text, column and *caret position in the formatted message* are compared; token soup, character texts
and single/double mutations of valid programs check totality; markers check that no line is dropped; prefixes shift line numbers.''',
'C07': '''The same skeletons as C01 but judged statically: schema validation, a per-scope label/jump monitor (each jump has exactly one label in its scope, each label is used),
and the absence of label lint warnings. Scales to hundreds of constructs and depth 60.''',
'C08': '''All statement lists of length <= 5 (6) over a 13-symbol jump-level alphabet x all tapes, against a small-step machine; functions with jumps; shared statement objects;
models edited between runs; an `intact` monitor which fingerprints identity, type and value of every node of the model before and after each of three runs.''',
'C09': '''Programs of every call path (direct, callback from arraySort/arrayIndexOf/data expressions/regex, include, partial) x every limit L: the run must stop exactly
when statement L+1 would start (log prefix), complete identically for L >= N and 0, and diverging programs must stop under every limit.''',
'C10': '''Base programs x layout deviations (indentation, trailing blanks, blank/comment lines, line ends, continuations at each space, chunking): all singles, pairs, triples of reduced
sets, all subsets for small programs, all lines of the shipped scripts. Oracle: equality with the model of the base layout. `state` interleaves parses
(failing ones, huge ones, mutated results) to catch retained state.''',
'C11': '''The real comparison matrix over 1188 values (1188^2 pairs) is computed; antisymmetry is checked on it and transitivity for *all* triples by the rank argument (a relation
is a total preorder iff it equals the comparison of ranks). Consumers are checked for consistency with the matrix on all small arrays/tables, and long patterned ones.''',
'C12': '''Differential: each call is executed in every int/float spelling of its integral numbers (2^k) and the results, failures and effects on arguments compared.''',
'C13': '''Double families: all short decimals, all 2047 exponents x 200+ mantissas x signs, powers and neighbourhoods, integers; each through every stringification path, back through
numberParseFloat and source literals, bit-exact. Parser texts: all strings up to a length over the relevant characters, edits of near-misses.''',
'C14': '''Strings in each position of a value, all code points, all small trees, number families x indents; the output is read by an independent strict JSON reader that also checks
key order, number tokens and separators, and by jsonParse. Distinct values must give distinct texts (outcome table).''',
'C15': '''Explicit-state search over heaps: two arrays/objects with aliasing, 72 operations, depth 4, states deduplicated up to isomorphism; the real library is stepped in lockstep with a
list/dict model (identity included). Products of arguments, wrong-typed arguments (failure value + arguments untouched), all small strings x string functions, regexEscape and URL encoding over
every code point.''',
'C16': '''datetimeNew on grids against integer proleptic-Gregorian arithmetic; arithmetic and ISO round trips over days x times and +-200 minutes around every transition of each of 8 (18) time zones
against the IANA rules; ISO texts and all their one- and two-character edits.''',
'C17': '''A virtual file system; include trees enumerated by shape x reference kind x base x prefix x placement x fault; the reference include machine predicts the exact sequence of fetched
locations and log lines, the error text and the resolution after the include. Also via the command line on real files.''',
'C18': '''For each model: lint is called (twice, on a deep copy) and each warning is *acted upon* (rename/delete) and the edited model run over all tapes and compared; label/redefinition
warnings are compared with exact sets. String-hash seeds vary in subprocesses.''',
'C19': '''All small tables over palettes whose members compare equal across spellings and types; relational reference for each function; CSV with an independent writer, all column types and
combinations; wide tables and long lattices; two time zones.''',
'C20': '''All pairs of line lists over small alphabets run through the shipped diff.bare; each block list is replayed. Texts with every line-ending combination; edits of long texts; every shipped
script parses, validates, is lint-clean and loads.''',
}

TAIL1 = '''
## 3. Defects found in the original code and repaired

Each was reported by a check on the unchanged tree, confirmed against the real code, and repaired by a minimal `fix:` commit
(the existing tests pass unedited). No finding is outstanding, so `known_findings.json` has an empty `findings` list.

'''

LENIENT = '''
## 4. Judgement calls: what the checks deliberately do not demand

False alarms that were corrected in the machinery, and places where the property is silent so that any behaviour is accepted:

* C01: the value of a `for` index variable after the loop's natural end and reserved `__bareScript*` temporaries are not compared.
* C02/C03 pinned readings (current behaviour taken as intended): `1e5` is not a number literal, `-5` parses as unary minus, `b (c)` is a call,
  `a == b` as a statement is a syntax error, `%` is the Python modulo, a null local shadows a global function ("Undefined function"), calling a
  non-function gives null with a debug line.
* C03/C13: the sign of zero, and the text of infinities and NaN, are not judged.
* C04: duplicate parameter names are not covered (lint warns about them).
* C05: memory-exhausting sizes (`arrayNewSize(1e12)`), failing `logFn` callbacks, hand-built models deeper than the host stack, and an
  expression-mode call of a script function without a prior run are excluded. Whether a failing comparator leaves a permuted array is free.
* C06: a fault may be attributed to its character, to the blanks before it or to an enclosing open parenthesis; an unclosed block may be
  reported at any open block. Chunks that end in a newline count an extra (blank) line.
* C09: for large N only limits 1-3 and N-1..N+1 are run.
* C10: a blank or comment line inside a *string literal* that is continued is not varied.
* C11: mixed-type dataAggregate min/max is excluded (documented for one type).
* C13: `jsonParse('NaN')` and numberParseInt of more digits than a double holds are not judged.
* C14: lone surrogates are excluded (not Unicode scalar values).
* C15: arrayDelete/objectDelete return null, stringIndexOf with an index at the end returns -1 (pinned).
* C17: URL bases whose query contains '/', and system includes without a configured prefix are excluded.
* C19: two measures writing the same output column, and an invalid date among dates (may refuse or keep) are not judged.

Trust base: CPython, `schema_markdown`, the reference models (about 5 kLOC, reviewed against the documentation; each
was also validated by the fact that it agrees with the real code on every explored case of the unchanged tree while disagreeing on each planted bug).
'''

def main():
    out = [HEAD, '\n## 2. The properties, one by one\n']
    for i in range(1, 21):
        prop = f'C{i:02d}'
        out.append(f'\n### {prop}\n\n{PROSE[prop]}\n')
        try:
            with open(os.path.join(HERE, 'tools', 'spaces.json'), encoding='utf-8') as fh:
                spaces = json.load(fh).get(prop, [])
        except OSError:
            spaces = []
        if spaces:
            out.append('\n| space | enumerated (thorough bound in brackets) | cases | states |\n|---|---|---|---|\n')
            for space in spaces:
                what = space['what'].replace('|', '\\|')
                out.append(f"| {space['space']} | {what} | {space['cases']} | {space['states']} |\n")
    out.append(TAIL1)
    with open(os.path.join(HERE, 'known_findings.json'), encoding='utf-8') as fh:
        known = json.load(fh)
    for line in known['fixed']:
        out.append(f'* {line}\n')
    out.append(LENIENT)
    with open(os.path.join(HERE, 'tools', 'design_tail.md'), encoding='utf-8') as fh:
        out.append('\n' + fh.read())
    with open(os.path.join(HERE, 'tools', 'seed_results.json'), encoding='utf-8') as fh:
        results = json.load(fh)
    out.append('\n| planted bug | property | caught by | what it needs |\n|---|---|---|---|\n')
    for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        with open(os.path.join(HERE, 'seeded', name, 'meta.json'), encoding='utf-8') as fh:
            meta = json.load(fh)
        result = results.get(name, [meta['property'], 'not run', ''])
        needs = str(meta['needs']).replace('|', '\\|').replace('\n', ' ')
        out.append(f"| {name} | {meta['property']} | {result[1] if result[1] != 'caught' else meta['property'] + ' ' + result[2]} | {needs[:160]} |\n")
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as fh:
        fh.write(''.join(out))

if __name__ == '__main__':
    main()
