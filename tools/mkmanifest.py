"""Writes MANIFEST.json from the table of claimed checks below (run by hand after changing it)."""
import json, os
import vt

T = 'TLA+ specification checked with TLC; '
CHECKS = {
    'C14': (T + 'recorded runs of fbld on generated documents validated against FbldEval.tla',
            'Every generated document (seeded, command structure known by construction) is run through the real fbld '
            'binary under ASan/UBSan/LSan; TLC decides from FbldEval.tla whether exit status, output text and each '
            'diagnostic (location, message) are allowed. Trusts the document printer and the bounds of the generator.'),
    'C15': (T + 'parse trees of the real parser on generated and exhaustively enumerated texts validated against FbldSyntax.tla',
            'All texts of at most 5 significant characters (plain build) and seeded structured/mutated multi-file documents '
            '(ASan build) are parsed by the real FbldParse; TLC decides from FbldSyntax.tla whether the structure, the '
            'location of every command and the location of the error are right. Locations of text pieces and of implicit '
            'blocks are not compared; empty command names are left open.'),
    'C05': (T + 'histories generated by TLC from Heap.tla replayed on the real value heap, with content walks',
            'TLC turns seeded genes into legal histories of the heap interface (allocation of every kind, recursive references, '
            'frames, native function bodies, calls, tail calls, aborts, collections) and writes what every later read must '
            'see; a C harness replays them on lib/value.c (plain and ASan/UBSan). HeapMC checks the specification itself on all '
            'histories of 5 (6) steps over 21 genes. Values are walked up to 40 nodes.'),
    'C06': (T + 'histories generated by TLC from Heap.tla replayed on the real value heap, with finalizer obligations and peak memory of loops',
            'As C05, with every native counted: not finalized while in MustLive, finalized by a full collection once outside '
            'MayLive, exactly once when the heap is freed. Loops whose reachable data is bounded by construction '
            '(HeapLoopGen.tla) must have the same peak memory after 400 and 4000 iterations.'),
    'C07': (T + 'construction and access histories generated by TLC from Heap.tla replayed on the real value heap',
            'As C05 with histories of nested structs, unions, enums, lists and literals around the machine-word limit, parts '
            'read out and reused, values moved by frame pops, and values larger than a stack chunk.'),
    'C08': (T + 'application histories generated by TLC from Heap.tla replayed on the real FbleCall/FbleTailCall/FbleApply',
            'As C05 with histories of partial, exact and over-application, tail calls with pending arguments, recursive and '
            'undefined functions and aborts; TLC prescribes which body runs next with which arguments and what each '
            'application returns.'),
    'C10': (T + 'histories of profiler events replayed on the real profiler and its reports, validated against Profile.tla',
            'ProfileMC checks that the numbers of Profile.tla add up on all histories of 9 (10) events over 3 blocks and 2 threads. '
            'Seeded histories (deep stacks, tail calls, many callees, blocks added mid-run, several threads, 64-bit times) run on '
            'lib/profile.c (plain and ASan); TLC computes the numbers each must record and checks the tables and the parsed report. '
            'Random sampling is checked for its rate within 5% and for what each sample charges. fble-perf-profile is checked '
            'the same way on generated collapsed stacks.'),
    'C01': (T + 'runs of generated programs under the interpreter validated against the evaluator of FbleEval.tla',
            'Seeded well-typed multi-module programs (all expression forms, polymorphism, packages, recursion, aborts) are run by '
            'the real interpreter (plain and ASan/UBSan); TLC lexes, parses, type checks and evaluates the same text by '
            'FbleSyntax/FbleStatic/FbleEval.tla and gives the value or the abort, its location and its callers. '
            'Programs that use recursively defined values early, by many routes, are generated separately. Bounded by program size '
            'and 600 steps; programs that need more are only loaded.'),
    'C02': (T + 'runs of generated programs compiled to C validated against the evaluator of FbleEval.tla',
            'As C01 for the code generated by FbleGenerateC, compiled by gcc and linked, with and without profiling: value, abort '
            'trace, profile counts. Odd names, literal letters and module paths are included. The aarch64 back end '
            'is C25.'),
    'C03': (T + 'acceptance and error locations of generated and mutated programs validated against FbleStatic.tla',
            'Seeded programs and small mutations of them (tokens, elements, statements, names of the same kind) and programs of 14 small '
            'expressions that use each rule equally often, right or nearly right, are given to the real loader and type checker; TLC decides from FbleSyntax/FbleStatic.tla whether each must be accepted, and where the '
            'errors may be reported. Bounded by program size.'),
    'C04': (T + 'generated groups of types, rewritten and perturbed, compared through expressions and judged by TEq of FbleStatic.tla',
            'Seeded groups of mutually recursive and polymorphic types are rewritten without changing what they denote (unrolling, '
            'aliases, polymorphic abstraction, regrouping) and perturbed (name, order, kind, one reference); every pair is '
            'compared through function arguments, returns, lists and copies by the real type checker; TLC decides equality of the '
            'infinite unfoldings. Chains up to 130 deep; types stay regular and below a size cap.'),
    'C11': (T + 'profiles of generated programs validated against the block counts of FbleEval.tla',
            'Every program of the corpus is run with profiling, interpreted and compiled; TLC gives how often each block is '
            'entered.'),
    'C12': (T + 'loads of generated file trees validated against FbleLoad.tla, which is model checked on all small trees',
            'FbleLoadMC checks the loading order on all dependency graphs of 3 (4) modules. Generated trees with several search '
            'directories, missing and broken modules, cycles and foreign files are loaded by the real FbleLoad and fble-deps; TLC '
            'gives the modules, their order, the files read and the dependency output.'),
    'C13': (T + 'runs of generated module graphs validated against the evaluator of FbleEval.tla',
            'Module graphs of up to 12 modules (some of 25 to 60) with random references (at top level, in functions, in types, in defaults), aborts '
            'in module bodies and odd module names run interpreted and compiled; TLC gives the value, the abort, the order of '
            'loading and how often each module is evaluated.'),
    'C09': (T + 'memory and C stack of generated loops measured and compared with what the evaluator of FbleEval.tla says they hold',
            'Seeded loops (through lets, matches, several functions, polymorphic values, captured state, packages of arguments) run '
            '500 and 4000 turns, interpreted and compiled, with and without profile; TLC, which evaluates the same loop, says '
            'whether the calls active and the values held are bounded; then neither peak heap nor C stack may grow by more than a '
            'fixed slack.'),
    'C21': (T + 'pairs of texts written with and without each abbreviation, and short and damaged texts, validated against FbleSyntax.tla and FbleEval.tla',
            'Programs that use each abbreviation of the language in every form, random short token sequences and damaged programs are '
            'given to the real parser, type checker and interpreter; TLC expands and evaluates the same text. Bounded by size; words '
            'with NUL bytes are left open.'),
    'C22': (T + 'conversions between abstract and concrete types in generated packages validated against FbleStatic.tla',
            'Every kind of conversion (seal, unseal, cast) between generated types is placed in modules inside and outside the package '
            'the type belongs to, near misses of path prefixes included; TLC gives acceptance, location and the value read back.'),
    'C16': (T + 'histories of map, set, list and queue operations on real collections validated against Coll.tla',
            'Generated histories over many versions, every insertion order of six keys followed by every deletion (of seven, and pairs, in the '
            'thorough run); TLC keeps each version as the mathematical object and compares every answer.'),
    'C17': (T + 'results of the core arithmetic, digit, character and string functions validated against Ints.tla',
            'Operands of every small value, near powers of two and ten, and large random ones, of both signs, through the library and the '
            'host interface; TLC computes with integers of any size in base 4096, a model of which is checked against TLC integers (IntsMC).'),
    'C18': (T + 'answers of the sat package validated against Sat.tla',
            'Every small formula and generated larger ones with known shapes, solved at once and clause by clause, texts well formed and damaged, '
            'and the whole program; TLC decides satisfiability by cases, which SatMC shows equal to the definition on all small formulas.'),
    'C19': (T + 'runs of script programs through the standard IO driver validated against Stdio.tla',
            'Generated scripts of stream, file, argument and environment operations run interpreted, compiled and in the pure monad, with every kind of '
            'option list, closed descriptors and unwritable targets; TLC replays the script on a model of files, offsets and descriptors '
            'and gives the exact output bytes, file contents and exit status. StdioMC checks the model on all short scripts.'),
    'C20': (T + 'warnings on generated programs validated against FbleStatic.tla',
            'Seeded programs with many unused, underscore, shadowing and transitively unused names, and nested let groups over few names; TLC gives the exact set of '
            'locations that must be warned about.'),
    'C23': (T + 'runs of every command line tool on generated argument lists and module trees validated against Tools.tla',
            'Generated argument lists (right, with one thing wrong, and arbitrary) of fble-deps, fble-disassemble, fble-compile, fble-test (interpreted '
            'and compiled) and fble-perf-profile run in generated worlds of directories, packages and modules; TLC parses the arguments, loads the '
            'modules and gives the exit status and the output. Contents of assembly and C output are judged by C02, not here.'),
    'C24': (T + 'runs of fble-perf-profile on generated texts validated against PerfText.tla and Profile.tla',
            'Texts of collapsed stacks with names of any bytes, lines of every length up to and across each buffer size, headings, bad counts and '
            'squashed names run through the real program (plain and ASan); TLC reads the same bytes and computes the report. NUL bytes and counts in '
            'other notations are left open.'),
    'C25': (T + 'programs run as generated aarch64 code, translated to the host, and as interpreted code, against FbleEval.tla',
            'Random programs, programs with odd names and programs with large types and frames: TLC computes outcome and profile of each; the '
            'assembly generated is checked as an assembler would and translated instruction by instruction (tools/a64.py, harness/a64rt.S), with '
            'AAPCS64 enforced while it runs. No aarch64 hardware or assembler is involved; thorough goes up to 4100 fields.'),
    'C26': (T + 'runs of fble-app at a display on paper validated against FbleApp.tla; FbleAppMC model checked',
            'fble-app of this tree is linked with stand-ins for SDL and GL that deliver scripted events on a virtual clock and write down what is '
            'drawn in window coordinates. Generated programs, drawings, events and timings, and the demo, interpreted and compiled; TLC computes every '
            'line. FbleAppMC explores all interleavings of up to 2 (3) events and requests. Rasterisation and real drivers are outside.'),
    'C27': (T + 'runs of the sample programs and functions validated against Samples.tla; SamplesMC model checked',
            'Real runs of fble-md5, tic-tac-toe and reverse-complement, and calls of the sudoku solver and the game of life, all interpreted; TLC '
            'computes digests, generations, sessions and reverse complements, and judges whether puzzles have solutions. SamplesMC checks the RFC 1321 '
            'vectors, that best play never loses, and the symmetries of life. Messages up to 4 kB, 8x8 worlds, puzzles with up to 54 blanks.'),
}
NA = {}

if __name__ == '__main__':
    props = [json.loads(l)['id'] for l in open(os.path.join(vt.VERIF, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='sh setup.sh',
             hooks=dict(guard='VERIF_HOOKS', enable='no hooks were needed: nothing in /repo is guarded', source_commits=[]),
             checks=[dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                          technique=CHECKS[p][0], level=CHECKS[p][2] if len(CHECKS[p]) > 2 else 'model_checking',
                          level_note=CHECKS[p][1])
                     for p in props if p in CHECKS],
             not_applicable=[dict(property=p, reason=NA.get(p, 'No check yet: the specification for this part is still being written.'))
                             for p in props if p not in CHECKS])
    with open(os.path.join(vt.VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
