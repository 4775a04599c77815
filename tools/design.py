#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text below, the bounds of each check from its harness, the planted bugs from seeded/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
M = json.load(open(f'{V}/MANIFEST.json'))
NA = {n['property']: n['reason'] for n in M['not_applicable']}
HOW = {
'C01': 'The value is a 64-bit variable; the bytes the writer puts into a string stream are terms over it; reading them back must give the value, and the decoder is compared with a direct formula for arbitrary bytes.',
'C02': 'FByteswapper on symbolic values of every type, compared byte by byte with the reversed representation; twice is the identity.',
'C03': 'Symbolic values and containers go through BinWritterRef and BinReaderRef over a string stream for each byte order; oracle: the values, and the bytes at each position.',
'C04': 'Call sequences with symbolic positions, origins, skips and alignments next to a three line model of the position arithmetic.',
'C05': 'Symbolic word and field value; oracle: mask and shift arithmetic by position and size; conversion of byte order for every layout against per-field copying.',
'C06': 'Symbolic flag word and position; oracle: bit set arithmetic.',
'C07': 'Operation sequences on vectors over borrowed storage in the engine memory model (every access is checked against its object, every free against the allocator) next to a std::vector.',
'C08': 'Symbolic messages and vectors through every mode; oracle: decryption gives the message, modes equal their textbook equations over the block cipher, the block cipher is inverted for every block with its tables as read-only arrays.',
'C09': 'All paths up to the bound; oracle: a specification of folder, file, extension and branches by positions of separators.',
'C10': 'Bit-precise floating point (Z3 FP/BV): exact value of each pattern, nearest value for narrowing.',
'C11': 'The published functions written anew in the harness; terms are compared (mostly identical after rewriting), exact heap copies expose reads past the text.',
'C12': 'std::string semantics written as specification over positions; every search function against "the first/last position such that".',
'C13': 'Specification of blanks, alignment and character codes; exact heap copies expose reads outside the text.',
'C14': 'A symbolic block; pointers fixed in any order; oracle: base plus stored offset, done once.',
'C15': 'Every schedule of the modelled thread primitives (harness/threads.h replaces std::thread, mutex and condition variable by engine-visible calls, the schedule is an input); oracle: counts of runs per task, done at return.',
'C16': 'Operations of printers in any order, outputs recorded; oracle: per message the pieces in order, once per output; a lock held check at every output call.',
'C17': 'opendir/readdir/stat stand-ins give every small tree; oracle: the set of entries that are files and contain a filter.',
'C18': 'mkdir/stat stand-ins with arbitrary outcomes; oracle: the levels that had to be asked for, and the result reported.',
'C19': 'Symbolic components for each class and operator; oracle: the scalar operation per component with the element type; SIMD and portable classes alike.',
'C20': 'Exact real arithmetic (--real: Z3 nlsat over the reals): products, inverses, rotations, decompositions against matrix algebra written out.',
'C21': 'Symbolic decimal and hexadecimal texts; oracle: the denoted number, clamped to the member; the neighbours unchanged.',
'C22': 'Symbolic element indices and member indices, guard bytes around every member; oracle: only the addressed element changes, everything else is refused.',
'C23': 'Symbolic words, values and texts; oracle: mask arithmetic on the word; guard bytes behind the object.',
'C24': 'Symbolic names and raw values against the table of enumerators.',
'C25': 'Objects with symbolic members saved and loaded through string streams, versions that add, drop and retype members, records cut at every byte; oracle: equal members, kept members, reported errors.',
'C26': 'Descriptions put together symbolically (presence of every part is a variable), saved, loaded; oracle: the same description; data cut at every byte is refused.',
'C28': 'Symbolic element bits for every codec; oracle: fields by the layout tables of the format, normalised by their largest value; exact buffers expose overreads.',
'C29': 'Symbolic lists and iterator step sequences; oracle: a plain array; ownership by live-object counting.',
'C30': 'Symbolic names, magic numbers and versions; oracle: the text by concatenation, the type by catch clauses.',
'C31': 'Symbolic 64/128 bit blocks; oracle: the published palette formulas in integers with a tolerance of one step where the value is not a whole step; canary bytes around the destination.',
'C32': 'Symbolic headers and extents; oracle: tables of bits per texel and masks from the published format, size formula per level.',
'C33': 'Symbolic records and archives assembled byte by byte from the published offsets; oracle: the fields, the list of files and their bytes; schedules of two readers by threads.h.',
'C34': 'Symbolic parameters; oracle: byte offsets and identifiers of the published headers, derived rates.',
'C35': 'Symbolic coordinates and sizes; oracle: bit interleaving and injectivity of two symbolic texels.',
'C36': 'Symbolic code points; oracle: UTF-8/16/32 encodings written in the harness.',
'C37': 'Symbolic settings descriptions; oracle: the help text assembled line by line.',
'C38': 'Symbolic components; oracle: the texts of the components joined by blanks; read back by a parser in the harness.',
'C39': 'The real classes over the real libstdc++ file buffers, executed symbolically over an in-memory model of the operating system files beneath them (rt/rt.cpp); file contents are symbolic, ways of opening, moves and seeks are forked. Oracle: the bytes written. Replays use real files in a scratch folder.',
'C40': 'Classes and enumerations of many sizes declared with the library macros; member values, prior contents and the digits of looked-up names are symbolic. Oracle: the declared list itself. The counts of all 89 sizes are compared with the lengths of lists written out by the generator of the harness.',
'C41': 'Test functions made of the real macros, called with symbolic values; their results and what the printer shows are compared with the comparisons written out as plain C++.',
'C27': 'The real writers and readers over a model of the part of pugixml\'s tree they call (harness/pugi; pugixml is an external library); every solved path and every counterexample is replayed on the installed pugixml. Oracle: member-wise equality with the object written.',
'C42': 'The real log creation over the in-memory file model, with symbolic settings and messages; the clock, the number of processors and the C time functions are stand-ins of the harness (also in replays). Oracle: the whole text of the log written out in the harness.',
}
HEAD = open(f'{V}/tools/design_head.md').read()
TAIL = open(f'{V}/tools/design_tail.md').read()
out = [HEAD]
for p in P:
    i = p['id']; h = f'{V}/harness/{i}.cpp'
    out.append(f'### {i} {p["title"]}\n')
    if i in NA:
        out.append(f'Not applicable: {NA[i]}\n'); continue
    s = open(h).read()
    g = lambda k: '; '.join(re.findall(rf'^//! {k} (.*)$', s, re.M))
    out.append(f'{HOW[i]}\n')
    out.append(f'- Entries: {len(re.findall(r"ENTRY[(]", s))} in `harness/{i}.cpp`; code: ' + ', '.join(f'`{f}`' for f in p['anchors']['files']) + '.')
    out.append(f'- Bounds: {g("bounds") or "all values of the inputs named in the entries"}.')
    if g('outside'): out.append(f'- Outside: {g("outside")}.')
    if g('assume'): out.append(f'- Assumed: {g("assume")}.')
    e = f'{V}/evidence/{i}.json'
    cf = f'{V}/tools/costs.json'
    costs = json.load(open(cf)) if os.path.exists(cf) else {}
    if os.path.exists(e):
        j = json.load(open(e)); c = j['coverage']
        if j['tier'] == 'quick' and not j['violations']: costs[i] = f'{round(j["wall_s"])} s, {c["states"]} paths, {c["solver_queries"]} queries, {round(c["solver_time_s"])} s in the solver (all processes)'; json.dump(costs, open(cf, 'w'), indent=1)
    if i in costs: out.append(f'- Cost of the quick tier here: {costs[i]}.')
    w = p['why_tests_cant']
    out.append(f'- Beyond the tests: {w}\n')
out.append(TAIL)
res = {}
rf = f'{V}/tools/seed_results.json'
if os.path.exists(rf): res = json.load(open(rf))
out.append('| planted bug | property | needs | breaks | its check |\n|---|---|---|---|---|')
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    out.append(f'| {n} | {j["property"]} | {j["needs"]} | {j["what_it_breaks"]} | {res.get(n, "caught")} |')
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
