"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'esp_idf_size/'
P = []


def p(pid, title, statement, over, text, why, files, mech, observe, note, claim=True):
    P.append(dict(id=pid, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, observe=observe, note=' '.join(note.split()), claim=claim))


TESTS = 'The only test that runs offline renders the documentation; the others compare a few stored reports of real builds. '

p('C01', 'The linker map is read faithfully',
  '''Every memory region, output section and input section (named with a leading dot, or COMMON) that a linker map lists is read with exactly the name, address, length, archive and
  object file printed there, in the order of the map, whatever the line layout (values on the same or on the next line), the characters of the
  path (blanks, dots, parentheses) and unrelated lines around it. The chip is the one the map names, and nothing that is not a region or section
  is taken for one. A file without the parts of a linker map is refused with an error rather than read as an empty or partial map.''',
  ['inputs'], 'all linker maps: any numbers, names, line layouts and interleaved unrelated lines',
  TESTS + 'They see the maps of a few builds, not all paths, layouts and numbers.',
  [S + 'mapfile.py'], [('line classification and section parser', S + 'mapfile.py')], ['parsed map file object'],
  'Holds for all 32 bit numbers, up to 3 regions and 3 output sections, and paths of up to 10 symbolic characters.')

p('C02', 'Input sections and padding tile their output section',
  '''Within an output section all padding and explicit data of the linker map is accounted to the preceding input section that occupies memory, so that input sections with their padding cover the
  output section from the first of them to its end without gap or overlap; empty and discarded input sections and sections printed outside occupy nothing. The consistency check of a map stays silent on such a map and reports one in which an
  input section is not where its predecessors end.''',
  ['inputs'], 'all sequences of sections, empty sections, padding and explicit data within the bounds, all sizes',
  TESTS + 'The order of padding, empty sections and data differs from build to build.',
  [S + 'mapfile.py'], [('padding attribution and validation', S + 'mapfile.py')], ['parsed map file object', 'validation result'],
  'All sequences of up to 5 (thorough 6) entries of 7 kinds with symbolic sizes.')

p('C03', 'Archive dependencies are those of the cross reference table',
  '''An archive is reported to depend on another archive exactly when the cross reference table of the linker map says that it uses a symbol the other one defines, the symbol is a function or object placed by the executable (not an absolute one) and both
  archives contribute to the memory map; each such symbol is listed once per pair and the archives come with their sizes. Reverse dependencies are the same relation read the other way round. Without an executable or a cross reference table the request is
  refused with an error message.''',
  ['inputs'], 'all cross reference tables, symbol types, section indexes and sizes within the bounds',
  TESTS + 'They do not run dependency reports over arbitrary tables.',
  [S + 'mapfile.py', S + 'memorymap.py', S + 'deps.py'], [('cross reference table parser', S + 'mapfile.py'), ('dependency relation', S + 'memorymap.py')],
  ['dependency relation', 'dependency reports'],
  'Up to 3 symbols with up to 3 references, symbol type and section index over the full width.')

p('C04', 'Total size of each memory type comes from the linker regions',
  '''For every supported chip the total size reported for a memory type is the number of bytes of the linker map\'s memory regions that lie in the address
  windows of that type, each byte counted once even if it is visible at two addresses or listed by several regions. A region that crosses types is split at
  their boundaries, what lies outside every type counts nowhere, and the computation ends for every region.''',
  ['inputs', 'configurations'], 'all chips, all origins and lengths of the regions',
  TESTS + 'They contain one or two region layouts per chip.',
  [S + 'memorymap.py', S + 'chip_info/'], [('region splitting and merging', S + 'memorymap.py'), ('chip descriptions', S + 'chip_info/')],
  ['memory map'], 'All supported chips, up to 3 regions with symbolic origin and length. Address windows of the chips are held '
  'independently of the tree.')

p('C05', 'Every byte is accounted to the memory type that holds it',
  '''Every byte of an input section is accounted, under its output section, archive, object file and symbol, to the memory type whose linker region contains its address, and to no other; an output section that crosses types is divided among them at the
  boundary, padding included in the section only, and a type lists only sections that have bytes in it. Bytes beyond the end of their region are reported as overflow in the type of the region in front of them, so that none is lost or counted twice. Sections of external RAM are accounted to the
  external RAM type as a whole.''',
  ['inputs', 'configurations'], 'all chips, region origins and lengths, section addresses, sizes and padding',
  TESTS + 'Boundary crossing and overflowing sections do not occur in them.',
  [S + 'memorymap.py'], [('placement of sections', S + 'memorymap.py')], ['memory map'],
  'All chips, up to 2 regions which may overlap, 1 output section, up to 2 input sections with padding, all numbers symbolic.')

p('C06', 'Sizes add up at every level of a memory map',
  '''In every memory map the used size of a memory type is the sum of its sections, a section the sum of its archives plus its padding, an archive the sum of its object files; an object file is the sum of its symbols when these come from the linker map and
  never less than their sum when they come from an executable. The same holds for the differences of a comparison. This holds for a map as built, after removing unused entries and after comparing and unifying in either order.''',
  ['inputs', 'histories'], 'all memory maps within the bounds and sequences of the operations on them',
  TESTS + 'No test adds up levels.',
  [S + 'memorymap.py'], [('tree construction and transformations', S + 'memorymap.py')], ['memory map'],
  'Up to 2 output sections, 3 input sections and 3 symbols with symbolic sizes and symbolic choice of names.')

p('C07', 'The right output sections count, and the image size is theirs',
  '''With an executable exactly those output sections of the map count that the executable allocates and that are not empty, without one exactly those of known loadable kinds; debug, attribute and placeholder sections never count. The image size is the sum of
  the allocated sections of the executable that hold program data (PROGBITS), or without one of the counted sections that are not zero-filled.''',
  ['inputs'], 'all section types, flags and sizes, all section names of the scenario',
  TESTS + 'They see the flags of a few builds only.',
  [S + 'memorymap.py'], [('section filters and image size', S + 'memorymap.py')], ['memory map'],
  'Types, 16 flag bits, sizes and addresses of ELF sections symbolic, 40 section names, 2 (thorough 3) output sections.')

p('C08', 'ELF symbols are attributed to the object file that contains them',
  '''Every function or object symbol of the executable with a size that lies in an input section is reported under the output section, archive and object file of that input section, with its size, functions marked by "()"; equally named symbols of one object
  file are summed. An input section without any symbol is reported under its own name and size, and symbols outside of all sections are not reported. A symbol that exceeds its input section or lies behind all of them is refused with an error.''',
  ['inputs'], 'all symbol addresses, sizes and type bytes, all layouts of input sections within the bounds',
  TESTS + 'They fix the reports of a few executables.',
  [S + 'memorymap.py', S + 'elf.py'], [('symbol attribution', S + 'memorymap.py')], ['memory map'],
  'Up to 3 input sections in 2 output sections and 2 (thorough 3) symbols with symbolic address, size and type.')

p('C09', 'Debug information attributes link-time optimised code without losing a byte',
  '''When link-time optimisation is on (asked for, or told by the build configuration) each part of a merged object is reported under the archive of the component whose source file the debug information
  names, and what cannot be attributed stays with the merged object. The attribution never changes the size of an output section or memory type, nor the entries that already name an archive; with optimisation
  off nothing is attributed this way.''',
  ['inputs', 'configurations'], 'all symbol addresses and sizes, unit names, component paths and configurations within the bounds',
  TESTS + 'None of the stored builds exercises it.',
  [S + 'memorymap.py', S + 'elf.py'], [('expansion of merged input sections', S + 'memorymap.py')], ['memory map'],
  'Up to 4 input sections (merged or not, empty or not) with padding and 2 (thorough 3) symbols with symbolic address and size, 11 unit names, 5 build configurations, API and command line.')

p('C10', 'ELF files are decoded exactly',
  '''For 32 and 64 bit ELF files of either byte order every section header and symbol is decoded with exactly the name and fields stored in the file, and the contents of a section are the bytes at
  its offset. A file that is not ELF, names an unknown class or byte order, or is too short for what it announces is refused with an ELF error and never read as something else.''',
  ['inputs'], 'all field values, names and byte orders; truncation at about 30 lengths',
  TESTS + 'They contain small-endian 32 bit executables only.',
  [S + 'elf.py'], [('ELF reader', S + 'elf.py')], ['decoded sections and symbols'],
  '2 (thorough 3) sections and symbols with all fields symbolic over their full width.')

p('C11', 'Debug information is decoded and names the unit of every symbol',
  '''Every attribute form of DWARF 2 to 5 is decoded with its exact length and value, in both byte orders and offset sizes, so that what follows is read correctly; variable-length numbers have
  the value the standard defines, with sign. A symbol is attributed to the compilation unit that has a function or variable at its address, also through abstract origins in the same or another unit, and to none if
  there is none.''',
  ['inputs'], 'all payload bytes of all forms within the bounds, all addresses',
  TESTS + 'None of them decodes debug information.',
  [S + 'elf.py'], [('DWARF reader', S + 'elf.py')], ['unit names of symbols', 'variable-length numbers'],
  'All forms but indirect and addrx (loclistx and rnglistx: length only); LEB128 of up to 5 (thorough 8) bytes.')

p('C12', 'Comparing two projects reports every entry of either one exactly',
  '''Comparing two projects yields exactly the entries that occur in either project, at every level; the size of each is that of the current project (0 if it is not there) and the difference is
  the current minus the reference size. The same holds for image size and region totals, chips and paths of both are kept, and neither compared memory map is changed.''',
  ['inputs'], 'all pairs of memory maps within the bounds', TESTS + 'They compare fixed pairs.',
  [S + 'memorymap.py'], [('comparison', S + 'memorymap.py')], ['memory map'],
  'Up to 2 entries at one level on either side, names chosen symbolically, sizes symbolic.')

p('C13', 'Unification merges entries of one short name and loses nothing',
  '''After unification there is exactly one entry per short name at each place (sections, archives, object files, symbols of a memory type), its sizes and differences are the sums over the entries it stands for, and
  entries of different short names or places are never mixed. Memory types, totals and metadata stay as they were, and unifying again changes nothing.''',
  ['inputs'], 'all memory maps within the bounds', TESTS + 'No test checks sums after unification.',
  [S + 'memorymap.py'], [('unification', S + 'memorymap.py')], ['memory map'],
  'Up to 3 entries per level, several sharing a short name by symbolic choice.')

p('C14', 'Per-archive, per-file and per-symbol summaries account for everything',
  '''In the per-archive, per-file and per-symbol summaries every archive, object file or symbol (of the chosen archive) appears exactly once, with its total, its size in each memory type and its size in each section
  equal to what the memory map holds for it, differences included. For a comparison without unchanged entries, those that changed are reported and those that did not are omitted; an unknown archive is refused with an error.''',
  ['inputs'], 'all memory maps within the bounds, with and without unification and comparison',
  TESTS + 'They compare fixed reports.',
  [S + 'memorymap.py'], [('summaries', S + 'memorymap.py')], ['summary dictionaries'],
  'Up to 3 archives / 2 object files / 2 symbols per parent, 2 types, 2 sections, names and sizes symbolic.')

p('C15', 'Options that restrict a report remove exactly what they name',
  '''Hiding unused entries drops exactly the memory types without used bytes and the sections without contents and keeps all others unchanged; a report of one level drops exactly the deeper levels (for one archive: the other archives) and leaves every figure of the
  remaining ones. Hiding unchanged entries of a comparison drops an entry whose size did not change together with all below it, but never one whose size changed
  within entries that are kept, and keeps none with no change in it; ignoring the flash size clears the totals of flash memory types only.''',
  ['inputs', 'configurations'], 'all memory maps within the bounds and option combinations',
  TESTS + 'They compare fixed reports.',
  [S + 'memorymap.py'], [('trimming and removal', S + 'memorymap.py')], ['memory map'],
  'Up to 2 entries per level with symbolic sizes.')

p('C16', 'Reports are ordered by the chosen figure',
  '''Rows of table and CSV reports (memory types, sections within a type, archives, files, symbols) are ordered by the figure of the chosen column, given by number, negative number or name, in the chosen
  direction, by the difference if asked; ordering never changes, drops or adds a figure. JSON and tree reports and the sorted memory map are ordered by size (or difference) at every level, and a column that does not exist is
  refused with an error.''',
  ['inputs', 'configurations'], 'all sizes, columns and directions within the bounds', TESTS + 'They compare fixed reports sorted one way.',
  [S + 'memorymap.py', S + 'format_table.py', S + 'format_csv.py'], [('sorting', S + 'memorymap.py')], ['report rows'],
  '3 rows per report with symbolic sizes, every column and direction.')

p('C17', 'Filters keep exactly the matching entries',
  '''A filtered report keeps exactly the archives, files or symbols whose name as shown (short or full) contains a part that matches at least one of the given shell patterns, case included, with *, ? and [...] in their usual meaning; kept
  entries keep their figures. A dependency filter keeps the matching archives with all their dependencies, and without a filter nothing is dropped.''',
  ['inputs'], 'all names and patterns within the bounds', TESTS + 'They use one or two patterns.',
  [S + 'memorymap.py', S + 'deps.py', S + 'format_dot.py'], [('filters', S + 'memorymap.py')], ['filtered reports'],
  'Patterns of up to 4 (thorough 5) and names of up to 2 (thorough 3) symbolic characters.')

p('C18', 'Every report format shows the figures of the memory map',
  '''Table, CSV, tree, JSON, raw and DOT reports show for every memory type, section, archive, file, symbol and dependency exactly the name and figures (used, remaining, total, percentage, difference, image size) of the memory map, whichever options
  are given. CSV, JSON and DOT output is well-formed and names are shown literally, whatever brackets, quotes or blanks they contain.''',
  ['inputs', 'configurations'], 'all sizes, formats and option combinations within the bounds; odd names',
  TESTS + 'They compare stored reports of a few builds.',
  [S + f for f in ('format_table.py', 'format_csv.py', 'format_tree.py', 'format_json.py', 'format_raw.py', 'format_dot.py', 'deps.py')],
  [('formatters', S + 'format_*.py')], ['report text'], 'Projects of 1 to 4 input sections with symbolic sizes; every figure in the text is decoded and compared.')

p('C19', 'The output file holds the whole report or is left alone',
  '''Written to a file, a report is exactly what it would be on a non-terminal standard output, without control codes, and nothing of it goes to standard output. If anything fails before the report is complete, the file is neither
  created nor changed. Every failure ends with a non-zero exit status and a message, never with a partial report that looks like success.''',
  ['fault_sequences', 'inputs', 'configurations'], 'failures by bad input or options, or at any of the first calls of the terminal library, sizes symbolic',
  TESTS + 'They do not inject failures while a report is rendered.',
  [S + 'main.py', S + 'log.py'], [('buffered output', S + 'main.py')], ['output file', 'exit status', 'standard output'],
  '14 kinds of failing input, failures at any of the first 8 rendering calls.')

p('C20', 'Executable, chip and description belong to the analysed map file',
  '''The project description beside a map file is used exactly when the executable it names has the same base name as the map; then the chip and the executable come from it, found relative to the map file however it is named and wherever the
  project was moved, otherwise from the map alone. A missing or unreadable executable never prevents the report, a chip that nobody names is an error, and objects handed in by the caller are used instead of own ones. In a comparison each project
  comes with its own executable and chip.''',
  ['configurations', 'inputs'], 'map and executable names of the scenario, presence of each file, sizes symbolic',
  TESTS + 'They use complete build directories only.',
  [S + 'memorymap.py', S + 'main.py'], [('project description and ELF lookup', S + 'memorymap.py')], ['memory map'],
  '3 map names x 9 executable names, all presences, through API and command line.')

p('C21', 'A report is a function of its input files',
  '''The same input files and options give the same report byte for byte, whatever the hash seed, the iteration order of unordered collections, and whatever was analysed before in the same process. No public operation shares mutable state between
  results: working on one memory map or its copy never changes another, and making a summary or a list of
  dependencies of a memory map leaves it as it is.''',
  ['schedules', 'histories'], 'all iteration orders of unordered collections within the bounds, sequences of two analyses',
  TESTS + 'They run each analysis once with one seed.',
  [S + 'memorymap.py', S + 'deps.py', S + 'mapfile.py'], [('ordered collections, copies', S + 'memorymap.py')], ['reports', 'memory maps'],
  'Iteration order of sets is a symbolic permutation of up to 4 elements; two analyses in a row.')

TECH = 'symbolic execution of the real source (proxy values + instrumented AST, regenerated every run), claims decided by Z3, counterexamples replayed'
NOTE = ('Bounded: holds for every value of the symbolic inputs within the bounds of the scenarios; trusts the engine\'s models of built-in types, '
        're, struct and mmap, which are validated each run by replaying sampled paths on the unmodified code. ')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                            'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                            'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']],
                                        'observe_at': q['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': q['id'], 'level': 'model_checking', 'technique': TECH, 'level_note': NOTE + q['note'],
                   'quick_cmd': f'python3-vt /verif/vf/check.py {q["id"]} --tier quick',
                   'thorough_cmd': f'python3-vt /verif/vf/check.py {q["id"]} --tier thorough'} for q in P if q['claim']],
       'not_applicable': [{'property': q['id'], 'reason': 'check under construction'} for q in P if not q['claim']]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
for q in P:
    assert len(q['title']) <= 80, q['id']
