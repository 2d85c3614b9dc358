"""Writes /verif/properties.jsonl (kept as a program only so that the text is
readable and diffable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
S = 'src/acetimetools/'
TR, EX, AR, GO, CM = (S + 'transformer/transformer.py', S + 'extractor/extractor.py', S + 'transformer/artransformer.py',
                      S + 'transformer/gotransformer.py', S + 'transformer/commenter.py')
GA, GC, GG, GP, GJ, GZ = [S + 'generator/%s.py' % x for x in ('argenerator', 'cgenerator', 'gogenerator', 'pygenerator', 'jsongenerator', 'zonelistgenerator')]
BU, TC, BE, ZI, AT = S + 'generator/byteutils.py', S + 'tzcompiler.py', S + 'bufestimator/bufestimator.py', S + 'bufestimator/zone_info_inliner.py', S + 'datatypes/attyping.py'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe if isinstance(observe, list) else [observe]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


T = 'The 24 unit tests call a handful of helper functions on a handful of literals; nothing runs the compiler end to end. '

p('P01', 'Generated database gives the same local time as the TZ source',
  'For every zone that is emitted, interpreting the generated database by the TZ rules gives, at every instant of the years declared accurate (in tables with one-byte years: of those that one byte can express together with the year before), the same UTC offset, DST status and abbreviation as interpreting the original TZ source text, whenever the requested granularity represents all the values of that zone exactly.',
  ['inputs', 'configurations'], 'every TZ source tree, scope, year range and zone emitted from it; every instant of the accurate interval; every output language',
  T + 'The quantifier is over source databases times instants; the tests contain no instant at all.',
  [TR, EX, GP, GA, GC, GG], [('era and rule selection', TR + ': _remove_zone_eras_too_old.._create_rules_with_anchor_transition'), ('field emission', GP + ', ' + GA + ', ' + GC + ', ' + GG)],
  'generated zone_infos/zone_policies files')
p('P02', 'Zone eras selected are exactly those the year range needs',
  'For every emitted zone, the eras emitted are exactly the contiguous run of source eras which can be in force in a requested range widened by one year on both sides, in source order, with every field equal to the source value (truncated to the granularity). The last one ends at the "forever" sentinel, strictly increasing end times are guaranteed, and a zone whose end times do not increase or which cannot reach the sentinel is rejected with that reason.',
  ['inputs', 'configurations'], 'every zone of every source tree, every [start, until) range and scope',
  T + 'Boundary years (until == start-1, start of era == until+1) never occur in a test.',
  [TR], [('too-old / too-new era filters', TR + ': _remove_zone_eras_too_old, _remove_zone_eras_too_new, _extend_zone_eras_until'), ('monotonic UNTIL', TR + ': _remove_zones_with_non_monotonic_until')], 'era lists in every generated database')
p('P03', 'Rules selected are exactly those in the window plus the latest prior ones',
  'For every emitted policy, the emitted rules (besides the synthetic initial one) are exactly the source rules whose years overlap the requested range widened by one year on both sides, plus all rules sharing the single latest (final year, month) before that range, in source order and with every field equal to the source value. A policy no emitted or considered zone uses is dropped as unused, and one left without any rule is dropped with that reason.',
  ['inputs', 'configurations'], 'every policy of every source tree and every [start, until) range',
  'Two tests call the interval helpers on four literal rules; the selection over whole policies and its effect on output is never run.',
  [TR], [('rule window filter', TR + ': _remove_rules_too_old_or_new, compare_rule_to_interval, find_latest_prior_rules'), ('unused policies', TR + ': _remove_unused_policies')], 'rule lists in every generated database')
p('P04', 'Every policy starts with a correct initial standard-time rule',
  'Every emitted policy begins with exactly one synthetic rule effective from the beginning of time (year sentinel, 1 January 00:00 wall, zero save) whose letter is that of the chronologically earliest kept standard-time rule, and all the other kept rules stay in place and unchanged. When no kept rule has zero save, the letter is that of the earliest standard-time rule of the source policy (none if it has none), and every kept rule still stays.',
  ['inputs', 'configurations'], 'every policy kept from every source tree and year range, whatever the order of its rule lines',
  T + 'No test builds an anchor rule.',
  [TR], [('anchor rule', TR + ': _create_rules_with_anchor_transition, _get_anchor_rule, _convert_to_anchor')], 'first rule of each policy in generated files')
p('P05', 'Source text is read with TZ syntax, independent of layout',
  'Rule, Zone and Link lines of a well-formed source are read by the meaning of their fields alone: comments, blank lines, trailing and repeated white space, month names of any length or case with an unambiguous first three letters, order of blocks and files, and continuation lines change nothing in the generated database, while any change to a field does. Default end-of-era fields are 1 January 00:00 wall time, omitted time-of-day suffixes mean wall time, and "only" and "max" mean the first year and forever.',
  ['inputs'], 'every TZ source text and every meaning-preserving re-layout of it',
  'Tests parse a few month names and AT strings; no file is ever parsed.',
  [EX], [('line reader', EX + ': _read_line, _parse_zone_file'), ('field parsers', EX + ': _process_rule_line, _process_zone_line, month_to_index, parse_at_time_string')], 'generated databases for re-laid-out sources')
p('P06', 'Every input zone, link and policy is emitted or explained; references close',
  'Every zone, link and policy of a well-formed source ends up either emitted or in the removed list with at least one reason, never both and never neither, on every surface that lists them. Every emitted link points at an emitted zone and every policy referenced by an emitted era is emitted. The extended and complete scopes never lose anything: if some zone or link not excluded by the include list would be dropped they fail instead of producing output.',
  ['inputs', 'configurations'], 'every source tree, scope, year range and include list',
  T + 'Accounting is a whole-run property; no test runs the pipeline.',
  [TR, CM, GP, GJ], [('removal bookkeeping', TR + ': add_comment/merge_comments in every filter'), ('closure', TR + ': _remove_zones_without_rules, _remove_links_to_missing_zones, _verify_zones_and_links_count')], 'json dump and removed lists of every language')
p('P07', 'The basic scope keeps exactly the zones its processor can handle',
  'In the basic scope a zone or policy is dropped exactly when it has an end of era with month, day or time, a fixed-offset RULES entry, an end-of-era suffix other than wall time, two transitions of one policy in the same month of a year, or a transition day which can be the first of January (1, Xxx>=1, Xxx<=7); nothing with such a feature is emitted, nothing is dropped for lack of it, and the reason given names the feature.',
  ['inputs', 'configurations'], 'every source tree and year range in scope basic',
  T + 'No test exercises a basic-only filter.',
  [TR], [('basic filters', TR + ': _remove_zone_with_non_simple_until_year, _remove_policies_multiple_transitions_in_month, _remove_policies_with_border_transitions')], 'scope=basic databases')
p('P08', 'Structural faults abort the run before any file is written',
  'Two names with the same 32-bit id, two names that map to the same symbol, a link to a link, an empty or malformed abbreviation format, a "%s" format without rules, or a requested range too early for the scope or too wide for one-byte years (which must hold the year before the first one too) make the run end with a non-zero status and leave the output directory untouched, and an input free of such faults is never rejected for them.',
  ['inputs', 'configurations'], 'every source tree containing (or not containing) such a fault, anywhere in it',
  T + 'Failing whole runs are never executed.',
  [TR, TC], [('sanity checks', TR + ': _detect_hash_collisions, _detect_links_to_links, _detect_zones_and_links_with_similar_names'), ('format checks', TR + ': _remove_zones_with_invalid_rules_format_combo'), ('scope bounds', TC + ': main')], 'exit status and output directory')
p('P09', 'Zone ids are the stable hash of the name and registries are complete',
  'Every emitted zone and link has as id the 32-bit djb2 hash of its full name, identical in every language and never zero, so that ids stay the same across releases and configurations. Registries hold every emitted zone (and every link, in the combined registry) exactly once, ordered by id where the consumer binary-searches and by name otherwise, with sizes that match.',
  ['inputs', 'configurations'], 'every set of zone and link names, every language and configuration',
  'One test hashes two or three strings; no registry or id table is inspected.',
  [TR, GA, GC, GG, GP], [('ids', TR + ': hash_name, _generate_zone_ids, _generate_link_ids'), ('registries', GA + ': generate_registry_cpp; ' + GC + '; ' + GG + '; ' + GP)], 'compiled registries')
p('P10', 'Declared truncation flags and accurate-year bounds are truthful',
  'A zone, and the database, is declared truncated below (above) exactly when a source era or a rule of a referenced policy was dropped for being too old (too new); the accurate-year interval equals the requested one on truncated sides and is unbounded on the others. The original and generated year ranges reported are the true minimum and maximum of the years in the source and in the emitted records, and all languages report the same values.',
  ['inputs', 'configurations'], 'every source tree and year range',
  T + 'Flags exist only in whole-run output.',
  [TR, AT], [('flags', TR + ': _update_truncation_status, _calc_accurate_years, _detect_tzdb_years')], 'json dump, zone contexts and headers')
p('P11', 'Granularity and strictness are honoured for every time field',
  'Every emitted end-of-era, transition, standard-offset and save value is the source value truncated toward zero to the granularity in force for that kind of field; in strict mode a zone or policy with a value that truncation would change is dropped with a reason naming the value, and in non-strict mode it is kept and every such truncation is noted. Unparsable, negative where not allowed, or too large values are dropped with a reason and never altered.',
  ['inputs', 'configurations'], 'every field value, every granularity option (including the overall override), strict or not, every scope',
  'One test truncates a few integers; flags and fields are never combined.',
  [TR, TC], [('truncation', TR + ': truncate_to_granularity and the _create_*_expanded_* filters'), ('flag precedence', TC + ': main')], 'field values in generated databases')
p('P12', 'One-byte years keep their meaning over the whole range',
  'In databases with one-byte years, every from, to and until year decodes (base year plus byte, with the reserved bytes meaning minus and plus infinity) to the emitted year when it is representable and otherwise saturates to the nearest infinity; the sentinels stay distinct, and no finite year turns into a sentinel that would change what is in force during the requested years. Ranges that do not fit, counting the year before the first, are refused.',
  ['inputs', 'configurations'], 'every year from minimum to maximum, every base year, every requested range',
  'A test checks a dozen literal years with one base year.',
  [TR, GA, GC], [('tiny years', TR + ': is_year_tiny, to_tiny_from_to_year, to_tiny_until_year')], 'int8 year fields of compiled basic/extended tables')
p('P13', 'Arduino/C++ output compiles and encodes the database exactly',
  'The generated C++ files compile without narrowing or undefined behaviour against the runtime field widths, and walking the compiled tables under sanitizers and decoding the documented encodings yields exactly the compiled database: contexts, policies, rules, eras, zones, links, ids, buffer sizes and registries. Headers can be included in any order and more than once, and two databases of different namespaces work in one program.',
  ['inputs', 'configurations'], 'every database and scope, with or without name compression, tiny or full years',
  'Tests check two string helpers; no generated C++ is ever compiled.',
  [GA, AR], [('encodings', AR + ': _process_rules_*, _process_eras_*'), ('files', GA + ': generate_*')], 'compiled and executed zone tables')
p('P14', 'C output compiles and encodes the database exactly',
  'The generated C files compile without narrowing or undefined behaviour against the runtime field widths for every scope, and walking the compiled tables under sanitizers and decoding the documented encodings yields exactly the compiled database: context, policies, rules, eras, zones, links, ids, buffer sizes and registries, all under the requested symbol prefix. Headers can be included in any order and more than once, and two databases of different prefixes work in one program, written in C or C++.',
  ['inputs', 'configurations'], 'every database, scope and namespace, with or without name compression',
  'No test touches the C generator.',
  [GC, AR], [('encodings', AR + ': _process_rules_*, _process_eras_*'), ('files', GC + ': generate_*')], 'compiled and executed zone tables')
p('P15', 'Go output compiles and its binary tables decode to the database',
  'The generated Go package compiles, and decoding its little-endian binary strings through its own offsets, indexes and counts yields exactly the compiled database; the plain records emitted next to them decode to the same values and the generated self-test compares all four tables with them. Chunk sizes, string tables and declared counts agree with the data, and links refer to their target by index.',
  ['inputs', 'configurations'], 'every database; every scope in which every value is representable',
  'Tests check byte helpers on literals; no Go file is compiled.',
  [GG, GO, BU], [('indexes', GO + ': GoTransformer.transform'), ('tables', GG + ': _generate_*')], 'compiled Go package')
p('P16', 'Python output loads and equals the database',
  'The generated Python modules import cleanly and contain exactly the compiled database: policies with their rules, zones with their eras, links with their target, the two registries and the context constants, with unabbreviated field values.',
  ['inputs', 'configurations'], 'every database and scope',
  'No test touches the Python generator.',
  [GP], [('modules', GP + ': _generate_*')], 'imported generated modules')
p('P17', 'JSON dump and zone list are complete and consistent',
  'The JSON dump is valid, holds every context value, count, zone, link, policy, removed and notable entry of the run under the requested file name, and agrees with the generated source files of the same run; the zone list names exactly the emitted zones, sorted, one per line.',
  ['inputs', 'configurations'], 'every database, scope and set of actions',
  'No test touches these generators.',
  [GJ, GZ, TC], [('serialisation', GJ + ': JsonGenerator.generate_files, serialize_sets; ' + AT + ': create_zone_info_database'), ('list', GZ)], 'json and zones.txt files')
p('P18', 'Name, letter and format tables are lossless',
  'Expanding the emitted fragment references gives back every zone and link name exactly, and following every letter and format reference gives back the source letter and format, with compression on or off; tables have no duplicates, fit their index type, and every fragment that repeats often enough (and only those) is compressed. Too many fragments are refused rather than emitted.',
  ['inputs', 'configurations'], 'every set of zone and link names, letters and formats',
  'Two tests compress or render one literal name each.',
  [AR, GA, GC, GO], [('fragments', AR + ': _generate_fragments, _compress_name'), ('letters and formats', AR + ': _collect_letter_strings, _collect_format_strings'), ('escaping', GA + ': compressed_name_to_c_string')], 'strings in compiled tables')
p('P19', 'Generation is deterministic and languages are independent',
  'The same source and options always produce byte-identical files, whatever the hash seed, process, output directory content or number of repetitions, and what is generated for one language is the same whether or not other actions, or other languages with different file names, are requested in the same run (apart from the recorded command line).',
  ['inputs', 'configurations', 'histories'], 'every source tree, every option set, every subset of languages and actions, every interpreter hash seed, every repetition',
  'Tests run once in one process with one seed and generate nothing.',
  [TC, TR, CM, GA, GC, GG, GP, GJ], [('reason sets', AT + ': add_comment; ' + GA + ': render_comments_map'), ('shared result object', TC + ': main')], 'bytes of all generated files')
p('P20', 'An include list yields exactly the restriction of the full database',
  'With an include list, exactly the listed zones and links are considered, each zone is emitted with the same content as in the full run, everything else is reported as missing from the list, and an empty list means everything. Comments, blank lines and surrounding white space in the list are ignored, and ids, original year range and name-clash checks do not depend on it.',
  ['inputs', 'configurations'], 'every subset of the names of every source tree',
  'No test uses an include list.',
  [TC, TR], [('reading', TC + ': read_include_list'), ('filter', TR + ': _filter_include_zones, _filter_include_links')], 'databases generated with include lists')
p('P21', 'Buffer sizes are the true maxima over the years examined',
  'The buffer size reported for each zone is the maximum reported by the zone processor over every year from one before to one after the covered range, with the first year where it occurs, and the overall maximum is the largest of them; stopping early never misses a larger value. A size above the runtime limit aborts the run unless explicitly ignored, and skipping estimation leaves neutral values.',
  ['inputs', 'configurations'], 'every database, year range and zone-processor behaviour consistent with its terminal-year contract',
  'No test covers the estimator; its processor dependency is not even installed.',
  [BE, ZI], [('scan', BE + ': _find_max_buffer_sizes, _calculate_buf_sizes_per_zone'), ('inlined database', ZI)], 'buffer sizes in generated files; calls seen by the zone processor')
p('P22', 'Day expressions resolve to the true calendar day',
  'Every day expression (day number, last weekday, weekday on or after, weekday on or before) resolves for every month and year to the calendar day it denotes, spilling into the neighbouring month when needed, and malformed expressions or day numbers outside 1 to 31 are reported as invalid and never resolved. End-of-era days and rule days in the output equal those days, and rule days that could spill over a year end (and only those) are refused.',
  ['inputs'], 'every weekday, day number, month and year from 1 to 9999, every expression string',
  'Tests check about a dozen literal dates.',
  [TR], [('parse and resolve', TR + ': _parse_on_day_string, calc_day_of_month, _days_in_month'), ('use', TR + ': _create_zones_with_until_day, _create_rules_with_on_day_expansion')], 'helper results; untilDay and onDay fields')
p('P23', 'Time strings and truncation arithmetic are exact',
  'A time string of up to 25 hours with optional sign, minutes and seconds converts to exactly the seconds it denotes, any other string is reported as invalid, and splitting and joining hours, minutes and seconds are inverse. Integer division and truncation round toward zero for both signs and never increase magnitude, and the textual form of a truncated value denotes it.',
  ['inputs'], 'every time string and every integer in and beyond the range of the data',
  'Tests check a few literals.',
  [TR], [('arithmetic', TR + ': time_string_to_seconds, div_to_zero, truncate_to_granularity, seconds_to_hms, hms_to_seconds, seconds_to_hm_string')], 'helper results and emitted values')
p('P24', 'Binary writers are exact little-endian encoders that reject overflow',
  'Every integer writer appends exactly the little-endian (two\'s complement for signed) bytes of the value for every value its width can hold, and refuses every value it cannot hold without writing anything; the textual hex and string renderings decode back to the same bytes.',
  ['inputs'], 'every integer around and across the limits of every width; every byte string',
  'Tests write a few literals per width and miss the limits.',
  [BU, GG], [('writers', BU + ': write_u8..write_i32, hex_encode'), ('rendering', GG + ': convert_to_go_string')], 'bytes produced')
p('P25', 'Removal and notability comments are truthful and reach every language',
  'The reasons listed for every removed or notable zone, policy and link are exactly those the source and options justify, each naming the actual offending value, and zones inherit the notes of each policy they use. Every language lists the same names with the same reasons, under headings whose counts match the lists.',
  ['inputs', 'configurations'], 'every source tree and option set',
  T + 'Comments are never inspected.',
  [TR, CM, GA, GC, GG, GP], [('merging', CM + ': _create_merged_comments_map'), ('rendering', GA + ': render_comments_map, render_merged_comments_map')], 'comment sections of generated files; json')
p('P26', 'Header counts and memory figures describe the generated files',
  'The version, requested and accurate years, counts of zones, links, policies, eras, rules, letters, formats and fragments, buffer size and per-section memory figures written in file headers, contexts and section headings equal the values recomputed from the tables actually emitted in that file, in every language.',
  ['inputs', 'configurations'], 'every database, language and option set',
  T + 'No header is inspected.',
  [GA, GC, GG, GP, AR, AT], [('headers', GA + ': _generate_header; ' + GC + '; ' + GG + '; ' + GP), ('memory', AR + ': _generate_memory_map'), ('counts', AT + ': create_zone_info_database')], 'headers of generated files')
p('P27', 'Links behave exactly as their target zone',
  'Every emitted link has its own name and id but shares the eras, rules and therefore local times of the zone it names in the source, in every language, and identifies that zone as its target; resolving a link never yields another zone and zones never have a target.',
  ['inputs', 'configurations'], 'every link of every source tree in every language',
  T + 'No link is ever generated in a test.',
  [GA, GC, GG, GP, GO], [('link items', GA + ': _generate_link_item; ' + GC + '; ' + GG + '; ' + GP)], 'compiled link records')
p('P28', 'Values that do not fit a field are refused, never wrapped',
  'No emitted numeric literal or byte exceeds the width of the field it initialises: offsets, saves, years, times, indexes, counts and sizes outside their field make the run fail or the item be dropped with a reason. Values on the last representable step are accepted and decode exactly.',
  ['inputs', 'configurations'], 'every value around every field limit, in every language and scope',
  T + 'Limits of whole-run fields are never approached.',
  [AR, GO, GG, BU, TR], [('range checks', AR + ': _process_rules_delta, _process_eras_stdoff_delta; ' + TR + ': 8-bit and 4-bit checks; ' + BU)], 'exit status and compiled tables')
p('P29', 'The wrapper scripts copy, tag and clean up exactly as documented',
  'Copying a TZ version into a directory yields the zone files of exactly that version (or of the working tree when no version is asked) and refuses an existing target without touching it or the source checkout. The compile wrapper compiles exactly the requested version with the options given, records that version, and removes the temporary directory it made, and nothing else, whether or not compilation succeeds.',
  ['inputs', 'configurations', 'fault_sequences'], 'every tag, checkout state, argument list and failure of the inner compiler',
  'No test runs a shell script.',
  ['copytz.sh', 'tzcompiler.sh', TC], [('copy', 'copytz.sh'), ('wrapper', 'tzcompiler.sh'), ('version number', AT + ': create_zone_info_database')], 'directories and generated files after the scripts end')
p('P30', 'Command-line options take effect exactly and only where documented',
  'Every documented option has its documented default and effect: actions select exactly which kinds of files are written, languages which language files, output directory and file name where, namespace which symbols, and scope which defaults; every written file is complete. Unknown values are rejected with a non-zero status before anything is written.',
  ['configurations'], 'every combination of actions, languages, scope, namespace, file names and directories',
  'No test runs the command line.',
  [TC], [('options', TC + ': main, generate_zonedb, generate_json, generate_zonelist')], 'files written and exit status')
p('P31', 'Failing reads and writes are never passed over',
  'Exit status 0 means that every source file and the include list was read to its end and that every requested file was written in full. When one of the zone files or the include list is missing, unreadable or not decodable the run ends with a non-zero status before any output is written; when an output file cannot be opened or cannot be written to its last byte (full device, size limit, missing directory) the run ends with a non-zero status.',
  ['inputs', 'fault_sequences'], 'every input and output file of every run, failing at its start, in the middle or at the last byte',
  'No test runs the command line and none injects a fault.',
  [TC, 'src/acetimetools/extractor/extractor.py', GA, GC, GG, GP], [('reading', 'src/acetimetools/extractor/extractor.py: the loop over ZONE_FILES; ' + TC + ': read_include_list'), ('writing', GA + '; ' + GC + '; ' + GG + '; ' + GP + ': generate_files')], 'exit status and files on disk')

with open(OUT, 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
