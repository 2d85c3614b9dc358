"""Write DESIGN.md from the parts below (the planted-bug table comes from seeded/)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Runtime monitoring of acetimetools

The system is a batch compiler: TZ source text in, generated databases (C++, C,
Go, Python, JSON, text) out.  There is no concurrency and no native code in the
repository itself, so race detectors have nothing to watch; the native part of
the product is the *generated* C++/C/Go, which is compiled and executed under
AddressSanitizer / UndefinedBehaviorSanitizer (C, C++) and built, vetted and run
(Go).  Everything else is decided by behavioural monitors over recorded
executions of the real command line.

    workload (real TZDB x options, hostile synthetic TZDB, exhaustive sweeps)
      -> real tzcompiler.py, run as __main__ in a forked child (vt/run.py records
         argv, exit status, exception, log, and every file produced; a child that
         hangs is "inconclusive", never "held")
      -> decoders (vt/decode_*.py): import the generated Python, compile and run
         the generated C/C++ with -Werror=narrowing/conversion-class errors under
         ASan+UBSan, build and run the generated Go, parse JSON, headers, comments
         => one canonical event record per table entry, language independent
      -> oracles: vt/model.py (reference specification of what each record, each
         removal reason, each flag and count must be, written from the TZ file
         format and the documented filters, with its own parser, calendar and
         hash); vt/interp.py (interpreter of the TZ rules, cross-validated against
         zic); vt/engine.py (comparison, header and memory arithmetic)
      -> discrepancies (aspect, surface, detail).  vt/checks.py says which aspects
         each property speaks about; a check reports those, with a replay file.

A run has three verdicts.  Exit 0: held on everything explored.  Exit 1: a
VIOLATION line with the replay file (`check.py P01 --replay FILE` runs just that
case again).  Exit 2: a case stayed inconclusive after a retry, or a counter that
the property needs stayed at zero (`NEED` in vt/checks.py), so that an empty
workload is never reported as held.

No check looks at the text of the sources or at internal data structures: only
outputs of the command line and of the small helper functions the existing unit
tests import as well (`vt/sweeps.py`; one that is not there any more is skipped
and listed in the evidence, since its effect is judged through the outputs too).
Header layout, order of reasons, C identifiers of private tables and the like
are tolerated.  No hooks in /repo are needed.

`acetime` (the run-time library whose zone processor the buffer estimator drives)
is not installed here.  `stubs/acetime` is a monitor in its place: a zone
processor which derives a deterministic size from *every* field of the zone and
year it is given, records what it was asked, and stops early by the same rule as
the real one.  The same function evaluated by the oracle on the reference records
gives the expected sizes, so a wrong field, year range or early stop changes them.

Randomness: everything derives from VERIF_SEED; PYTHONHASHSEED is fixed to 0 (and
varied on purpose by P19).  Directories are under /dev/shm or /tmp, scratch only.

## How each property is decided

Common to all engine checks: sources are either the two real TZDB texts (main and
rearguard form, `vt/tzdata.py` rebuilds them from data committed here) or synthetic
ones from `vt/gen.py` (odd names and symbols, negative and sub-hour saves, years
around both ends of the requested range, far years, rules sharing a month, all day
expressions, zones without an endless era, missing policies, ...) in a plain or
hostile layout.  "CHEAP" surfaces are Python + JSON + zone list (about 30 ms a
case), "all" adds C++, C and Go (about 1 s a case on one core).  Quick runs take
10-70 s on 8 cores, thorough ones up to 13 min (VT_BUDGET seconds).

'''

ROWS = [
 ('P01', 'Local-time oracle (workloads include eras and rules on the edges of months, years and days): source text and each decoded database are both interpreted by vt/interp.py into step functions; they must agree on (offset, DST, abbreviation) at every instant of the declared accurate years.',
  'mixed workload, all surfaces for 40 cases; only zones whose values are exactly representable; window to max(until+40, 2120); one-byte tables from base-125.',
  'tests compare a few hand-written records, never local time.'),
 ('P02', 'Reference selection of eras, field by field (`era:*`, `eras:list`), removal reasons, and refusal in the loss-free scopes.',
  'ranges placed within six years of every era end, finite zones, non-increasing ends differing only by year, month, day or time.', 'boundary years and multi-era combinations are unbounded.'),
 ('P03', 'Reference selection of rules incl. all latest-prior ties, order and fields; unused/empty policies.', 'policies of up to 14 rules around the range; unreferenced policies.', 'ties and prior rules depend on the whole rule set.'),
 ('P04', 'First record of each policy equals the reference anchor; the rest equals the kept rules.', 'std share 0..0.9, same-month ties with different letters, DST-only policies.', 'depends on chronological order of day expressions.'),
 ('P05', 'Own reader of TZ syntax on the hostile layout; any record difference or missing name is reported.', 'tabs/blanks, comments glued to fields, month spelling and case, rules spread over files and between blocks; plus month-table sweep.', 'layout is an input dimension no test varies.'),
 ('P06', 'Partition {emitted, removed-with-reason} over every input name on every surface, closure of references, count check in loss-free scopes.', 'mixed + include lists + unparsable fields in all scopes.', 'conservation over whole databases.'),
 ('P07', 'Reference predicate "has an unsupported feature" (iff), and the reason that names it.', 'plain databases with exactly one feature planted near the border of being one; real TZDB with many ranges.', 'both directions of the iff need many inputs.'),
 ('P08', 'Required refusals: exit status, and directory snapshots (output directory pre-filled with older files in half of the runs) unchanged.', '14 kinds of fault x 3 scopes, zone/link in every role, near-misses must pass.', 'fault x role x scope product.'),
 ('P09', 'Own djb2 over every name, on every surface; registries compared as sequences; function sweep over all TZDB names and random ones.', 'all languages; colliding and zero-hash names constructed (meet in the middle).', 'ids of every name, order by unsigned id.'),
 ('P10', 'Reference flags and year bounds, compared in context records, JSON and every header.', 'ranges at every distance from the data; only-policy and only-era truncation.', 'all truncation combinations.'),
 ('P11', 'Reference truncation per kind of field, reasons and notes compared as sets, per-field granularities independent.', 'granularity options in all combinations, odd/invalid values at one field.', 'values x granularity x strictness.'),
 ('P12', 'C/C++ tables decoded with the documented bytes equal the saturated reference; local time of the byte tables equals the source; exhaustive sweep of the year functions.', 'base years such that range ends hit -126/+125 and just beyond.', 'tests check a handful of years.'),
 ('P13', 'Compile (C++17, narrowing and conversion warnings as errors, ASan+UBSan) a walker over the emitted tables through the real field widths, decode, compare everything. Pairs of databases with different namespaces are compiled, linked and run as one program that includes every header twice in random order.', 'real TZDB x options, 260 synthetic databases, limits, 60 pairs.', 'tests never compile the output.'),
 ('P14', 'Same for C (C11), all three scopes, random symbol prefixes.', 'same.', 'same.'),
 ('P15', 'go vet/build of the package plus a generated reader: binary strings, chunking, counts, string tables decoded and compared; the self-test records compared too.', 'same, plus 16-bit boundary databases.', 'same.'),
 ('P16', 'Generated modules imported in a fresh interpreter and walked.', '700 synthetic + real.', 'same.'),
 ('P17', 'JSON parsed strictly (duplicate keys, constants), every member compared with the reference; zones.txt likewise.', 'random file names incl. sub-directories, versions, include lists.', 'whole-file consistency.'),
 ('P18', 'Decompression in compiled code of every name; letters and formats through their indexes; tables compared as sets, thresholds from the reference.', 'nested and look-alike components, counts on both sides of the threshold, 28..40 fragments, 253..257 letters; C-literal sweep.', 'any name set.'),
 ('P19', 'Byte comparison of repeated runs: fresh interpreters with different hash seeds, into full/used directories, and subsets of languages and actions.', '22 scenarios of about 12 runs.', 'needs several processes.'),
 ('P20', 'Reference restriction; content per zone equal to the full run; ids and original years independent of the list.', 'lists of every size incl. empty, comments, blanks, unknown names; faults outside the list.', 'restriction is a relation of two runs.'),
 ('P21', 'Instrumented zone processor; expected maxima, first years, ranges, and abort above the limit, recomputed.', 'sizes modulo 6..40 so that maxima land in different years; ranges to 10000.', 'the real processor is absent, tests stub one case.'),
 ('P22', 'Exhaustive function sweep (year type x month x expression) against own calendar, plus every (month, expression) through the command line.', 'years 1..9999 classes, malformed strings.', '137k combinations.'),
 ('P23', 'Exhaustive time strings to 25 h with spellings, malformed strings, arithmetic identities; plus fields through the command line.', '290k tuples.', 'same.'),
 ('P24', 'Exhaustive 8/16-bit and boundary 32-bit values for every writer, and rejection without partial output; literals decoded; plus the Go output.', '160k tuples.', 'same.'),
 ('P25', 'Reasons and notes of every name as sets, per language, with the offending value; heading counts.', 'mixed + granularity + basic + include workloads.', 'value-dependent texts.'),
 ('P26', 'Header, context and section figures recomputed from the decoded tables of that very file set.', 'all languages, real and synthetic.', 'derived figures.'),
 ('P27', 'Links: own id and name, target, shared eras (pointer or index followed in the compiled program).', 'many links per zone.', 'all languages.'),
 ('P28', 'Each limit approached from both sides: fits -> decodes exactly; does not -> refused.', 'saves, offsets, times, counts 253..257, fragments, string totals 65534..66000, granularity leaving odd units, one field at a time.', 'no test reaches a limit.'),
 ('P29', 'The real scripts run as an unprivileged user on scratch git repositories with odd names; snapshots of work directory, repository and tools before/after; a shadow compiler records its arguments.', 'copy/compile/failing compile, failing and killed tools, signals to the process group, existing targets (file, directory, link, dangling link), paths with blanks, an exported CDPATH, variables of the caller with the names the scripts use.', 'scripts are untested.'),
 ('P30', 'Product of actions x languages, options in any order; files, contents, defaults against explicit values, rejected requests leave no file.', '32 scenarios of about 30 runs.', 'command line is untested.'),
 ('P31', 'Fault injection on real processes: every output on /dev/full, a directory, a loop or a dangling link in its place; RLIMIT_FSIZE at and around the sizes of the files; zone files and include list missing, directories, EIO (/proc/self/mem), loops, invalid UTF-8. Exit 0 only with all files equal to the undisturbed run; unreadable input leaves no output.', '24 scenarios of about 40 processes.', 'faults are never injected by tests.'),
]

LIMITS = '''
## Limits, and what is deliberately outside

* Held only on the executions listed in the evidence; the reference model is trusted.
* Invalid source lines are dropped by the extractor with a logged exception;
  duplicate Link lines likewise; continuation lines must be indented and other lines
  must not.  Quoted fields and abbreviated keywords ("minimum", "mon", "AT -"), which
  zic knows and the TZ files do not use, are not understood either.  Such
  sources are not "well-formed" here.  Years outside int16 or <= 0, Go strings
  with "~" or non-ASCII, and day expressions beyond the length of the month are
  outside as well.
* arduino and c share header file names, so they are generated in separate runs.
* `copytz.sh` leaves hidden files of the checkout (such as .git) behind in the
  copy; the property speaks of the zone files.
* The fragment limit (31) is one below what would fit, the Go policy limit counts
  the null policy; both refuse loudly, and are taken as the specified limits.
* Go files are written one after the other: a value refused late by a writer may
  leave earlier files of that language.  Only P08's structural faults promise an
  untouched directory.
* Free-text comments next to values in generated files (explanations of a packed
  byte) and log messages are not judged; names, reasons, counts and figures are.
* A C database without any zone has arrays of length zero, which C compilers take as
  an extension: -pedantic is left out for it (the other warnings are not).
* Rules that start after the year 9999 within a range that reaches so far end the run
  with an error of Python's calendar; no source has them, and they are not generated.
* bash itself dies in the middle of an exit trap about once in a few thousand interrupts
  (measured on an empty copy, under load); P29 repeats an interrupted run whose directory
  was left, and reports it only when it happens four times out of four.
* Option values with newlines, quotes or backslashes (--tz_version, --db_namespace) are
  copied verbatim into sources and header comments; such values are not generated.
* "negative UNTIL" as a reason cannot be seen: the basic scope drops such zones
  earlier, the other scopes abort.
'''

ALARMS = '''
## False alarms met and what was done

* Local time after the end of a source zone whose last era is finite: the source
  says nothing there; the comparison stops at that end.
* A reference to a policy the source lacks, in an era outside the range: treated
  as having no rules by the source interpreter.
* Two changes of wall clock that overtake each other (a transition that never
  shows on the clock) are merged the way zic does before comparing.
* The abbreviation before the first rule is undefined when no standard-time rule
  is unique-earliest; it then matches anything.
* Buffer figures of links in C/C++: the tables carry zones only.
* zic differs from the interpreter on purpose-built sources with several rules at
  one instant, so zic is a development-time cross-check only (localtime.zic_agrees).
* My first repair of the January day rule left 'Xxx<=7', which can fall on the
  first of January, in the basic scope; the model had the same hole.  Both were
  corrected (a second "fix:" commit).
* A line that cannot be parsed at all (bad year, bad time suffix letter) is logged
  and skipped by the extractor by design; such sources are not "well-formed" and
  stay outside P05/P06.
* An interrupted wrapper that left its directory behind, once in a thousand runs of the
  unchanged tree: a race within bash (see Limits); the run is repeated before judging.

## Findings

All but one were repaired ("fix:" commits in /repo); KNOWN_FINDINGS.txt lists
each with its commit.  Open is one of P01: the latest rule before the range is found by
year and month alone (documented so in find_latest_prior_rules(), and stated so in P03),
so a rule whose day lies in the next month, after another rule of that month, is left out
and the database starts in the wrong state.  Day expressions are parsed four passes later,
where faults in them are reported, so a repair means reordering passes and changes which
rules P03 selects; it is recorded instead.  The check tells it from anything else by
interpreting the source once more with just the rules that selection keeps: only a
database which agrees with that everywhere counts as this finding.
'''

MISSED = {'p14-policy-symbol': 'missed at first; policy names with other characters were added to the generator',
          'p05-policy-in-two-files': 'missed at first; rule lines are now spread over files and between blocks',
          'p17-json-file-path': 'missed at first; file names with directories were added',
          'p03-prior-same-saving': 'missed at first; rules tied in the latest month before the range were added',
          'p04-letter-of-long-gap': 'missed at first; rules far apart were added',
          'p08-lost-link': 'missed at first; lost links and links with dangling targets were added',
          'p13-guard-without-namespace': 'missed at first (found by mutation); pairs of databases in one program were added',
          'p14-shared-name-symbols': 'missed at first; the same pairs',
          'p14-long-fragment': 'missed at first; long repeated components were added to P13-P16 (P18 had them)',
          'p18-long-rare-fragment': 'missed at first; long components with few occurrences were added',
          'p21-untruncated-at': 'missed at first; eras and rules that change when truncated were added',
          'p31-go-single-write': 'missed at first; file-size limits for each language alone were added',
          'p29-interrupted-wrapper': 'missed at first; signals to the process group were added',
          'p01-midnight-normalised': 'missed at first with some seeds; eras ending on the last day of a month were made more frequent, and the dates of era ends are checked',
          'p30-base-year-zero': 'missed at first; the base year is compared in every scope, and odd values including 0 were added',
          'p25-many-reasons': 'missed at first; policies and zones that collect many different reasons were added',
          'p22-december-spill': 'missed at first; day expressions at the end of the year were added',
          }


def main():
    out = [HEAD]
    out.append('| id | oracle | workload and bounds | why beyond tests |\n|---|---|---|---|\n')
    out += ['| %s | %s | %s | %s |\n' % r for r in ROWS]
    out.append('\nThe quick tier is a fixed number of cases; the thorough tier multiplies them by\n10-15 and repeats with fresh randomness until the budget is used.\n')
    out.append(LIMITS)
    out.append(ALARMS)
    out.append('\n## Planted bugs\n\nEvery one builds, passes the existing tests, has a demonstration, and is caught by the\nquick check of its property (VERIF_SEED=1).\n\n| bug | needs | remark |\n|---|---|---|\n')
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
        out.append('| %s | %s | %s |\n' % (d, m['needs'], MISSED.get(d, 'caught')))
    out.append('''
Besides, mutants of the sources (relational operators, constants, removed statements
and branches, swapped calls; several hundred) were run against a merged workload of all
checks in scratch copies; survivors were inspected one by one: they are equivalent,
unreachable, or concern log output, except those that led to new cases (isolated
truncation faults and 16-bit Go string totals in P28, missing namespaces in P30,
one-byte range ends in P12).

A further 220 or so mutants written by hand, each needing a rare trigger, were run in
the same way. They led to: faults planted alone in a source the options otherwise accept
(so that nothing masks the one defect), ties among the latest prior rules, day
expressions that cross the year, names with long or rarely repeated components, links to
their own look-alikes, lost links, eras cut within the minute of a transition, include
lists of everything together with a fault, and granularities that override each other.
''')
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


main()
