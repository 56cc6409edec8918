#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept in step with lib/checks.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
ORACLE = ('Every observed conversion is judged exactly; assurance extends to the executions counted in the evidence file only. '
          'Trusts the compilers, the monitor\'s multi-limb integer arithmetic (itself cross-checked at run time against a second, unfiltered '
          'implementation and against the C library) and the reading of the documented rounding rules.')
T = {
 'C01': ('runtime oracle monitor: exact read-back of every float magnitude and of generated doubles', ORACLE + ' Exhaustive over float magnitudes, sampled over doubles.'),
 'C02': ('runtime oracle monitor: exact search for shorter read-back decimals', ORACLE),
 'C03': ('runtime oracle monitor: exact closeness and tie judgement', ORACLE + ' Exhaustive over float magnitudes, sampled over doubles.'),
 'C04': ('runtime oracle monitor over the six nearest modes', ORACLE),
 'C05': ('runtime oracle monitor over the directed modes and all policies', ORACLE),
 'C06': ('runtime oracle monitor of tie policies', ORACLE),
 'C07': ('runtime oracle and relational monitor of the do-not-care policy', ORACLE),
 'C08': ('runtime relational monitor: static-boundary against dynamic modes', 'Each observed pair of calls is compared; sampled inputs, all policies and signs.'),
 'C09': ('runtime metamorphic monitor: sign symmetry and sign-less form', 'Each observed set of calls is compared; sampled inputs, all modes and policies.'),
 'C10': ('runtime monitor of rendered text against the numeric result, an independent renderer and strtod/strtof', 'Exhaustive over float magnitudes in the default configuration, sampled elsewhere. Each text is compared with an independent rendering of the numeric result of the same call.'),
 'C11': ('runtime monitor of texts of special values, exhaustive over float specials', 'Exhaustive over float specials (every NaN pattern), sampled over double NaNs.'),
 'C12': ('runtime memory monitors: canaries, guard pages, AddressSanitizer, MemorySanitizer', 'Sampled inputs; canaries see writes anywhere in the arena, guard pages and ASan/MSan see accesses outside or to uninitialised bytes.'),
 'C13': ('ASan/UBSan/MSan-instrumented and assertion-checked runs with crash and hang attribution', 'Sanitizers and assertions judge only executed paths; inputs are sampled over every binade, mode and policy.'),
 'C14': ('differential runtime monitor over digests of eleven build configurations', 'Agreement is shown for the listed compilers and options on the recorded inputs; MSVC is not available.'),
 'C15': ('runtime monitor of bit inspectors, exhaustive over float patterns', 'Exhaustive over the 2^32 float patterns, sampled over doubles.'),
 'C16': ('ThreadSanitizer and history-comparing monitors under concurrent, permuted and instruction-by-instruction interrupted workloads', 'Bounded threads and histories; races are judged by happens-before (TSan) and by result comparison.'),
 'C17': ('runtime monitor of floating-point environment, errno, locale, allocation and exceptions', 'Twenty x86 environments on sampled inputs.'),
 'C18': ('runtime oracle monitor over the full documented ranges, with UBSan and constant evaluation', 'Exhaustive over the documented ranges.'),
 'C19': ('runtime oracle monitor of every table entry and of requested exponents', 'Exhaustive over the stored entries; requests outside the table are observed on all binades with sampled significands.'),
 'C20': ('runtime oracle monitor of arithmetic helpers in 64- and 32-bit builds', 'Sampled operands (all pairs of boundary values, carry-shaped and random ones).'),
 'C21': ('event-log monitor of handler calls, thrown objects and value categories; death tests', 'Sampled inputs; eleven calling forms; default handler by forked death tests.'),
 'C22': ('runtime order monitor over neighbouring inputs', 'Each observed neighbour pair is compared exactly; sampled inputs.'),
}
NOTES = getattr(checks, 'NOTES', {})
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    if p in checks.ALL:
        t, n = T[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p, 'technique': t, 'level': 'exploration',
            'level_note': n or NOTES.get(p) or 'Sampled executions; see DESIGN.md.'})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'monitor not built yet (runtime monitoring does apply; see DESIGN.md)'})
if not m['not_applicable']:
    del m['not_applicable']
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
