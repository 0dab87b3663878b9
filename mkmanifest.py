#!/usr/bin/env python3-vt
"""MANIFEST.json from the registry (developer helper; the file is committed)."""
import json
from pbt.registry import PROPS
TECH = {
    'C01': 'fuzzing: grammar-based and random texts under ASan/UBSan (Hypothesis), coverage-guided libFuzzer, memcheck on a sample',
    'C02': 'property-based testing: generated impossible dates and arbitrary texts against a calendar model',
    'C03': 'property-based testing: texts assembled from known phrases, spans and values against the assembly; metamorphic repetition',
    'C04': 'metamorphic property-based testing: letter case and surrounding words changed',
    'C05': 'stateful differential testing: call histories in one process, another order, and fresh processes',
    'C19': 'model-based stateful testing of components against a reference model',
    'C20': 'model-based stateful testing of results against a reference model',
    'C21': 'property-based testing of the refiner against a fold model, small cases enumerated',
    'C22': 'property-based testing of refiner, recogniser and program against zone arithmetic',
    'C23': 'property-based testing of the refiner against a pairing model, short sequences enumerated',
    'C24': 'property-based testing of the refiner against a pairing model, short sequences enumerated',
    'C25': 'end-to-end property-based testing of the program: sentences generated from meanings, and differential composition',
    'C26': 'property-based testing with enumeration of word tables and generated unit texts',
    'C27': 'property-based testing: tags of generated sentences through recognisers and refiners',
}
NOTE = ('Generated-input search: holds on every case explored, no proof beyond them. ')
EXTRA = {
    'C01': 'Trusts the sanitizers, memcheck and the 1,000-byte bound; a hang is no answer within 45 s (100 s for the fuzzer).',
    'C05': 'Histories of up to 14 requests; compared with fresh processes.',
    'C19': 'Histories of up to 40 operations on three slots. The model (20 lines) is trusted.',
    'C20': 'Histories of up to 40 operations on three slots and a list. The model is trusted.',
    'C25': 'Sentences whose reading the property settles (see DESIGN.md for what is left out); the composition check trusts the recognisers and refiners, which C06-C24 check.',
}
checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    n = EXTRA.get(pid, 'The oracle computes the answer from the generated meaning with its own calendar arithmetic (pbt/cal.py), which is trusted; readings the property leaves open are listed in DESIGN.md and not generated.')
    checks.append({'property': pid, 'quick_cmd': 'python3-vt check.py %s quick' % pid, 'thorough_cmd': 'python3-vt check.py %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': TECH.get(pid, 'property-based testing: phrases generated from meanings, small spaces enumerated, independent calendar oracle'),
                   'level': 'exploration', 'level_note': NOTE + n})
json.dump({'version': 1, 'setup_cmd': 'python3 build.py plain asan cli fuzz debug', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: the checks use the public interface only. Failing cases are written to replays/ and rerun with python3-vt check.py --replay FILE. VERIF_BUDGET (seconds) bounds the random search.'},
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks))
