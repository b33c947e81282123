#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json
T = {
 'C01': 'model-based random histories against a queue model, plus an enumerated grid of small lines',
 'C02': 'model-based random histories with tap operations against a queue model',
 'C03': 'model-based random histories with growing maxima against a queue model, plus an enumerated grid',
 'C04': 'model-based random histories against double-precision interpolation of a queue model',
 'C05': 'differential random histories: twin line without the peeks',
 'C06': 'differential random histories: cleared processor against a new one',
 'C07': 'differential random chunkings: block processing against sample-by-sample twin',
 'C08': 'random signals over the full exponent range against the identity',
 'C09': 'random coefficients, signals and mid-stream changes against the difference equation',
 'C10': 'random parameters and signals against an independent double-precision cookbook reference',
 'C11': 'random parameters; measured impulse response transformed and compared with the promised gains',
 'C12': 'random and worst-case-matched inputs against the impulse-response bound and decay envelope',
 'C13': 'metamorphic relations between filters on random parameters and signals',
 'C14': 'random gain settings and signals against the averaging recurrence',
 'C15': 'random histories against the attack/release recurrence, sign and scale twins, step response',
 'C16': 'random histories against the attack/release recurrence on squares, sign and scale twins, step response',
 'C17': 'random setter histories with invalid values against exp(-1/L)',
 'C18': 'every size up to a bound and random large sizes against the definitions in double precision',
 'C19': 'every size up to a bound and random large sizes against symmetry, bounds, monotonicity, overlap-add',
 'C20': 'random slices and every short length against the iterator values',
 'C21': 'random consumption histories against a vector model of the iterator',
 'C22': 'random and boundary values against log10/pow in double precision, round trips, monotone pairs',
 'C23': 'metamorphic: superposition, zero prefix, power-of-two scaling on random signals',
 'C24': 'random interleavings and threads against each instance driven alone',
 'C25': 'differential random histories: f32 against f64',
}
note = ("Generated-input search (proptest, shrinking) through the public API against an explicit oracle, in two builds "
        "(release; debug assertions and overflow checks). It samples: no proof of absence. Trusted: the harness's "
        "double-precision references and rounding bounds, and the compiler.")
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "checks": [{"property": k, "quick_cmd": "python3 check.py %s quick" % k,
                 "thorough_cmd": "python3 check.py %s thorough" % k,
                 "evidence_file": "evidence/%s.json" % k,
                 "technique": "property-based testing: " + v, "level": "exploration", "level_note": note}
                for k, v in T.items()],
     "not_applicable": [],
     "notes": "No hooks: everything is observed through the public API. Repairs are the fix: commits in /repo, listed in known_findings.txt."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
