"""
Writes MANIFEST.json from the check modules which exist.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECHNIQUE = {
    'C01': 'online reference-model monitor over random operation histories, numpy buffers under a poisoning allocator',
    'C02': 'conservation monitor (which label was given to which point) over random labeling histories',
    'C03': 'fault sequences (illegal moves in every position of a batch) with before/after state comparison',
    'C04': 'association-list monitor over lookups, concatenations and exports',
    'C05': 'online trace-specification monitor of recorded exploration protocols (recording learner, sampler, noise, criteria)',
    'C06': 'offline schedule checker over recorded callbacks and yielded metrics',
    'C07': 'differential monitor of repeated, separate and reset-then-rerun explorations',
    'C08': 'oracle comparing each reported metric with its textbook definition recomputed from observed predictions',
    'C09': 'invariant monitor on each injected label plus statistical monitor of flip counts',
    'C10': 'invariant and reachability monitors over recorded samples',
    'C11': 'monitor comparing proposed points with the scores observed by a recording learner',
    'C12': 'oracle recomputing the scores from the models observed inside the learners',
    'C13': 'contract monitor over whole explorations of every learner',
    'C14': 'soundness/completeness monitor against linear-programming convexity oracles',
    'C15': 'validity monitor against linear-programming convexity oracles over label histories with planted conflicts',
    'C16': 'membership oracle by linear programming over incrementally grown, pickled and restored hulls',
    'C17': 'exhaustive-world oracle (all hidden labelings consistent with the labels) over label histories',
    'C18': 'call-recording wrapped learners with an online checker of the dispatch between polytope and learner',
    'C19': 'consistency monitor on every hypothesis sampled, over growing training sets',
    'C20': 'geometric invariant monitor on each rounding cut (instrumented ellipsoids, sampled version-space members)',
    'C21': 'geometric oracle by direct evaluation and statistical monitor of long chains against rejection sampling',
    'C22': 'oracle recomputing kernels and features from their formulas, numpy buffers under a poisoning allocator',
    'C23': 'high-precision likelihood oracle and finite-difference monitor of reported gradients',
    'C24': 'AddressSanitizer/UBSan build of the native code, guard-zone allocator, high-precision value oracle',
    'C25': 'monitor of every objective/gradient/callback call made by the optimizers, optimality oracle',
    'C26': 'finite-difference, random-competitor and subgradient-inequality monitors under a poisoning allocator',
    'C27': 'oracle recomputing predictions from published weights, recording optimizer stand-ins for restarts',
    'C28': 'trace-specification monitor of recorded calls to stand-in models, factorization oracle',
    'C29': 'recording learner with arbitrary losses against brute-force enumeration of partitions',
    'C30': 'recording base learners with recombination oracle',
    'C31': 'reference-model monitor over random log/flush/timed-call histories',
    'C32': 'oracle recomputing posterior mode, Hessian and predictive probability by direct linear algebra',
    'C34': 'differential monitor: composed learners against hand-assembled components under equal random numbers, recording stand-in for Stan',
    'C35': 'differential monitor: objects interleaved by a scheduler against the same objects alone, each execution in a process forked from an unused one',
    'C36': 'differential monitor: every script executed with plain float arrays and again with inputs of other types and memory layouts',
    'C37': 'fault injection (interruptions at traced lines, failing components) with monitors of data and differential comparison of reset and new objects',
    'C33': 'scripted-terminal monitor pairing each prompt and answer with labels stored',
}


def main():
    checks = []
    for prop in sorted(TECHNIQUE):
        if not os.path.exists(os.path.join(HERE, 'checks', prop.lower() + '.py')):
            continue
        checks.append({
            'property': prop,
            'quick_cmd': '{} run.py {}'.format(PY, prop),
            'thorough_cmd': '{} run.py {} --tier thorough'.format(PY, prop),
            'technique': 'runtime monitoring: ' + TECHNIQUE[prop],
            'level': 'exploration',
            'level_note': 'decides every execution that was run; inputs, histories and schedules are sampled, not enumerated (see evidence for what was observed)',
            'evidence_file': 'evidence/{}.json'.format(prop),
        })
    manifest = {
        'version': 1,
        'setup_cmd': PY + ' -m harness.build',
        'checks': checks,
        'not_applicable': [],
        'notes': 'No hooks in /repo: monitors wrap public objects from outside and watch native code through separate builds of the Cython extension.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks')


if __name__ == '__main__':
    main()
