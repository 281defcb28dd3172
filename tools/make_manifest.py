"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REF = 'exhaustive exploration of a bounded input space on the real code, every run checked as a path of a nondeterministic reference transition system'
T = {
    'C01': (REF, 'Every training set and hyperparameter combination of the listed bounded families; scores recomputed independently (Polya urn). Near ties may go either way; larger data is covered by structured sets up to 257 rows and 65537 rows around the 16-bit index limit.'),
    'C02': (REF, 'As C01 with sequential Student-t predictive scores. Assumes targets whose spread is not negligible against their magnitude.'),
    'C03': ('exhaustive exploration of bounded inputs, priors and query rows against the exact posterior of the reference model', 'All four models, explicit and default priors, pruned or not; every node and every query row of the families.'),
    'C04': ('exhaustive exploration of training sets over adversarial float alphabets and of query batches (all batches up to a length)', 'Answers of every batch are compared with the rows queried alone and with the reference routing.'),
    'C05': ('exhaustive product of training and query representations over bounded data sets, trees and answers compared with the float64 array', 'All pairs of 46 feature and 29 target representations that can hold the data.'),
    'C06': ('exhaustive exploration of bounded inputs; pruned trees compared with a reference rewriting system run to its fixed point', 'Trusts the unpruned trees, which C01-C03 and C12 check.'),
    'C07': ('exhaustive exploration of trees and query batches; paths compared with the reference run of every row', 'All label vectors over fixed positions (depth up to 8) x batches.'),
    'C08': ('exhaustive exploration of bounded inputs; importance compared with an independent accumulation over all split nodes', 'The gain of every split node is recomputed from the data with the reference likelihoods.'),
    'C09': ('explicit-state breadth-first search over operation histories of the real model against an abstract state machine', 'All histories up to the depth bound over 20+ operations, four models.'),
    'C10': ('stateless model checking: controlled scheduler over the real threads, all schedules up to a preemption bound at line or opcode granularity', 'Python-level interleavings; C-level data races inside numpy are not explored.'),
    'C11': ('exhaustive enumeration of the environment: all proposal sequences of an adversarial optimizer up to a length, against a reference', 'Ties in the score are checked with the distance rule where equal by construction.'),
    'C12': (REF + '; closed environment (scripted optimizer) and the built-in optimizers', 'With scripted optimizers the tree is determined up to ties; with built-in ones structure, growth rule, scores and posteriors are checked.'),
    'C13': ('exhaustive enumeration of the environment: optimizers driven by an adversarial objective, deviation-bounded and all answer prefixes', 'Objective answers from finite sets; termination means at most 200000 proposals.'),
    'C14': ('exhaustive enumeration of grids, corners and batches of the hypercube and of sequence prefixes in all dimensions up to a bound', 'Between grid points the map is assumed to be smooth; the volume factor is measured by central differences.'),
    'C15': ('exhaustive enumeration of shapes, labels, representations and call sequences on new and fitted models, state compared before and after', 'Verdicts against the stated rule; at least one row and one feature.'),
    'C16': (REF + ' whose state includes the strengthened prior', 'All four models, seven values of delta.'),
    'C17': (REF + ' whose candidate set depends on the precision', 'Precisions equal to gaps wherever projections are exact.'),
    'C18': ('exhaustive enumeration of complete symmetry orbits (row, feature, class permutations, scalings, mirrors, shifts, affine targets) of bounded inputs', 'Sets with score ties (closer than 1e-6) are skipped and counted.'),
    'C19': ('exhaustive exploration of bounded inputs and naming variants; printed trees parsed back and compared node by node (bisimulation) with the model', 'Up to 6 classes and features; split values compared exactly, vectors to the printed digits.'),
    'C20': ('exhaustive enumeration of parameter combinations, parameter changes, folds, scorers and meta-estimators against manual loops', 'Trusts the splitters and scorer definitions of the installed scikit-learn.'),
}


def main():
    ids = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = [{
        'property': i,
        'quick_cmd': './check {} quick'.format(i),
        'thorough_cmd': './check {} thorough'.format(i),
        'evidence_file': 'evidence/{}.json'.format(i),
        'technique': 'model checking: ' + T[i][0],
        'level': 'model_checking',
        'level_note': T[i][1],
    } for i in ids if i in T]
    manifest = {
        'version': 1,
        'setup_cmd': './check setup',
        'checks': checks,
        'not_applicable': [],
        'notes': 'Pure Python; the checks import the package from /repo (MC_REPO overrides the folder). No hooks were needed in /repo. "./check replay FILE" replays a violation.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
