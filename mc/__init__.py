"""Bounded exhaustive model checking of /repo's bayesian_decision_tree; see /verif/DESIGN.md."""
