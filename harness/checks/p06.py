from behave import replay
from trees import dataset_tree_specs


def run(check):
    t = check.thorough
    replay(check, dataset_tree_specs(t, 2 if t else 6), deadline=check.start + (780 if t else 450))
