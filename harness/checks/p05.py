from behave import replay
from trees import file_tree_specs


def run(check):
    t = check.thorough
    replay(check, file_tree_specs(t, 2 if t else 4), deadline=check.start + (780 if t else 450))
