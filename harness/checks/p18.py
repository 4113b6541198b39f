from behave import replay
from runs import specs


def run(check):
    t = check.thorough
    replay(check, specs(t, 1.5), deadline=check.start + (780 if t else 450))
