from behave import replay
from keymap import specs


def run(check):
    t = check.thorough
    replay(check, specs(t, ("vl", "tvl"), 1.5), deadline=check.start + (780 if t else 450))
