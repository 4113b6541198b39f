from behave import replay
import toplevel


def run(check):
    t = check.thorough
    replay(check, toplevel.specs(t), deadline=check.start + (780 if t else 450))
