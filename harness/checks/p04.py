from behave import replay
import access


def run(check):
    t = check.thorough
    replay(check, access.specs(t), deadline=check.start + (780 if t else 450))
