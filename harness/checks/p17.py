from behave import replay
import remote


def run(check):
    t = check.thorough
    for n, constants in enumerate(remote.models(t)):
        check.model(f"model {n}", "Remote", constants, constraints=["Bound"], view="GenView",
                    invariants=["Apart", "Genuine"],
                    properties=["Current", "ReadOnly", "Lazy", "AtHand"])
    replay(check, remote.specs(t), deadline=check.start + (780 if t else 450))
