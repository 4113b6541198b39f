from checks.p10 import decide


def run(check):
    decide(check, "fail", 300)
