"""
The properties that are decided with Lifecycle.tla: P01, P02, P03, P12, P15, P16
"""
import lifecycle as lc

ALL = ("ft", "nt", "md", "mrr", "vl", "us", "tvl", "tv0")
EMPTY = ("us0", "us1", "tvn")


def parts(check, skels, steps, simulate, starts=("new", "stored"), ends=(True, False), **spec):
    """ random behaviours for each skeleton, alternating the way to start """
    result = []
    for n, skel in enumerate(skels):
        for start in (starts if check.thorough else [starts[n % len(starts)]]):
            for with_ends in (ends if check.thorough else [ends[(n // 2) % len(ends)]]):
                kw = dict(spec.get("kw", {}), ends=with_ends)
                result.append(dict(
                    dict(spec, skel=skel, start=start, steps=steps, simulate=simulate), kw=kw))
    return result


def closed(skel, realms, ops, steps=None, **spec):
    """ all behaviours with ops; their state space is finite """
    return dict(spec, skel=skel, start="stored", level=1000, steps=steps, length=40,
                kw=dict(realms=realms, ops=ops))


def decide(check, models, specs, options=None):
    budget = 780 if check.thorough else 500
    for skel, start, level in models:
        lc.check_model(check, f"model {skel}/{start}/level{level}", skel, start, level)
    lc.replay_parts(check, specs, deadline=check.start + budget, options=options)
