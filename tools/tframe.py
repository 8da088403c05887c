"""C34, on what two threads make of the library (Frame.tla)."""
import random
import pairs, frame
MODULE = 'Frame'
PROPS = ['C34']


def rename(rule):
    return 'C34.' + rule.split('.', 1)[1] if '.' in rule else rule


def scenarios(tier, seed):
    return pairs.scenarios(frame.scenarios('quick', seed), random.Random(seed * 37 + 3), 100 if tier == 'quick' else 2000)


def project(scn, evs):
    return pairs.project(frame, scn, evs)
