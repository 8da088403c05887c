"""C33, on the layouts and the hazards of what is recorded."""
import random
import faults, refault, frame
MODULE = 'Frame'
PROPS = ['C33']
rename = faults.rename


def scenarios(tier, seed):
    return refault.scenarios(frame.scenarios('quick', seed), random.Random(seed * 31 + 1), 300 if tier == 'quick' else 4000)


def project(scn, evs):
    return refault.project(frame, scn, evs)
