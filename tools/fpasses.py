"""C33, on the render passes, pipelines, descriptors and draws of what is recorded."""
import random
import faults, refault, passes
MODULE = 'Passes'
PROPS = ['C33']
rename = faults.rename


def scenarios(tier, seed):
    return refault.scenarios(passes.scenarios('quick', seed), random.Random(seed * 31 + 1), 300 if tier == 'quick' else 4000)


def project(scn, evs):
    return refault.project(passes, scn, evs)
