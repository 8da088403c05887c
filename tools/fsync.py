"""C33, on the layouts and the hazards of what is recorded."""
import random
import faults, refault, sync
MODULE = 'Sync'
PROPS = ['C33']
rename = faults.rename


def scenarios(tier, seed):
    return refault.scenarios([s for s in sync.scenarios('quick', seed) if not s['name'].startswith('planned')], random.Random(seed * 31 + 1), 300 if tier == 'quick' else 4000)


def project(scn, evs):
    return refault.project(sync, scn, evs)
