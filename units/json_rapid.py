"""rapid backend (C13, C14)."""
import json_common
SPEC = {}
INCLUDES = ['spec/json']
HARNESSES = json_common.HARNESSES
CONTRACTS = json_common.contracts('Rapid')
PROVES = json_common.PROVES
OPTS = dict(nomerge=True, cand_fns=('inv_last_key',))
HARD = tuple(HARNESSES)
