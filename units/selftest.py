"""No property: programs of selftest/ are run through the verifier with these settings."""
import os
SPEC = {}
HARNESSES = {}
OPTS = dict(nomerge=bool(os.environ.get('IRV_NOMERGE')))
