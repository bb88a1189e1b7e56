"""The type registry (C20)."""
SPEC = {}
HARNESSES = {h: ['C20'] for h in ('harness_history', 'harness_concurrent', 'harness_concurrent_ref', 'harness_types')}
OPTS = dict(nomerge=True)
