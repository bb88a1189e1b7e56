"""network.cpp (C19): dap::Socket by contract, the accept loop with a concurrent stop."""
SPEC = {}
HARNESSES = {h: ['C19'] for h in ('harness_start_stop', 'harness_localhost', 'harness_loop', 'harness_connect')}
OPTS = dict(nomerge=True)
