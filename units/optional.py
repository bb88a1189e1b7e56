"""dap::optional (C08)."""
SPEC = {}
HARNESSES = {h: ['C08'] for h in ('harness_construct', 'harness_convert', 'harness_assign', 'harness_order')}
OPTS = dict()
