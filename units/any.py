"""dap::any and dap::variant (C07)."""
SPEC = {}
HARNESSES = {h: ['C07'] for h in ('harness_any_construct', 'harness_any_assign_any', 'harness_any_self', 'harness_any_assign_value', 'harness_any_reset', 'harness_any_reuse', 'harness_any_overaligned', 'harness_variant')}
OPTS = dict(nomerge=True)
