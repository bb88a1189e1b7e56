"""promise / future (C16)."""
SPEC = {'VAL': dict(range=(0, (1 << 64) - 1))}
H = ('init', 'get', 'wait', 'wait_for', 'wait_until', 'set_copy', 'set_move', 'lifetime')
HARNESSES = {'harness_' + h: ['C16'] for h in H}
OPTS = dict(cand_fns=('cand_inv', 'cand_unchanged', 'cand_value'))
