"""dap::Chan: operations of a closable FIFO under monitor reasoning (C06)."""
SPEC = {'P': dict(range=(0, (1 << 64) - 1))}
HARNESSES = {h: ['C06'] for h in ('harness_init', 'harness_take', 'harness_put_copy', 'harness_put_move', 'harness_close', 'harness_reset')}
# second argument: one wake-up per item
ALT = [['-DMON_COUNTED']]
OPTS = dict(cand_fns=('cand_inv',))
