"""RWMutex and its scoped locks (C17)."""
SPEC = {}
H = ('harness_init', 'harness_lock_reader', 'harness_unlock_reader', 'harness_writer', 'harness_rlock', 'harness_rlock_same', 'harness_wlock')
HARNESSES = {h: ['C17'] for h in H}
OPS = {r'dap::RWMutex::%s\(\)' % n: 'contract_' + n for n in ('lockReader', 'unlockReader', 'lockWriter', 'unlockWriter')}
# the four operations are themselves decided by the harnesses above (main results, not only contracts)
OPTS = dict(cand_fns=('cand_counted', 'cand_me', 'cand_not_me', 'cand_baton'))
CONTRACTS = {'harness_rlock': OPS, 'harness_rlock_same': OPS, 'harness_wlock': OPS}
