"""socket.cpp (C18): system calls and RWMutex by contract."""
SPEC = {'D': dict(range=(0, 255), stream=True)}
RW = {r'dap::RWMutex::lockReader\(\)': 'ctr_lock_reader', r'dap::RWMutex::unlockReader\(\)': 'ctr_unlock_reader',
      r'dap::RWMutex::lockWriter\(\)': 'ctr_lock_writer', r'dap::RWMutex::unlockWriter\(\)': 'ctr_unlock_writer'}
HARNESSES = {h: ['C18'] for h in ('harness_write', 'harness_read', 'harness_close', 'harness_isopen', 'harness_destroy', 'harness_listen', 'harness_accept', 'harness_connect')}
CONTRACTS = {h: RW for h in HARNESSES}
OPTS = dict(positions=('g_sent', 'g_got'), nomerge=True)
