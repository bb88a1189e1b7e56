"""Protocol types (C15). The table of structs and members is extracted from dap/protocol.h on every run."""
import gen_protocol
SPEC = {}
HARNESSES = {'harness_batch%d' % i: ['C15'] for i in range(12)}
HARNESSES.update(harness_user=['C15'], harness_names=['C15'])
OPTS = dict(nomerge=True, unroll=200)
GENERATE = gen_protocol.generate
