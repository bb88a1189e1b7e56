"""include/dap/serialization.h: composite values (C13, C14)."""
SPEC = {}
INCLUDES = ['spec/json']
HARNESSES = {'harness_decode_array': ['C13'], 'harness_encode_array': ['C14'], 'harness_decode_optional': ['C13'], 'harness_encode_optional': ['C14'],
             'harness_fields': ['C13', 'C14'], 'harness_typeinfo': ['C13', 'C14'], 'harness_scalars': ['C14']}
OPTS = dict(nomerge=True, cand_fns=('inv_kept',))
