"""Harnesses and contracts shared by the JSON backends (C13, C14)."""
HARNESSES = {h: ['C13'] for h in ('harness_decode_scalar', 'harness_decode_any', 'harness_decode_object', 'harness_decode_array', 'harness_decode_field', 'harness_missing', 'harness_parse')}
HARNESSES.update({h: ['C14'] for h in ('harness_encode_any', 'harness_encode_object', 'harness_encode_array', 'harness_encode_struct', 'harness_dump')})
HARNESSES['harness_encode_scalar'] = ['C14', 'C13']


def contracts(ns):
    d, s = r'dap::json::%sDeserializer::' % ns, r'dap::json::%sSerializer::' % ns
    anyd = {d + r'deserialize\(dap::any\*\) const': 'contract_decode_any'}
    obj = r'std::unordered_map<std::string, dap::any, int>'
    return {
        'harness_decode_object': dict(anyd, **{r'dap::any::operator=\(dap::any const&\)': 'contract_any_assign',
                                               r'dap::any::operator=\(dap::any&&\)': 'contract_any_move'}),
        'harness_decode_any': {d + r'deserialize\(%s\*\) const' % obj: 'contract_decode_object',
                               r'bool dap::Deserializer::deserialize<dap::any>\(std::vector<dap::any>\*\) const': 'contract_decode_array'},
        'harness_encode_object': {s + r'serialize\(dap::any const&\)': 'contract_encode_any'},
        'harness_encode_any': {s + r'serialize\(%s const&\)' % obj: 'contract_encode_object'},
    }


PROVES = {'contract_decode_any': ['harness_decode_any'], 'contract_decode_object': ['harness_decode_object'],
          'contract_encode_any': ['harness_encode_any'], 'contract_encode_object': ['harness_encode_object'],
          'contract_decode_array': ['harness_decode_array']}
