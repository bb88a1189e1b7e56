"""Specification functions of the framing grammar (C01-C04)."""
import z3
from z3 import If, And, Or, Int, IntVal

I = z3.IntSort()
END = z3.Int('END')
BIG = 1 << 64
Sf = z3.Function('S', I, I)
FH = z3.Function('FH', I, I)
WE = z3.Function('WE', I, I)
DE = z3.Function('DE', I, I)
V = z3.Function('V', I, I, I)


def Sx(p):
    return If(And(p >= 0, p < END), Sf(p), IntVal(-1))


def digit(c):
    return And(c >= 48, c <= 57)


def HDR(p):
    return And(*[Sx(p + i) == c for i, c in enumerate(b'Content-Length:')])


def CRLF2(p):
    return And(Sx(p) == 13, Sx(p + 1) == 10, Sx(p + 2) == 13, Sx(p + 3) == 10)


def sat(x):
    return If(x >= BIG, IntVal(BIG), x)


SPEC = {
    'S': dict(range=(0, 255), stream=True),
    'Sx': dict(macro=Sx),
    'HDR': dict(macro=HDR),
    'CRLF2': dict(macro=CRLF2),
    'Vfits': dict(macro=lambda x: x < BIG),
    # first header at or after p (or a position too close to the end to hold one)
    'FH': dict(unfold=lambda p: If(p + 15 > END, p, If(HDR(p), p, FH(p + 1))), inv_arity=1,
               axiom=lambda a, p: [a >= p, Or(a == p, a <= END)], lemma=True),
    # end of blanks and tabs
    'WE': dict(unfold=lambda p: If(Or(Sx(p) == 32, Sx(p) == 9), WE(p + 1), p), inv_arity=1,
               axiom=lambda a, p: [a >= p, Or(a == p, a <= END)], lemma=True),
    # end of digits
    'DE': dict(unfold=lambda p: If(digit(Sx(p)), DE(p + 1), p), inv_arity=1,
               axiom=lambda a, p: [a >= p, Or(a == p, a <= END)], lemma=True),
    # decimal value, saturating at 2^64
    'V': dict(unfold=lambda p, acc: If(digit(Sx(p)), V(p + 1, sat(acc * 10 + Sx(p) - 48)), acc), inv_arity=2,
              axiom=lambda a, p, acc: [z3.Implies(And(acc >= 0, acc <= BIG), And(a >= acc, a <= BIG))],
              lemma=True, inv_consts=[BIG]),
}
HARNESSES = {
    'harness_write': ['C01'],
    'harness_init': ['C02', 'C03', 'C04'],
    'harness_assign': ['C02', 'C03', 'C04'],
    'harness_writer': ['C01'],
    'harness_ignore': ['C02', 'C03'],
    'harness_close': ['C04', 'C03'],
    'harness_buffer': ['C02', 'C03', 'C04'],
    'harness_match_header': ['C02', 'C03', 'C04'],
    'harness_match_crlf': ['C02', 'C03', 'C04'],
    'harness_scan': ['C02', 'C03'],
}
OPTS = dict(positions=('g_d',))

BUF = {r'dap::ContentReader::buffer\(unsigned long\)': 'contract_buffer'}
MATCH = {r'dap::ContentReader::match\(unsigned char const\*, unsigned long\)': 'contract_match'}
SCAN = {r'dap::ContentReader::scan\(unsigned char const\*, unsigned long\)': 'contract_scan'}
# harness -> contracts its callees are replaced by; each contract is discharged by its own harness
CONTRACTS = {
    'harness_match_header': BUF,
    'harness_match_crlf': BUF,
    'harness_scan': dict(BUF, **MATCH),
    'harness_ignore': dict(BUF, **MATCH, **SCAN),
    'harness_close': dict(BUF, **MATCH, **SCAN),
}
PROVES = {'contract_buffer': ['harness_buffer'],
          'contract_match': ['harness_match_header', 'harness_match_crlf'],
          'contract_scan': ['harness_scan']}
