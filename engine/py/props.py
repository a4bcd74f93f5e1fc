"""Which analyses decide which property."""

SEQ = ['seq1', 'seq2', 'seq3', 'seq5', 'seq8', 'seq12', 'seq16', 'seq20', 'with_', 'skip_', 'between_', 'then_',
       'then_partial_', 'then_ref_', 'struct_parser_', 'struct_tuple_parser_', 'm_with', 'm_skip', 'm_and', 'm_then', 'm_then_partial', 'm_then_ref']
CHOICE = ['or2', 'choice2', 'choice3', 'choice4', 'choice_arr', 'choice_slice', 'optional_', 'dispatch_', 'm_or']
REPEAT = ['many_', 'many1_', 'skip_many_', 'skip_many1_', 'count_', 'skip_count_', 'count_min_max_', 'count_min2',
          'skip_count_min_max_', 'sep_by_', 'sep_by1_', 'sep_end_by_', 'sep_end_by1_']
LOOK = ['attempt_', 'look_ahead_', 'not_followed_by_']
MAP = ['map_', 'map_input_', 'flat_map_', 'and_then_', 'f_map', 'f_map_input', 'f_flat_map', 'f_and_then']
CHAIN = ['chainl1_', 'chainr1_', 'take_until_', 'skip_until_', 'repeat_until_', 'repeat_skip_until_', 'escaped_', 'iterate_', 'recognize_']
WRAP = ['no_partial_', 'ignore_', 'any_partial_state_', 'any_send_partial_state_', 'any_send_sync_partial_state_', 'lazy_', 'factory_',
        'opaque_', 'left_', 'right_', 'expected_', 'message_', 'silent_', 'by_ref_', 'box_', 'boxed_', 'parser_macro_', 'parser_macro_partial_', 'm_by_ref']
TOKEN = ['any_', 'satisfy_', 'satisfy_map_', 'token_', 'tokens_', 'tokens0_', 'tokens_cmp_', 'one_of_', 'none_of_', 'position_',
         'value_', 'produce_', 'eof_', 'unexpected_', 'fn_parser_']
RANGES = ['range_', 'range0_', 'take_', 'take0_', 'take_while_', 'take_while1_', 'take_until_range_', 'take_fn_', 'range_recognize_',
          'recognize_with_value_', 'length_prefix_']
ALL = RANGES + SEQ + CHOICE + REPEAT + LOOK + MAP + CHAIN + WRAP + TOKEN

import specs as _sp
ADDERR = sorted(r for r in _sp.SPECS if r.startswith(('err::', 'com::')))
ENTRY = sorted(r for r in _sp.SPECS if r.startswith(('lz::', 'st::', 'sp::'))) + ['parse_', 'parse_with_state_', 'iter_', 'plain_']
_X = ['env_parser_', 'input_converter_', 'spanned_', 'm_spanned']
WRAP += _X
ALL += _X
ADDERR += ['err_spanned', 'com_spanned']

# classes of typestate violations (prefix of the rule)
RESUME = ('suspension lost', 'suspension not reported', 'suspended at an incoherent', 'dead slot', 'stale slot', 'foreign slot',
          'resumed elsewhere', 'unexpected resume', 'suspended child restarted', 'stale collection', 'uncommitted result after',
          'fatal error looks like')
OUTCOME = ('outcome', 'uncommitted result after', 'suspension lost')
ERRORS = ('error lost', 'error at the wrong position', 'failed reset', 'suspension not reported', 'fatal error looks like')


def pre(*ps):
    def f(v):
        return any(v['rule'].startswith(p) for p in ps)
    return f


def resume(v):
    return v['resumed'] or pre(*RESUME)(v)


def again(v):
    return v['round2'] or pre('dead slot', 'stale slot', 'stale collection')(v)


def anyv(v):
    return True


# property -> list of (roots, filter)
ENGINE = {
    'S01': [(SEQ, anyv)],
    'S02': [(CHOICE, anyv)],
    'S03': [(ALL, pre(*OUTCOME))],
    'S04': [(LOOK, anyv)],
    'S05': [(REPEAT, anyv)],
    'S06': [(CHAIN, anyv)],
    'S07': [(ALL, resume)],
    'S08': [(ALL, again)],
    'S09': [(ALL, pre(*ERRORS)), (ADDERR, anyv)],
    'S10': [(WRAP, anyv)],
    'S11': [(MAP, anyv)],
    'S12': [(TOKEN, anyv)],
    'S13': [(ENTRY, anyv)],
    'S14': [(RANGES, anyv)],
    'S15': [(ALL + ADDERR + ENTRY, pre('panic', 'unreachable'))],
    'S16': [(ALL + ADDERR + ENTRY, pre('no progress', 'unbounded recursion'))],
}

import lspecs as _ls
ADAPT = sorted(r for r in _ls.L if r.startswith('a_'))
# property -> list of (roots of the streams harness, filter)
LIN = {
    'S17': [(ADAPT, anyv)],
    'S18': [(sorted(r for r in _ls.L if r.startswith('pos::') or r.split('::')[0] in ('a_position', 'a_position_ref', 'a_span')), anyv)],
    'S19': [(sorted(r for r in _ls.L if r.startswith('c_')), anyv)],
    'S20': [(sorted(r for r in _ls.L if r.startswith('er::')), anyv)],
    'S22': [(sorted(r for r in _ls.L if _ls.L[r].prog == 'incr'), anyv)],
    'S21': [(sorted(r for r in _ls.L if r.startswith('pr::')), anyv)],
    'S23': [(sorted(r for r in _ls.L if r.startswith(('bf::', 'rd::'))), anyv)],
    'S25': [(sorted(r for r in _ls.L if r.startswith('fd::')), anyv)],
    'S24': [(sorted(r for r in _ls.L if r.startswith(('k_char::', 'k_byte::'))), anyv)],
}
import wit
CUSTOM = {'S26': [wit.run]}

CONTRACT = ['child parsers, streams, errors and user functions behave according to the library contract (Parser/StreamOnce/ResetStream/ParseError documentation)',
            'the pinned nightly compiler translates the source to MIR correctly']
ASSUME = {p: CONTRACT for p in list(ENGINE) + list(LIN)}
