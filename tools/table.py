P('S01', 'Sequences run their parts in order and keep every result',
  'A sequence of parsers (tuples of any length, with/skip/between, then) runs its parts one after the other, each exactly once and from where the previous one stopped, and succeeds with exactly the results of its parts in order. It stops at the first part that fails, and fails without having committed only if no part consumed input.',
  ['inputs', 'programs'], 'for all parts (any combination of succeeding, failing, committing parts), all inputs and both complete and partial streams',
  'Tests sample a handful of short sequences on complete input; the four outcomes of every part, each of 20 arities and every suspension point multiply to far more cases than any test list.',
  ['src/parser/sequence.rs', 'src/lib.rs'], [('tuple parser macro', 'src/parser/sequence.rs tuple_parser!'), ('With/Skip/Between/Then', 'src/parser/sequence.rs')],
  TYPESTATE, TNOTE)
P('S02', 'Choice tries alternatives in order and only after an uncommitted failure',
  'A choice runs its alternatives in order, each from the same input position, and moves on to the next one only when the previous one failed without committing; the first success or committed failure is the result. Optional parsers succeed with nothing and leave the input untouched exactly when the inner parser fails without committing.',
  ['inputs', 'programs'], 'for all alternatives and their outcomes, tuple, array and slice choices, and all inputs',
  'Whether the input is restored and the right alternative is resumed depends on how each alternative failed and on where the input was split; tests use a few fixed alternatives.',
  ['src/parser/choice.rs'], [('Or/Choice/Optional', 'src/parser/choice.rs')], TYPESTATE, TNOTE)
P('S03', 'The outcome of a parser tells exactly whether input was consumed',
  'A combinator reports success or failure as committed exactly when one of the parsers it ran since its start committed, and as not committed otherwise, on complete input and after any number of suspensions. A caller that sees an uncommitted outcome can therefore go back safely and one that sees a committed failure must not.',
  ['inputs', 'programs', 'histories'], 'for all child outcomes, all combinators, and all suspension histories',
  'The flag is merged across many steps and stored across suspensions; tests rarely look at it and never over all outcome sequences.',
  ['src/error.rs', 'src/parser/sequence.rs', 'src/parser/choice.rs', 'src/parser/repeat.rs', 'src/parser/combinator.rs'],
  [('Commit::merge / ParseResult', 'src/error.rs'), ('commit flags in partial states', 'src/parser/repeat.rs, src/parser/sequence.rs')], TYPESTATE, TNOTE)
P('S04', 'Lookahead never consumes input and attempts never commit to a failure',
  'A lookahead that succeeds and a negative lookahead in every case leave the input exactly where it was, and a negative lookahead succeeds exactly when its parser fails. An attempted parser turns every failure into one that has not committed, so that an alternative can be tried from the start position, also when the input arrives in pieces.',
  ['inputs', 'programs', 'histories'], 'for all inner parsers, all outcomes and all splits of the input',
  'Tests cover single fixed inner parsers with whole input; restoring the position depends on the inner outcome and on suspensions.',
  ['src/parser/combinator.rs'], [('Try/LookAhead/NotFollowedBy', 'src/parser/combinator.rs')], TYPESTATE,
  TNOTE + ' For attempt, children consume one or two tokens at a time and suspend at most twice per run.')
P('S05', 'Repetition collects every element once, in order, and stops where it must',
  'A repeating parser (many, count, sep_by, sep_end_by and their variants) collects each element its inner parser produced exactly once and in order, and leaves the input right after the last accepted element or separator. It stops only at an uncommitted failure or at its upper bound, fails if it collected fewer elements than its minimum, and passes on every committed failure.',
  ['inputs', 'programs', 'histories'], 'for all element and separator parsers, all their outcomes, all inputs and suspension histories',
  'Number of elements, which element suspends, and how the last one fails are unbounded; tests use a few lists.',
  ['src/parser/repeat.rs'], [('Iter and the repeat parsers', 'src/parser/repeat.rs')], TYPESTATE, TNOTE + ' Elements are counted up to 3 where a bound is given.')
P('S06', 'Chains, until-loops and escapes accept exactly their grammar',
  'chainl1 and chainr1 parse operands separated by operators and fold them with exactly those operators, to the left or to the right, leaving an operator that no operand follows unconsumed. take_until, skip_until, repeat_until, escaped, iterate and recognize run their parts in the documented order and return every element or token in between exactly once; what only looks ahead is not consumed.',
  ['inputs', 'programs', 'histories'], 'for all operand, operator, end and escape parsers, all their outcomes, all inputs and suspension histories',
  'Length of the chain, which part fails and how, and where the input is split are unbounded; tests use a few fixed grammars.',
  ['src/parser/repeat.rs', 'src/parser/combinator.rs'], [('Chainl1/Chainr1/TakeUntil/RepeatUntil/Escaped/Iterate', 'src/parser/repeat.rs'), ('Recognize', 'src/parser/combinator.rs')],
  TYPESTATE, TNOTE + ' For recognize, the parser takes one or two tokens at a time.')
P('S07', 'Parsing input in pieces gives the same result as parsing it at once',
  'When a parser on a partial stream runs out of input it reports that more input is needed, leaves the input at a position from which the same parser state can resume, and when resumed there continues without losing, repeating or reordering anything. However the input is split, the final outcome is the one of parsing the whole input at once.',
  ['inputs', 'programs', 'histories'], 'for all split points, any number of suspensions, all child parsers and combinators',
  'The tests split a few inputs at sampled points; a resume error needs a particular combinator suspended at a particular step with a particular earlier history.',
  ['src/parser/mod.rs', 'src/parser/sequence.rs', 'src/parser/choice.rs', 'src/parser/repeat.rs', 'src/parser/combinator.rs'],
  [('parse modes', 'src/parser/mod.rs parse_mode!/ParseMode'), ('PartialState types', 'src/parser/*.rs')], TYPESTATE, TNOTE)
P('S08', 'A finished parse leaves its state as good as new',
  'When a parser finishes, whether it succeeds or fails without committing, the partial state it was run with holds nothing of that run: the next parse with the same state behaves like one with a fresh state. No value, flag, counter or suspended inner state of an earlier or failed run is ever picked up again.',
  ['programs', 'histories'], 'for all combinators and all sequences of parses with one state, each with any outcomes and suspensions',
  'Tests almost never run a parser twice with the same state after a failure, and stale state shows only in particular sequences of outcomes.',
  ['src/parser/sequence.rs', 'src/parser/choice.rs', 'src/parser/repeat.rs', 'src/parser/combinator.rs'], [('state resets', 'src/parser/*.rs')], TYPESTATE, TNOTE)
P('S09', 'Failures carry the errors of the parsers that caused them',
  'The error a combinator fails with contains the error of the inner parser that failed; a choice reports the errors of all its alternatives and a sequence what was also expected at the failing position, so a parser that fails where others had already consumed input is named in the error. An error is an end-of-input error on a partial stream exactly when more input could change the outcome, and a failure to reset the stream is reported.',
  ['inputs', 'programs'], 'for all combinators, child outcomes and errors',
  'Tests compare a few complete error values; which errors are merged depends on the outcome combination.',
  ['src/error.rs', 'src/parser/choice.rs', 'src/parser/sequence.rs'], [('error merging', 'src/parser/choice.rs, src/parser/sequence.rs')], TYPESTATE, TNOTE)
P('S10', 'Wrapping a parser does not change what it parses',
  'Wrappers that exist for typing, allocation, recursion, laziness or error messages (boxing, references, opaque!, parser! functions, lazy, factory, left/right, no_partial, any_partial_state, expected, message, silent, ignore) run the wrapped parser exactly once from the current position and pass its value, commitment, consumption and suspension on. Only the value of ignore and the error annotations they are documented to add differ.',
  ['inputs', 'programs', 'histories'], 'for all wrapped parsers, all outcomes, all suspension histories',
  'The wrappers differ in when the wrapped parser and its state are created and dropped, which only shows in particular suspend and resume sequences.',
  ['src/parser/mod.rs', 'src/parser/combinator.rs', 'src/parser/error.rs', 'src/lib.rs'],
  [('delegating impls', 'src/parser/mod.rs'), ('AnyPartialState/Lazy/Factory/Opaque/Either/NoPartial', 'src/parser/combinator.rs'), ('parser! macro', 'src/lib.rs')], TYPESTATE, TNOTE)
P('S11', 'Mapping a result changes nothing but the result',
  'Parsers that transform the result of another parser (map, map_input, flat_map, and_then) apply the function exactly once per success to exactly the value parsed, and otherwise pass outcome, commitment, position and errors on unchanged. A failing conversion is a failure of the parser, committed if the inner parser committed.',
  ['inputs', 'programs', 'histories'], 'for all inner parsers, outcomes and functions',
  'Tests map a few parsers on complete input.', ['src/parser/combinator.rs'], [('Map/MapInput/FlatMap/AndThen', 'src/parser/combinator.rs')], TYPESTATE, TNOTE)
P('S12', 'Token parsers take exactly the tokens they accept',
  'A token parser (any, satisfy, satisfy_map, token, one_of, none_of, tokens, tokens_cmp) asks for one token at a time, applies its test exactly once to exactly the token it got, and accepts or rejects by that test alone; accepting consumes the token and yields it, and rejecting the first token consumes nothing. value, produce and position consume nothing, unexpected always fails without consuming, and eof succeeds exactly at the end of the input.',
  ['inputs', 'programs', 'histories'], 'for all tokens, predicates, token lists, streams (failing ones too), and split points',
  'Tests try a few characters on complete input; stream errors, the end of a partial stream and mismatches after the first token combine in ways they do not sample.',
  ['src/parser/token.rs', 'src/stream/mod.rs', 'src/parser/function.rs'], [('token parsers', 'src/parser/token.rs'), ('uncons', 'src/stream/mod.rs')], TYPESTATE,
  TNOTE + ' Token lists have three elements.')
P('S13', 'Every way of running a parser gives the same outcome',
  'parse, parse_with_state, parse_stream, parse_stream_partial, parse_lazy and iter run the parser exactly once from the current position and hand on its value, commitment, remaining input and errors; the top-level ones add what was found and what was expected to an uncommitted failure, exactly once. The entry points without a partial state leave a partial stream where it was when more input is needed, so that parsing can start over.',
  ['inputs', 'programs', 'histories'], 'for all parsers and combinators, all outcomes, complete and partial streams',
  'Several parsers override single entry points; tests use one entry point per parser, mostly on complete input.',
  ['src/parser/mod.rs', 'src/parser/combinator.rs', 'src/parser/repeat.rs'], [('default methods and overrides of Parser', 'src/parser/mod.rs'), ('forward_parser!', 'src/lib.rs')], TYPESTATE, TNOTE)
P('S14', 'Range parsers return exactly the stretch of input they consumed',
  'A range parser (range, take, take_while, take_while1, take_until_range, take_fn, recognize, recognize_with_value) returns exactly the contiguous stretch from where it started to where it leaves the input, ending where its size, predicate, searched range, searcher or inner parser says. On partial input it asks for more exactly when more input could change the result, and resumes without skipping, rescanning wrongly or losing input.',
  ['inputs', 'programs', 'histories'], 'for all inputs, predicates, searchers, inner parsers and split points',
  'Tests use short inputs split at sampled points; offsets kept across several suspensions and matches that straddle a split are unbounded.',
  ['src/parser/range.rs', 'src/stream/mod.rs'], [('parse_partial_range/RecognizeWithValue/TakeUntilRange/TakeFn', 'src/parser/range.rs'), ('uncons_range/uncons_while', 'src/stream/mod.rs')], TYPESTATE,
  TNOTE + ' Distances are tracked symbolically (relative to the position they were measured from); resetting the stream is assumed not to fail in take_while and take_while1.')
P('S15', 'Combinators never panic, whatever input and parsers they are given',
  'No combinator, token or range parser and no entry point panics or reaches an unreachable-marked point, whatever its inner parsers return, whatever the input holds, wherever it is split, and however often a state is reused. Inner parsers and user functions that panic themselves are excepted.',
  ['inputs', 'programs', 'histories'], 'for all inputs, child outcomes, split points and sequences of parses with one state',
  'The library relies on unreachable!, unwrap and panic! at points that only a particular outcome sequence could reach.',
  ['src/parser', 'src/stream/mod.rs', 'src/error.rs'], [('unreachable!/panic!/unwrap sites', 'src/parser/range.rs, src/parser/choice.rs, src/parser/sequence.rs')],
  'reachability of panic sites in the typestate fixpoint over monomorphic MIR', TNOTE + ' Overflow of counters is not excluded by it; sites it can only exclude by assumption are listed in the evidence.')
P('S16', 'Parsers always make progress',
  'Every combinator, token or range parser and entry point terminates if its inner parsers do: between two steps of its grammar (an inner parser run, a token or range taken, a function applied) it never runs in a circle and never recurses without bound. Only a repetition of something that succeeds without consuming may go on for ever, as documented.',
  ['inputs', 'programs', 'histories'], 'for all inputs, child outcomes, split points and histories',
  'An endless loop needs the particular input or resume point that makes its exit condition unreachable; a passing test says nothing about it.',
  ['src/parser'], [('loops of the repeat, range and choice parsers', 'src/parser/repeat.rs, src/parser/range.rs')],
  'non-progress cycle detection (strongly connected components of the abstract state graph of the typestate fixpoint over MIR)', TNOTE)
LABEL = 'event and label dataflow (abstract interpretation to fixpoint) over monomorphic MIR, compared with an event rule per operation'
LNOTE = ('Everything outside the analysed code is an uninterpreted label with arbitrary outcomes; numbers are linear forms over input '
         'positions. Exhaustive over that abstraction, loops over input included; no execution and no solver. Trusts the models, the MIR '
         'dumper and rustc.')
P('S17', 'Stream adapters hand on exactly what the stream they wrap does',
  'An adapter around a stream (a reference, PartialStream, CompleteStream, MaybePartialStream, state::Stream, position::Stream, easy::Stream, span::Stream) passes each request on exactly once with the same arguments and returns exactly its answer, only converting errors to its own type where it has one. Checkpoints restore everything they cover, is_partial is the one the adapter is named after, and what the adapter carries along (state, positioner) is never lost.',
  ['inputs', 'programs', 'histories'], 'for all wrapped streams, all their answers, all predicates and all lengths of scanned input',
  'Each of ten adapters forwards nine operations by hand and only a few of these pairs are used in tests; a wrong forward shows only on a failing or partial inner stream.',
  ['src/stream/mod.rs', 'src/stream/state.rs', 'src/stream/position.rs', 'src/stream/span.rs', 'src/stream/easy.rs'],
  [('adapter impls of StreamOnce/ResetStream/Positioned/RangeStreamOnce', 'src/stream/*.rs')], LABEL, LNOTE)
P('S18', 'The reported position is that of the next token',
  'A position tracker counts every token taken and nothing else: the index positioner advances by one per token and by the length of a range, the source position moves to column one of the next line after a newline and one column on after any other character, both for single tokens and for ranges. It starts at the documented origin, a reset returns to the checkpointed position, and positions are ordered as the input is.',
  ['inputs', 'histories'], 'for all tokens, ranges of any length and content, starting positions and sequences of takes and resets',
  'Tests follow a few short ASCII inputs; range updates, multi-byte characters, resets and newlines combine in ways they do not sample.',
  ['src/stream/position.rs', 'src/stream/span.rs'], [('Positioner/RangePositioner impls and position::Stream', 'src/stream/position.rs')], LABEL,
  LNOTE + ' Counters are assumed not to overflow.')
P('S19', 'Streams over memory hand out the input as it is and never read beyond it',
  'The streams over strings, slices and iterators take exactly the next token, a range of exactly the size asked for or the longest run the predicate accepts, asking it once per token and in order up to the first rejection, and leave exactly the rest. Too little input, a size inside a character and the end of input are reported with the input unchanged, no unchecked access can leave the slice, and distance, range, length and positions describe the true place in the input.',
  ['inputs'], 'for all inputs of any length, sizes, predicates and elements',
  'The scanning loops are unrolled and use unchecked indexing, so errors depend on input length modulo eight, on multi-byte characters and on where the predicate stops.',
  ['src/stream/mod.rs'], [('StreamOnce/RangeStreamOnce for &str, &[T], SliceStream, IteratorStream', 'src/stream/mod.rs'), ('PointerOffset', 'src/stream/mod.rs')],
  'relational dataflow over input positions (difference bounds, abstract interpretation to fixpoint) over monomorphic MIR', LNOTE + ' Texts are valid UTF-8.')


P('S20', 'Combining and converting errors neither loses nor invents anything',
  'Merging two errors keeps the one further into the input and, at the same position, everything from both exactly once. Adding drops only an error that is there already, setting the expected message replaces only expectations, clearing removes only expectations, and two errors are equal exactly when kind and content are. Mapping and converting to another error type changes no kind, content, order or position, a message given as token, range, static or formatted text arrives as such, and an error counts as end of input exactly when it says so.',
  ['inputs'], 'for all errors, positions, contents and equality and order of them, lists of up to three elements each',
  'Which messages survive depends on which errors meet at which positions; the tests check a few formatted messages.',
  ['src/stream/easy.rs', 'src/error.rs', 'src/stream/read.rs'],
  [('Errors::merge/add_error/set_expected, ParseError/StreamError for easy::Errors, easy::Error', 'src/stream/easy.rs'), ('UnexpectedParse, StringStreamError, StreamError/ParseError provided methods', 'src/error.rs')],
  'structural label dataflow over error values and lists, checked against set-level oracles on monomorphic MIR', LNOTE + ' Lists have at most three elements.')

P('S21', 'Operations on results keep value, error and commitment',
  'Mapping, chaining and converting parse results keeps the value or the error, and the outcome is committed exactly when one of the parts is: a committed result followed by anything is committed, an uncommitted one leaves the outcome of what follows unchanged. Results turn into each other without changing success, commitment, payload or the offset of an uncommitted error, and ctry! hands errors on and splits successes accordingly.',
  ['inputs'], 'for all results and continuations',
  'Every parser and user-written combinator composes its result with these operations; a wrong flag shows only in alternatives taken later.',
  ['src/error.rs'], [('ParseResult, Commit, StdParseResult conversions, ctry!', 'src/error.rs')],
  'structural label dataflow over result values, checked against oracles on monomorphic MIR', LNOTE)
P('S22', 'Incremental decoding neither loses nor repeats bytes',
  'Each round of decode! parses exactly the bytes still buffered, at the position of the decoder, with the kept parser state, on a stream that is partial until the reader reported the end; unless parsing failed, exactly the consumed bytes are then dropped, and more is read only if the error was an end of input on a partial stream. Every read gets initialised, non-empty space, what was read is appended whole, and 0 alone means the end; values, parse errors and I/O errors (with the position) are returned as they are, a pending read loses nothing, and BufReader hands out every byte once and in order.',
  ['inputs', 'schedules', 'fault_sequences'], 'for all parsers, streams, readers and splits of the input into reads',
  'Tests feed a few inputs in a few chunk sizes to one reader kind; a lost byte, a wrong end of input or an uninitialised read depends on how reads are split and on where they are pending or fail.',
  ['src/stream/mod.rs', 'src/stream/decoder.rs', 'src/stream/buf_reader.rs'],
  [('decode, decode_tokio, decode! and its asynchronous forms', 'src/stream/mod.rs'), ('Decoder', 'src/stream/decoder.rs'), ('Buffer, Bufferless, BufReader', 'src/stream/buf_reader.rs')],
  'event and label dataflow over the expanded decode loop and reader code (including the coroutines of the async forms), checked against an oracle of the round', LNOTE)
P('S23', 'Buffered streams replay exactly what they keep',
  'buffered::Stream hands out the tokens of its input in order, each at the position it had there: a token is read from the input only when all kept ones were handed out, and kept until the buffer of the given size is full, when the oldest one is dropped. Going back to any token still kept succeeds and replays exactly the same tokens and positions, going further back is an error that changes nothing, and so does an error of the input, which is handed on as it is. read::Stream turns each byte, I/O error and end of its reader into the same token, error and end of input.',
  ['inputs', 'histories'], 'for all buffer sizes, states of the buffer, inputs, offsets and sequences of takes and resets',
  'Which tokens can be replayed depends on how far was read and how often was gone back; tests use a few short lookaheads.',
  ['src/stream/buffered.rs', 'src/stream/read.rs'], [('buffered::Stream', 'src/stream/buffered.rs'), ('read::Stream', 'src/stream/read.rs')],
  'relational dataflow over the offsets of the ring buffer (inductive invariant base <= offset <= end) on monomorphic MIR', LNOTE)
P('S24', 'Named character, byte and number parsers accept exactly what they name',
  'The class parsers of parser::char (digit, space, upper, lower, letter, alpha_num, oct_digit, hex_digit, newline, crlf, tab, spaces) accept exactly the characters of their class as the methods of char define it, those of parser::byte exactly the ASCII class, and char and byte exactly the given token, and return what they took. The be_ and le_ number parsers take exactly the bytes of their type, in the order they are named after, and nothing when there are too few.',
  ['inputs'], 'for all characters, bytes and inputs',
  'Tests try a handful of characters; a wrong bound, a class restricted to ASCII or a swapped byte order shows only on the tokens nobody tried.',
  ['src/parser/char.rs', 'src/parser/byte.rs'], [('class parsers', 'src/parser/char.rs'), ('class parsers and num', 'src/parser/byte.rs')],
  'value-set dataflow (interval sets of the token, Unicode tables as uninterpreted classes) over monomorphic MIR', LNOTE)
P('S25', 'Byte searches and regular expression parsers take the first match',
  'take_until_byte, byte2, byte3 and take_until_bytes take exactly the input before the first place the byte or sequence occurs at, fail or ask for more input when it does not occur, and find the same place when resumed. The regex parsers match at the current position (match_ anywhere, consuming nothing), return the text, captures or all of them in order, and consume exactly up to the end of the last match.',
  ['inputs', 'histories'], 'for all inputs, needles, regular expressions and suspension points',
  'Tests search a few short literals; a candidate skipped because its first byte occurs twice or a match split by a partial buffer shows only on inputs built for it.',
  ['src/parser/byte.rs', 'src/parser/range.rs', 'src/parser/regex.rs'], [('take_until_byte*', 'src/parser/byte.rs'), ('regex parsers', 'src/parser/regex.rs')],
  'search-frontier dataflow (excluded prefix, candidate and matched needle prefix as symbolic positions) over monomorphic MIR', LNOTE)
P('S26', 'The compiler accepts every promised use and refuses unsafe ones',
  'combine builds without std, without alloc and with each optional feature alone. Parsers, partial states, streams, errors and the futures of the asynchronous decoders are Send and Sync whenever their parts are, and never when a part is not; a partial state declared Send or Sync holds nothing that is not. What a parser takes from the input cannot outlive the input, and a stream that cannot go back or has no ranges is not accepted where a parser needs that.',
  ['programs', 'build configurations'], 'for all programs that use the listed constructs, decided by their types',
  'Tests are built in one configuration and cannot contain a program that must not compile; a lost auto trait or lifetime shows only in a program nobody has written yet.',
  ['src/lib.rs', 'src/parser', 'src/stream', 'src/error.rs'], [('feature gates and crate::lib', 'src/lib.rs'), ('Any*PartialState', 'src/parser/combinator.rs'), ('Stream and ResetStream bounds', 'src/stream/mod.rs'), ('async decoders', 'src/stream/buf_reader.rs')],
  'type-level witnesses: positive uses that must type-check and compile-fail cases that must be refused, over all feature sets',
  'Covers the listed uses and misuses, each for every program that instantiates them alike; trusts the type checker of the installed nightly compiler.')
