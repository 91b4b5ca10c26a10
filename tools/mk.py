#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below, so that
they stay in step: a property is claimed when its harness module exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEC, ENC, COD = 'src/codec/decode.rs', 'src/codec/encode.rs', 'src/codec/mod.rs'
DEF, PRO, IO, FR = 'src/protocol/definitions.rs', 'src/protocol/mod.rs', 'src/io.rs', 'src/framing.rs'
INM, OUT, BODY = 'src/message/inmessage.rs', 'src/message/outmessage.rs', 'src/message/body.rs'
TY, VAR, SYM = 'src/types/mod.rs', 'src/types/variant.rs', 'src/types/symbol.rs'
GEN = 'codegen/definitions.rs'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  na=na))


prop('C01', 'Fixed-width values survive a round trip in their smallest AMQP form',
     'Every boolean, integer, floating-point, character and UUID value encodes to the smallest AMQP 1.0 form of its type, '
     'with exactly the number of octets the encoder announced, and decodes back to the identical value (floats bit for bit) with nothing left over. '
     'The same value decodes identically when it travels as a dynamically typed value.',
     ['inputs'], 'all values of all fixed-width AMQP types (every one of the 2^8..2^128 bit patterns)',
     'Tests check a few values per type; size classes change at 0, 127/128, 255/256 and sign boundaries that they mostly skip.',
     [DEC, ENC, VAR], [('per-type size classes', ENC), ('per-format-code decoding', DEC)], ['encode / decode of a value'])
prop('C02', 'Text, symbols and binary survive a round trip at every length',
     'Every string, symbol and binary value encodes with the one-octet length form exactly when it fits and the four-octet form otherwise, '
     'with the announced number of octets, and decodes back to identical contents, leaving the octets that follow untouched. '
     'Text is accepted exactly when it is well-formed UTF-8, in either length form.',
     ['inputs'], 'all contents; all lengths within the bounds, including both sides of every length-form boundary',
     'Tests use one short and one long text; the length-form boundary, invalid UTF-8 and trailing octets are not tried.',
     [DEC, ENC, TY, SYM], [('length-form choice', ENC), ('UTF-8 validation', DEC)], ['encode / decode of a value'])
prop('C03', 'Timestamps denote the same instant on the wire and in memory',
     'A timestamp decodes to the instant that many milliseconds after (or before) the Unix epoch, and encodes as that count with anything below a millisecond dropped. '
     'A count that the calendar type cannot represent is reported as an error, never a panic or another instant.',
     ['inputs'], 'millisecond counts over the whole 64-bit range, negative ones included',
     'Tests decode two fixed instants.',
     [DEC, ENC], [('floor division into seconds and fraction', DEC), ('milliseconds of a calendar time', ENC)], ['encode / decode of a timestamp'])
prop('C04', 'Lists, maps and arrays survive a round trip at every size',
     'Every list, map, array and described value encodes as the compound format its type prescribes, with size and count octets that describe exactly the octets written, '
     'in the one-octet or four-octet form as its size requires, and decodes back to an equal value with nothing left over, nested values included.',
     ['inputs'], 'element types, element contents, element counts and total sizes around the one-octet limits, and nesting, within the bounds',
     'Tests contain no compound near the 255-octet or 255-element limits and few with more than two elements.',
     [DEC, ENC, TY, VAR], [('compound headers', ENC), ('compound headers', COD), ('element iteration', DEC)], ['encode / decode of compounds'])
prop('C05', 'Every wire form of a type is accepted, no other',
     'A decoder accepts each encoding form AMQP 1.0 allows for its type, giving the same value whichever form was used, and answers any other constructor octet with an error naming that octet. '
     'An optional value is absent exactly when the null constructor is on the wire.',
     ['inputs'], 'all 256 constructor octets for every decodable type, all contents of the forms',
     'Tests decode one or two forms of some types and never an octet that is not valid.',
     [DEC, COD], [('format-code dispatch', DEC), ('constructor check', COD)], ['decode of each public type'])
prop('C06', 'Decoding is total: arbitrary bytes never panic, hang or overflow',
     'Decoding any byte sequence as any type either yields a value or an error: it never panics, reads out of bounds, overflows or fails to end. '
     'A value that was accepted can be encoded again, and decoding that encoding gives an equal value.',
     ['inputs'], 'all byte sequences up to the stated lengths, for every decodable type',
     'Tests feed only well-formed input.',
     [DEC, COD, DEF, FR, INM], [('length checks before every read', COD)], ['decode of each public type on untrusted bytes'])
prop('C07', 'Truncated values are incomplete, trailing bytes are left alone',
     'Cutting a valid encoding short at any point is reported as incomplete input. '
     'Octets that follow a value are returned exactly as they were and do not influence it.',
     ['inputs', 'fault_sequences'], 'all values of all types within the bounds, every cut point, arbitrary following octets',
     'Tests decode complete buffers only.',
     [DEC, COD, DEF], [('length checks', COD)], ['decode of prefixes and of encodings with followers'])
prop('C08', 'A compound never reaches outside its declared size',
     'Decoding a list, map, array, described composite or frame consumes exactly the octets its declared size covers, and its value depends on no octet outside them. '
     'A declared size too small for its contents is an error.',
     ['inputs'], 'arbitrary declared sizes, counts and contents within the bounds',
     'Tests never contain a size that disagrees with the contents.',
     [DEC, COD, DEF, IO], [('sub-slice for the declared size', DEC), ('split before decoding', DEF)], ['decode of compounds with inconsistent headers'])
prop('C09', 'Memory requested while decoding is bounded by the bytes received',
     'The memory in use while a value is decoded grows in proportion to the octets actually present, whatever counts, sizes or lengths the input announces, at one level or at many levels of nesting.',
     ['inputs'], 'arbitrary announced counts and sizes up to 2^32-1 with few octets present',
     'Tests announce only honest counts.',
     [DEC, COD, IO], [('preallocation bound', DEC)], ['heap requests while decoding'])
prop('C10', 'Framing does not depend on how the stream is split',
     'Feeding a byte stream to the frame decoder in arbitrary pieces yields the same frames, in the same order, as feeding it at once, and leaves the same octets unread. '
     'No frame is delivered before its last octet has arrived.',
     ['inputs', 'schedules', 'histories'], 'streams of frames with arbitrary contents, all ways of splitting them within the bounds',
     'Tests decode single complete buffers; the stream decoder has no test.',
     [IO], [('header/body decoding state', IO)], ['the stream decoder fed piecewise'])
prop('C11', 'Malformed frames are rejected and the stream stays in step',
     'A frame whose size, data offset or type is invalid, or whose body does not fill it exactly, is answered with an error. '
     'The octets of a rejected frame are dropped whole, so that the frames after it are decoded as if it had not been there.',
     ['inputs', 'histories', 'fault_sequences'], 'arbitrary frame headers and bodies within the bounds, followed by further frames',
     'Tests contain no malformed frame.',
     [IO, FR, COD], [('header validation', COD), ('state reset', IO)], ['the stream decoder on malformed frames'])
prop('C12', 'Writing frames appends exactly the frames',
     'Encoding a frame appends its octets to the output, after whatever is already there and whatever room the buffer has, with a size prefix equal to the octets written. '
     'Several frames written in a row come out of the decoder as the same frames in the same order.',
     ['inputs', 'histories'], 'frame contents, buffer fill levels and capacities, and sequences of frames within the bounds',
     'Tests encode into fresh buffers only.',
     [IO, FR, ENC], [('reservation and append', IO)], ['the stream encoder and decoder'])
prop('C13', 'Performatives and composites survive a round trip for every field set',
     'Every AMQP and SASL performative, source, target, message header, message properties, error and delivery state encodes to the announced number of octets and decodes to an equal value, '
     'for every combination of present and absent optional fields and for every field content.',
     ['inputs', 'configurations'], 'all presence combinations and field contents within the bounds, lists on both sides of the one-octet limit',
     'Tests round-trip two performatives with fixed contents.',
     [DEF, GEN, PRO, FR], [('field order and size generation', GEN)], ['encode / decode of performatives'])
prop('C14', 'Performatives use the field layout and descriptors of AMQP 1.0',
     'On the wire each performative is its AMQP 1.0 descriptor followed by a list with every field at its specified position and in its specified type. '
     'A performative written to the specification by another implementation decodes to exactly the values that were written.',
     ['inputs', 'configurations'], 'all field contents and presence combinations within the bounds, all equivalent wire forms of the fields',
     'Round-trip tests cannot notice a mistake made on both sides; only two performatives are compared with given octets.',
     [DEF, GEN, PRO], [('descriptor codes and field order', 'codegen/specification.json'), ('decoder generation', GEN)], ['encoded performatives', 'decode of reference encodings'])
prop('C15', 'Omitted fields take their AMQP default, mandatory ones are required',
     'A field that is null or left off the end of a performative decodes as absent or as the default AMQP 1.0 gives for it, with the fields before it unaffected. '
     'A performative lacking a mandatory field is answered with an error naming that field.',
     ['inputs', 'configurations'], 'all sets of nulled fields and all list lengths of all performatives',
     'No test decodes a performative with fewer fields than defined.',
     [DEF, GEN], [('default and mandatory handling', GEN)], ['decode of partial performatives'])
prop('C16', 'Descriptors select the right type, in numeric and symbolic form',
     'A described performative, SASL body, message section, outcome or delivery state is decoded as the type its descriptor names, whichever numeric form or symbolic name carries the descriptor. '
     'An unknown descriptor, or a value without a descriptor where one is needed, is an error.',
     ['inputs'], 'all 64-bit numeric descriptors in all three forms, all symbols within the bounds, all constructor octets',
     'Tests only use the encoder\'s own numeric form.',
     [DEF, GEN, COD, TY, INM], [('descriptor dispatch', GEN)], ['decode of described values'])
prop('C17', 'Restricted values accept exactly the choices AMQP 1.0 defines',
     'Every restricted type (roles, settle modes, outcome codes, error conditions, policies) maps each defined wire value to its choice and back. '
     'Any other value of the underlying type is an error, or for open-ended symbols is kept verbatim.',
     ['inputs'], 'all values of the underlying numeric types; all symbols within the bounds',
     'No test decodes an undefined choice.',
     [DEF, GEN, PRO], [('choice tables', 'codegen/specification.json')], ['conversion and decode of restricted types'])
prop('C18', 'Messages survive a round trip with any set of sections',
     'A message with any subset of header, annotations, properties, application properties, body and footer encodes to the announced size in the section order AMQP 1.0 prescribes, and decodes to the same sections. '
     'What one message type writes the other reads with the same contents.',
     ['inputs', 'configurations'], 'all subsets of sections with contents within the bounds',
     'Tests cover one section at a time.',
     [INM, OUT, BODY], [('section encoding and dispatch', INM)], ['encode / decode of messages'])
prop('C19', 'Announced message sizes are never stale',
     'After any sequence of changes, size queries, copies and encodings, the announced size of a message equals the octets it encodes to. '
     'Asking for the size changes neither the message nor its equality with others.',
     ['inputs', 'histories'], 'all sequences of message operations within the bounds, with arbitrary contents',
     'Tests compute the size once, right before encoding.',
     [INM, OUT], [('cached size reset by every setter', INM)], ['message size after modification'])
prop('C20', 'Equality, order and hash of text and dynamic values are consistent',
     'Text and symbols compare, order and hash by content alone, whichever way they are stored or borrowed, so that they work as map keys. '
     'Dynamic values that are equal have equal hashes, equality is reflexive, symmetric and transitive, and comparing always ends.',
     ['inputs'], 'pairs and triples of texts, symbols and dynamic values within the bounds, all storage kinds',
     'Tests compare one pair per type.',
     [TY, SYM, VAR], [('trait implementations', TY), ('trait implementations', VAR)], ['comparison, hashing, map lookup'])
prop('C21', 'Protocol headers are recognised exactly',
     'The protocol header codec accepts exactly the four-octet name, a known protocol id and version 1.0.0, waits for all eight octets, consumes nothing else, and reports what is wrong otherwise. '
     'Headers it writes are appended to the output and are read back as the same protocol.',
     ['inputs', 'schedules'], 'all 8-octet headers, all prefixes, arbitrary following octets',
     'The header codec has no test.',
     [IO, 'src/errors.rs', PRO], [('header comparison', IO)], ['the protocol header codec'])
prop('C22', 'Payloads travel verbatim through transfers and SASL frames',
     'The octets of a transfer payload, of message data and of SASL responses arrive unchanged, byte for byte, and a nested message arrives as the same message. '
     'A reply carries the correlation of the message it answers.',
     ['inputs'], 'all payload contents and lengths within the bounds',
     'Tests use one fixed payload.',
     [DEF, GEN, PRO, FR, OUT, BODY], [('transfer body handling', GEN)], ['encode / decode of transfers and messages'])
prop('C23', 'Conversions and accessors preserve values',
     'Converting a native value into a dynamic value, an identifier, a symbol or a text and reading it back gives the same value, and the accessors answer only for the kinds they name.',
     ['inputs'], 'all values within the bounds for every conversion offered',
     'Tests cover a handful of conversions.',
     [TY, VAR, SYM, PRO], [('From implementations', VAR)], ['conversion and accessors'])
prop('C24', 'Deeply nested input is rejected without exhausting the stack',
     'Input that nests lists, maps (by value or by key) and described values in any mixture is decoded up to a moderate depth (100 levels) and rejected with an error when it is nested deeper than 1000 levels, '
     'with a recursion that stays below a fixed depth however long the input is; this holds wherever dynamic values occur (lists, maps, error info, node and connection properties, message sections, streams). '
     'What one decoding did, whether it succeeded or failed at any level, does not change what the next one accepts.',
     ['inputs', 'histories'], 'mixtures of nesting forms, depths and sequences of decodings within the bounds',
     'No test nests deeper than one level or decodes again after a failure.',
     [VAR, DEC], [('limit on the nesting of dynamic values', DEC)], ['decode of a dynamic value'])

TECH = 'path-exhaustive symbolic execution of the compiled LLVM code of /repo, branches and assertions decided by Z3'
NOTE = ('Holds for every input within the bounds listed per harness in the evidence. Trusts rustc up to LLVM IR, the executor in engine/ '
        '(cross-checked by native replay of counterexamples and of sampled paths) and Z3.')


def main():
    claimed = lambda p: os.path.exists(os.path.join(V, 'harness', 'src', p['id'].lower() + '.rs'))
    listed = [p for p in P if claimed(p) or p['na']]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in listed:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k != 'na'}) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py setup',
             hooks=dict(guard='none', enable='no hooks: the harness crate uses the public interface only', source_commits=[]),
             checks=[dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'],
                          thorough_cmd='python3 check.py %s thorough' % p['id'],
                          technique=TECH, level='other', level_note=NOTE) for p in listed if not p['na']],
             not_applicable=[dict(property=p['id'], reason=p['na']) for p in listed if p['na']])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(listed), 'properties,', len(m['checks']), 'checks')


main()
