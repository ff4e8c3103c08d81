"""Writes DESIGN.md: tools/design.md plus tables made from the checks, the findings and seeded/.
Run as: PYTHONPATH=/repo:/repo/lib/python-bitcoinlib:/repo/lib/python-proofmarshal:/verif /opt/venv/bin/python tools/gen_design.py"""
import glob, importlib, json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROSE = {
'C01': ('dict', 'Every sequence of puts and removals up to the depth, from the empty tree and from trees built in every way, over key sets chosen by where their prefixes part '
        '(first bit, last bit, across byte boundaries, chains, combs); after every step lookups of present and absent keys, length, iteration and *all earlier trees* are compared '
        'with the dictionaries. Histories reaching the same serialized tree are merged (that representation is the complete state of an immutable tree).', 'tests build a handful of trees; an error in one shape of descent needs a particular relation of three prefixes'),
'C02': ('a second implementation of the documented construction on plain dictionaries', 'All histories as in C01 ending in equal contents have to give the hash the reference computes from the contents alone; '
        'all pairs of distinct contents and of tree types are compared for distinctness.', 'canonicity is a statement over all pairs of histories'),
'C03': ('the loop in the docstring', 'All pairs of trees over small universes of keys and values, including shared and separately built subtrees, pruned and received copies.', 'the shortcut recursion has cases for every relation of two prefixes'),
'C04': ('list', 'Every sequence of constructions, appends, extends and slices up to the depth, every index and every slice with bounds around the ends, of every length up to the bound (all mountain shapes below it).', 'the shape of a range depends on the binary representation of its length'),
'C05': ('a second implementation of the documented construction on lists', 'Every way to arrive at the same list - build, append, extend from lists, iterators, ranges of the same and other types, slices, deserialized copies - for every length up to the bound; all pairs of lists of small alphabets and of types for distinctness.', 'as C02'),
'C06': ('a model of which sub-proofs were touched', 'Explicit-state search whose state is the set of revealed sub-proofs: from every reachable state every query is made on a fresh copy; answer, hash, equality, flags and the exact serialization are compared with the model, and the original is compared with its former self.', 'what is revealed depends on the order and combination of queries'),
'C07': ('the unpruned original', 'After every set of queries of the sender (and chains of prune, use, send, prune, use, send) the receiver asks every query of the family: same answer, or the pruning error, or - for made queries - the same answer for certain.', 'a wrong *negative* answer needs a pruned node exactly on the path of an absent key'),
'C08': ('the values themselves, an independent encoder, and the type rules', 'All serializers and proof types over boundary values and cross products of attribute values; every wrong type and out-of-range value at every attribute.', 'boundary and type conjunctions'),
'C09': ('an independent strict parser of the format', 'All byte strings up to a length over all bytes; all strings over an alphabet of interesting bytes up to a greater length; every truncation, insertion, deletion and byte change of valid encodings of every type; accepted exactly if the parser accepts, then re-serialized equal.', 'a parser can only be judged on the inputs it should refuse, of which the tests have four'),
'C10': ('equality of (type, attributes)', 'A universe of proofs of all types, variants, derived tags, nested and confusable attribute values (same bytes in other types, shifted boundaries), compared pairwise: hash, ==, !=, dictionary keys; each hash also against the reference construction.', 'a statement over pairs'),
'C11': ('the same objects made in a fresh process, alone', 'Every order, up to the depth, of defining types, making, pruning, deserializing and hashing instances in one process; afterwards each type and instance is observed and has to look as it does alone. Every way of setting or deleting each attribute.', 'class-level caches make the outcome depend on history'),
'C12': ('the outcomes of all sequential orders', 'Real threads under a controlled scheduler: every line (in further spaces every bytecode) of the code is a scheduling point and all schedules up to the preemption bound are run, for a set of scenarios that share proofs, pruned copies, trees, ranges and transactions. Results of every thread and the final state have to be those of some sequential order.', 'races need a particular interleaving'),
'C13': ('tuples of bits', 'Every bit array up to a length, *made in every way* (which decides the slack bits in memory), under all unary operations, all slices, all pairs for binary operations; long pairs differing at each place; every sequence of operations up to a depth.', 'slack bits are invisible until two operations combine'),
'C14': ('the definition on plain transactions', 'All small transactions over a pool of outpoints (differing in one byte or one part), all seals, all input and output indexes in and out of range; every script within one byte or one encoding of the committing forms.', 'acceptance of wrong witnesses'),
'C15': ('the definition on plain transactions', 'All lists of seals with repetitions up to a length over the pool, in every order, long lists, all forms and values; the witnesses are verified for the digest and against others.', 'order and repetition'),
'C16': ('the definition', 'Leaves, inner nodes and whole maps up to depth 2 with genuine witnesses and witnesses defective in one way, children genuine, exchanged, pruned, and of other types.', 'a defect that is only consulted in one branch'),
'C17': ('an independent txid and the fixed pad', 'Transactions of all small shapes held whole, pruned, deserialized, used in parts; every input and output index and beyond; all pairs.', 'lazily computed hashes in pruned states'),
'C18': ('a model of the directory', 'The tool runs as itself in scratch directories: all command sequences up to a depth from every reachable directory; whole flows for every mix of seals and methods with each right, wrong or absent option; files changed at each byte; answers of a scripted node.', 'state carried in files between runs'),
'C19': ('an independent encoder and parser', 'Boundary values of all fields, cross products for small objects, all counts and lengths around the encodings; every truncation, extension, byte change, insertion and deletion of encodings; sequences in one stream.', 'as C09'),
'C20': ('a pool of objects in which sharing is explicit', 'Every sequence of copies, conversions, changes at every depth, hashing and serializing up to the depth, over pools of objects; afterwards all objects of the pool are compared with the model.', 'aliasing and stale caches need at least three steps'),
'C21': ('an independent parser and the definitions on parsed opcodes', 'see the module; all byte strings up to a length, all push encodings at every boundary and truncation, all element sequences up to a length joined in every way.', 'classification of malformed scripts'),
'C22': ('an independent script machine', 'Both machines execute the same script from the same stack. Every opcode on every stack over an alphabet of elements; arithmetic on all two-byte numbers; every script up to a length over several alphabets; nesting of conditionals.', 'official vectors are few per opcode, and use no combinations'),
'C23': ('the same machine, with the limits', 'Each limit is approached from both sides by every kind of contribution; all short byte strings are evaluated, all pairs of scripts of an alphabet verified.', 'limits interact with unexecuted branches, alt stack and opcode classes'),
'C24': ('the machine with signatures decided by a reference secp256k1 and signature hash', 'Script forms x hash types x inputs x transactions x every way a signature may be wrong; every m-of-n with every tuple of signatures from a pool; every relation of an input to a previous transaction.', 'acceptance of wrong signatures, order of keys'),
'C25': ('an independent signature hash on tuples', 'All transaction shapes up to 3x3 and around the count limit, every input index, all 256 hash types, all well-formed scripts up to 5 operations, sequences of calculations on one object.', 'masking depends on hash type, index and shape together'),
'C26': ('the predicate on tuples', 'All input sequences over null, half-null, equal and different outpoints times all output value sequences around the limits; coinbase scripts of all lengths; sizes around the limit.', 'conjunctions'),
'C27': ('the predicate on tuples', 'All compact exponents x mantissas x hashes around the target x chains; all sequences of transactions from a pool x merkle roots x proofs of work x times x options; sizes and signature operations around the limits, reached through each part; orders of selecting chains.', 'conjunctions'),
'C28': ('the definition on lists of ids', 'All equality patterns of ids up to a row length, all long rows, all ways of making a block, all orders of calculations on one block.', 'odd rows at every level'),
'C29': ('an independent base58', 'All byte strings and all strings up to a length, long ones with every number of leading zeros, all foreign characters at all positions, all single edits of checked strings.', 'corruptions'),
'C30': ('independent address and script forms', 'All scripts within one edit of the four forms with every push encoding, all version bytes on every chain, every sequence of chain selections up to a depth with everything observed after each.', 'selection history'),
'C31': ('independent encoders', 'All messages over boundary values and cross products of fields on every chain; all truncations and one-byte corruptions of frames; all sequences of messages in a stream; protocol versions 0..329.', 'corrupted input'),
'C32': ('an independent MurmurHash3 and filter', 'All elements of up to 2 bytes, boundary bytes at all positions of all lengths, all lengths up to 1099; all insertion and serialization sequences; filling until full; all sizes, counts and rates.', 'history and saturation'),
'C33': ('a scripted node', 'Every call with every form of answer; amounts in every notation over all magnitudes; every sequence of answers and failures up to a depth on one connection; configuration files of all line pairs and orders.', 'failure histories; binary fractions'),
    'C34': ('a reference secp256k1 in plain integers', 'Secrets at all boundaries (including leading zeros and the ends of the range), all one-bit damage of digests, signatures and keys, all payload lengths and versions, sequences of uses.', 'encodings of rare numbers'),
    'C35': ('evaluation of the displayed text with the names of the library, and reference decimals, names and digits', 'Every short byte string as a script and as hexadecimal, all digit patterns of amounts, every field of every chain object, structure and message over its range and combinations, new and transported messages.', 'values that are displayed when something is wrong, such as empty, cut, unknown, negative and extreme ones'),
    'C36': ('the other proofs of the same commitment', 'All ranges and trees of up to two levels whose nodes claim any lengths and prefixes and hold items anywhere, written as bytes and received by the real code under *every* way of pruning them; whatever is said of one commitment is collected and has to agree. All pairs of forged trees for subset relations. All transactions with up to two outputs of a pool of scripts, all witnesses by them, all digests.', 'every honest commitment looks the same with a forgeable implementation'),
}


def table(mod):
    out = ['| space | bounds, quick | bounds, thorough |', '|---|---|---|']
    q, t = [{s.name: s for s in mod.spaces(x)} for x in ('quick', 'thorough')]
    show = lambda b: (', '.join('%s: %s' % kv for kv in b.items()) if isinstance(b, dict) else str(b)).replace('|', '/')
    for n in dict.fromkeys(list(q) + list(t)):
        a = '%s (%d shards)' % (show(q[n].bounds), len(q[n].shards)) if n in q else '-'
        b = '%s (%d shards)' % (show(t[n].bounds), len(t[n].shards)) if n in t else '-'
        out.append('| %s | %s | %s |' % (n, a, 'same' if b == a else b))
    return '\n'.join(out)


def main():
    props = {d['id']: d for d in map(json.loads, open(HERE + '/properties.jsonl'))}
    parts = []
    for i, d in props.items():
        mod = importlib.import_module('mc.props.' + i.lower())
        oracle, text, why = PROSE[i]
        part = ['### %s %s' % (i, d['title']), '', 'Oracle: %s. %s Beyond tests: %s.' % (oracle, text, why), '']
        if getattr(mod, 'ASSUMPTIONS', None):
            part += ['Assumes: ' + '; '.join(mod.ASSUMPTIONS) + '.', '']
        try:
            e = json.load(open('%s/evidence/%s.json' % (HERE, i)))
            c = e['coverage']
            part += ['Cost of a %s run: about %d s on 8 cores; %s states, %s transitions, %s traces.' % (
                e['tier'], round(e['wall_s']) or 1, format(c['states'], ','), format(c['transitions'], ','), format(c['traces_validated_against_impl'], ',')), '']
        except OSError:
            pass
        parts.append('\n'.join(part + [table(mod)]))
    fixes, finds = [], []
    for l in open(HERE + '/known-findings.txt'):
        m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
        if m:
            fixes.append('| %s | %s | %s |' % m.groups())
        m = re.match(r'finding: property=(C\d+) key=(\S+) (.*)', l)
        if m:
            finds.append('* %s (`%s`): %s' % m.groups())
    try:
        caught = json.load(open(HERE + '/tools/caught.json'))
    except OSError:
        caught = {}
    seeded = ['| bug | needs | caught by |', '|---|---|---|']
    for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        n = f.split('/')[-2]
        d = json.load(open(f))
        seeded.append('| %s | %s | %s |' % (n, d['needs'].replace('|', '/'), caught.get(n, d['property'])))
    s = open(HERE + '/tools/design.md').read()
    s = s.replace('(Written by hand in tools/design.md; `python3 tools/gen_design.py` adds the tables and writes DESIGN.md.)\n\n', '')
    s = s.replace('@@PROPS@@', '\n\n'.join(parts)).replace('@@FIXES@@', '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fixes))
    s = s.replace('@@FINDINGS@@', '\n'.join(finds)).replace('@@SEEDED@@', '\n'.join(seeded))
    try:
        s = s.replace('@@MUTATION@@', open(HERE + '/tools/mutation.md').read())
    except OSError:
        s = s.replace('@@MUTATION@@', '')
    open(HERE + '/DESIGN.md', 'w').write(s)


main()
