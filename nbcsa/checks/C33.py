from .. import terms as t
from ..check import Check
from ..compare import Obs

def build():
    c = Check('C33', 'Each helper denotes the same function of its arguments as its reference definition (value graphs, exceptions included); '
                     'compositions that must be identities have the normal form of their argument.')
    S = t.sym
    hdr = [S('version', 'int'), S('prev', 'bytes'), S('root', 'bytes'), S('time', 'int'), S('bits', 'int'), S('nonce', 'int')]
    c.agree('header helper', 'nbc.util.get_block_header', 'spec.chain.block_header', hdr)
    hdr2 = [S('version0', 'int', 0, 2**32 - 1), S('prev0', 'bytes', None, None, 32), S('root0', 'bytes', None, None, 32), S('time0', 'int', 0, 2**32 - 1), S('bits1', 'int', 0, 2**32-1), S('nonce0', 'int', 0, 2**32-1)]
    c.agree('header helper, fields in range', 'nbc.util.get_block_header', 'spec.chain.block_header', hdr2)
    bits = S('bits0', 'int', 0x03000000, 0x20ffffff)
    c.agree('target of compact bits', 'nbc.util.get_target', 'spec.chain.target', [bits])
    c.agree('version to numbers', 'nbc.util.get_version', 'spec.chain.split_version', [S('v', 'int', 0, None)])
    nums = [S('major', 'int'), S('minor', 'int'), S('revision', 'int'), S('build', 'int')]
    c.agree('numbers to version', 'nbc.util.make_version', 'spec.chain.join_version', nums, cats=['ValueError'])
    small = [S('major0', 'int', 0), S('minor0', 'int', 0, 99), S('revision0', 'int', 0, 99), S('build0', 'int', 0, 99)]
    def roundtrip(I, a): return I.call(I.member('nbc.util.get_version'), [I.call(I.member('nbc.util.make_version'), a, {})], {})
    def same(I, a): return t.tup(a)
    c.agree('version round trip', roundtrip, same, small, where='nbc.util.make_version')
    d = S('data', 'bytes')
    c.agree('hex with reversal', 'nbc.util.bin_to_hex', 'spec.chain.hex_rev', [d])
    c.agree('reversal from hex', 'nbc.util.hex_to_bin', 'spec.chain.unhex_rev', [d])
    def inv(I, a): return I.call(I.member('nbc.util.hex_to_bin'), [I.call(I.member('nbc.util.bin_to_hex'), a, {})], {})
    c.agree('hex conversion is undone', inv, lambda I, a: a[0], [d], where='nbc.util.hex_to_bin')
    for n in (*range(1, 70),) if c.thorough else (*range(1, 18), 19, 24, 27, 32, 33, 43):
        def some(I, n=n):
            I.schema[('HasHash', 'hash')] = ('bytes', None, None, 32)
            return [t.tup([I.obj('tx%d' % i, 'spec.chain.HasHash') for i in range(n)])]
        c.agree('merkle root of %d' % n, 'nbc.util.get_merkle_root', 'spec.chain.merkle_of', some)
    def target(I):
        I.schema[('Header', 'data')] = ('bytes', None, None, None)
        I.schema[('Header', 'bits')] = ('int', 0x03000000, 0x20ffffff, None)
        return [I.obj('coin', 'spec.chain.Work'), I.obj('header', 'spec.chain.Header')]
    c.agree('target test', 'nbc.util.verify_target', 'spec.chain.meets', target)
    return c