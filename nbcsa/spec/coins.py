"""Reference definitions: coins (read by the analysis, never run)."""
from spec.chain import block_header, dhash, target_number


def genesis(coin):
    return block_header(coin.genesis_version, b'\x00' * 32, coin.genesis_merkle_root, coin.genesis_timestamp, coin.genesis_bits, coin.genesis_nonce)


def genesis_hash(coin):
    return dhash(genesis(coin))


def genesis_meets(coin):
    return int.from_bytes(coin.genesis_block_hash, 'little') <= target_number(coin.genesis_bits)


class Header(object):
    def __init__(self, data, bits):
        self.data = data
        self.bits = bits

    def binary(self):
        return self.data


def genesis_object(coin):
    return Header(genesis(coin), coin.genesis_bits)


def find(coins, name, symbol):
    """the first coin with this name or this symbol, upper and lower case alike"""
    for coin in coins:
        if name and name.lower() == coin.name:
            return coin
        for s in coin.symbols:
            if symbol is not None and symbol.upper() == s:
                return coin
    return None
