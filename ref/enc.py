"""Independent base58check, hashes, network constants, WIF and address encodings."""
import hashlib
import zlib

ALPHA = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'

# Bitcoin's published version bytes.
NETS = {
    'livenet': dict(pubkeyhash=0, scripthash=5, wif=128, xpub=0x0488B21E, xprv=0x0488ADE4),
    'testnet': dict(pubkeyhash=111, scripthash=196, wif=239, xpub=0x043587CF, xprv=0x04358394),
}


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def ripemd160(b):
    h = hashlib.new('ripemd160')
    h.update(b)
    return h.digest()


def hash160(b):
    return ripemd160(sha256(b))


def b58(data):
    n = int.from_bytes(data, 'big')
    out = ''
    while n:
        n, m = divmod(n, 58)
        out = ALPHA[m] + out
    zeros = len(data) - len(data.lstrip(b'\0'))
    return '1' * zeros + out


def b58dec(text):
    """bytes, or None if a character is outside the alphabet"""
    n = 0
    for c in text:
        i = ALPHA.find(c)
        if i < 0:
            return None
        n = n * 58 + i
    ones = len(text) - len(text.lstrip('1'))
    return b'\0' * ones + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58check(data):
    return b58(data + dsha(data)[:4])


def b58check_dec(text):
    raw = b58dec(text)
    if raw is None or len(raw) < 4:
        return None
    data, chk = raw[:-4], raw[-4:]
    return data if dsha(data)[:4] == chk else None


def other_sums(d):
    """four bytes that could be taken for the checksum of d, and are not: name -> bytes"""
    right = dsha(d)[:4]
    other = {'sha256': sha256(d)[:4], 'end of sha256': sha256(d)[-4:], 'triple': sha256(dsha(d))[:4], 'end': dsha(d)[-4:], 'second word': dsha(d)[4:8], 'reversed': right[::-1],
             'reversed end': dsha(d)[::-1][-4:], 'ripemd160': ripemd160(d)[:4], 'hash160': hash160(d)[:4], 'sha1': hashlib.sha1(d).digest()[:4], 'md5': hashlib.md5(d).digest()[:4],
             'sha512': hashlib.sha512(d).digest()[:4], 'sha512 twice': hashlib.sha512(hashlib.sha512(d).digest()).digest()[:4], 'crc': zlib.crc32(d).to_bytes(4, 'big'), 'zero': bytes(4), 'ones': b'\xff' * 4,
             'without the first byte': dsha(d[1:])[:4], 'without the last byte': dsha(d[:-1])[:4], 'of reversed': dsha(d[::-1])[:4], 'of hex': dsha(d.hex().encode())[:4], 'of base58': dsha(b58(d).encode())[:4],
             'of nothing': dsha(b'')[:4], 'with itself': dsha(d + right)[:4], 'start of data': d[:4].ljust(4, b'\0'), 'end of data': d[-4:].rjust(4, b'\0'), 'complement': bytes(255 - b for b in right),
             'stripped': dsha(d.lstrip(b'\0'))[:4], 'one more': ((int.from_bytes(right, 'big') + 1) % 2 ** 32).to_bytes(4, 'big'), 'swapped words': right[2:] + right[:2],
             'swapped bytes': bytes([right[1], right[0], right[3], right[2]]), 'case': bytes(b ^ 0x20 for b in right), 'high bits': bytes(b ^ 0x80 for b in right)}
    for i in range(4):
        other['byte %d' % i] = right[:i] + bytes([right[i] ^ 0x5a]) + right[i + 1:]
        other['byte %d zero' % i] = right[:i] + b'\0' + right[i + 1:]
        other['byte %d ones' % i] = right[:i] + b'\xff' + right[i + 1:]
        other['from byte %d zero' % i] = right[:i] + bytes(4 - i)
        for j in range(8):
            other['bit %d of byte %d' % (j, i)] = right[:i] + bytes([right[i] ^ 1 << j]) + right[i + 1:]
        other['only byte %d' % i] = bytes(right[j] if i == j else right[j] ^ 0x5a for j in range(4))
    return {k: v for k, v in other.items() if v != right}


def wif(secret, net, compressed):
    return b58check(bytes([NETS[net]['wif']]) + secret.to_bytes(32, 'big') + (b'\1' if compressed else b''))


def wif_dec(text):
    """(secret, net, compressed) or None"""
    from .secp import N
    d = b58check_dec(text)
    if d is None or len(d) not in (33, 34):
        return None
    if len(d) == 34 and d[33] != 1:
        return None
    net = [n for n in NETS if NETS[n]['wif'] == d[0]]
    secret = int.from_bytes(d[1:33], 'big')
    if not net or not 0 < secret < N:
        return None
    return secret, net[0], len(d) == 34


def addr_bytes(h, net, kind):
    return bytes([NETS[net][kind]]) + h


def addr_dec(data):
    """(hash, net, kind) or None, from the 21 binary bytes"""
    if len(data) != 21:
        return None
    for net in NETS:
        for kind in ('pubkeyhash', 'scripthash'):
            if NETS[net][kind] == data[0]:
                return data[1:], net, kind
    return None


def varint(n):
    if n < 253:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')
