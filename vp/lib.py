"""The library under test, and small adapters shared by the checks."""
import contextlib
import hashlib
import os
import random

import bitforge as bf
from bitforge import networks, utils, encoding as benc, errors as berr     # noqa: F401
from bitforge.errors import BitforgeError                                   # noqa: F401

from ref import secp

UEnc = utils.encoding
NET = {'livenet': networks.livenet, 'testnet': networks.testnet}
G = utils.generator_secp256k1
LIB_ERRORS = (BitforgeError,)
ANY_REJECT = (BitforgeError, ValueError, UEnc.EncodingError)


def addr_type(kind):
    return bf.Address.Type.PublicKey if kind == 'pubkeyhash' else bf.Address.Type.Script


@contextlib.contextmanager
def entropy(seed, first=()):
    """Replaces the system's entropy by a stream that is a function of `seed` (first: 32-byte blocks handed out first),
    so that a case is reproducible and can steer a nonce."""
    state = {'n': 0, 'first': list(first), 'drawn': 0}

    def draw(n, flags=0):
        state['drawn'] += n
        if state['first'] and n == len(state['first'][0]):
            return state['first'].pop(0)
        out = b''
        while len(out) < n:
            out += hashlib.sha512(b'%s/%d' % (seed, state['n'])).digest()
            state['n'] += 1
        return out[:n]

    olds = os.urandom, random._urandom, os.getrandom
    os.urandom = random._urandom = os.getrandom = draw
    try:
        yield state
    finally:
        os.urandom, random._urandom, os.getrandom = olds


def nonce_block(k):
    """The 32 bytes of entropy that make the usual rejection sampler pick nonce k"""
    return (k - 1).to_bytes(32, 'big')


def priv(secret, net='livenet', compressed=True):
    return bf.PrivateKey(secret, NET[net], compressed)


def pub(secret, net='livenet', compressed=True):
    """A library PublicKey made from the reference's point (cheap: no library scalar multiplication)"""
    return bf.PublicKey(secp.mul_g(secret), NET[net], compressed)
