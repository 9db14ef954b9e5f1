"""Contracts of bitcoinx, one module per group of properties."""
ASSUMPTIONS = {
    '*': ['Python integers are mathematical integers', 'recursion depth and memory are unbounded',
          'log messages and exception texts are not part of any contract (only exception classes)'],
    'C16': ['PrivateKey.from_random in encrypt_message is entered with random bytes that are a valid secret at the first attempt '
            '(an attempt that fails leaves no state behind; the loop itself is checked under C14)',
            'texts contain no lone surrogates (they cannot be encoded)'],
    'C17': ['ECDSA as implemented by libsecp256k1: a signature it makes verifies for the hash it was made for and for no other, and recovers the signer',
            'texts contain no lone surrogates (they cannot be encoded)', 'hashers are those of bitcoinx.hashes giving 32 bytes'],
    'C23': ['no two headers of a collection have the same hash and no chain of previous hashes is circular; collections of up to three headers in the '
            'proofs, longer histories bounded'],
    'C24': ['fork points are proved for every tree of up to five chains, longer histories bounded; array.array is taken as a list of integers'],
    'C25': ['one 80-byte or 4-byte store into the map is not torn by a crash', 'the simulated file behaves as the operating system\'s files do'],
    'C26': ['word lists hold different words that are in lower case, in form NFKD and without white space (what Wordlists produces)',
            'a typed phrase is known by its words: NFKD normalization, lower case and split at white space, in the order they are needed, give those '
            'words; str and unicodedata do what they are documented to do'],
    'C27': ['a typed phrase is known by its words: lower case and split at white space give those words',
            'the words of the original list are read natively from the file of the tree under test'],
    'C28': ['as for C26 about word lists; the number of attempts of generate_new is not bounded by any contract: its first and second candidates are under '
            'contract, longer runs are bounded (termination is probabilistic)',
            'the number of words is computed with floating point logarithms: proved for nine pairs of list length and bits, bounded for the others'],
}
NOT_APPLICABLE = {}
BOUNDED_NOTE = {}
PENDING = set()
