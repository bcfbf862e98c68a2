LEVEL.update({
 'C09': (GVN, 'One connection of each kind; the list of addresses is not bounded.'),
 'C10': (GVN, 'Up to eight offences in a row; arbitrary times and addresses; address lists of any length.'),
 'C11': (GVN, 'The operations of the socket may fail at every call.'),
 'C12': (GVN, 'Three consecutive calls at arbitrary times.'),
 'C38': (GVN, 'Up to three peers (five in the thorough run).'),
 'C19': (GVN, 'SHA-256 is uninterpreted; Base58 by its definition (C35).'),
 'C20': (GVN, 'Base58, modular roots and scalar multiplication stand for their definitions (C34, C35, C36).'),
 'C21': (GVN, 'Numbers of at most 33 octets in the signature for the whole equation, arbitrary octets for refusals; curve arithmetic and inverses stand for their definitions (C22, C34, C36).'),
 'C22': (GVN, 'Six named curves and eight small ones, all points of each; modular inverses stand for their definition (C34). Parameters are compared with constants of the standards.'),
 'C23': (GVN, 'os.urandom is an uninterpreted source, one symbol per call; the rejection loop is compared as a fixed point.'),
 'C29': (GVN, 'Every name a coin may be asked for is a symbolic text; parameters are compared with constants of the networks.'),
 'C24': (GVN, 'HMAC is uninterpreted; the rejection loop is compared as a fixed point, so the number of rejected candidates is not bounded; orders of 13 to 521 bits and five hash functions.'),
 'C25': (GVN, 'HMAC-SHA512 is uninterpreted; curve arithmetic stands for its definition (C22, C36).'),
 'C26': (GVN, 'Base58 and curve arithmetic stand for their definitions.'),
 'C27': (GVN, 'Hash functions are uninterpreted; Base58 and curve arithmetic stand for their definitions.'),
 'C31': (GVN, 'Up to five keys combined, four shares, four partial sets, three parts; random shares are arbitrary numbers in range (C23).'),
 'C32': (GVN, 'Octet strings of any length; sequences of at most three items; PEM of nine lengths; curve arithmetic stands for its definition (C22, C36).'),
 'C35': (GVN, 'Loops are compared as fixed points; words of any length.'),
 'C28': (GVN, 'The S-box algebra is folded over all 256 values; every key and block is a symbol. Stream modes: the listed sequences of calls and lengths, all contents.'),
 'C16': (GVN, 'AES is uninterpreted (C28); stored files are compared with a definition of the format, for words of 51 and 52 characters and ten lengths of passphrase.'),
 'C17': (GVN, 'AES is uninterpreted with decryption as its inverse (C28); JSON text is a faithful container of its values; words of 51 and 52 characters.'),
 'C18': ('Typestate over a gated value graph: every file operation may fail or be the last one; the state of each file is followed on all paths', 'Only the branch taken on POSIX systems.'),
})
LEVEL.update({
 'C13': ('Call-graph reachability over a whole-program points-to analysis: from every callback of the dispatchers to the operations that wait', 'Calls on objects nothing is known of are judged by name; a loop that spins on a socket is not recognised.'),
 'C14': ('Whole-program points-to analysis: every name, attribute, import, parameter list and number of arguments is resolved', 'A use is reported when no known value of its receiver can satisfy it; receivers nothing is known of are counted, not judged.'),
})
LEVEL.update({
 'C30': ('Static lock-set race analysis over a gated value graph with heap (no interleaving is enumerated): every pair of accesses that may be concurrent needs a common lock', 'Two seeds and up to three sources; every instance of a thread runs the same code, so more add no new pairs.'),
})
LEVEL.update({
 'C15': ('Taint over a gated value graph: every text that leaves (exception arguments, prints, text forms) is followed back to the secret arguments it is made of', 'Single octets at up to four constant positions are tolerated; the context of a chained exception, and what a caller does with a returned key, are not followed.'),
})
LEVEL.update({
 'C34': ('Value graphs in which loops are recurrences, compared with the mathematical operators by random interpretation; recursion by assuming the claim for the smaller call', 'Agreement of graphs over loops is probabilistic, not a proof; polynomials of up to six coefficients and moduli of degree up to three; primality is decided below 3e24 only.'),
 'C36': ('Value graph of the ladder with the coordinates of the point as recurrences and the group law (C22) as operators, compared with k times the point by random interpretation over standard and toy curves', 'Agreement is probabilistic, not a proof; rests on C22 for sum and double.'),
})
LEVEL.update({
 'C40': (GVN, 'Up to seven known addresses, three connections and four heartbeats; every address may refuse; times are arbitrary.'),
 'C41': (GVN, 'The event loop is a stand-in that ends in every way.'),
})
LEVEL.update({
 'C42': (GVN, 'One message of each registered command, payloads of up to 8000 bytes; the hash of a transaction or header stands for its definition (C01).'),
 'C43': (GVN, 'Eighteen orders of reading; payloads of any length. The signature check itself is C21.'),
})
LEVEL.update({
 'C44': (GVN, 'The curves of the library and eleven other orders; SHA-1, SHA-256 and SHA-512 as hash functions of the seed; the number of candidates refused is not bounded.'),
 'C45': (GVN, 'The router is a stand-in with an arbitrary table that may fail at every call; up to three mappings.'),
 'C46': (GVN, 'Digests are uninterpreted; two\'s complement of six widths; the difficulty of targets of 0 to 29 trailing octets.'),
 'C47': (GVN, 'Up to three sources and seeds over stand-in threads that take any time to 11 s; pages are arbitrary texts, JSON documents one representative shape; an answer comes between two operations of the caller, never within one (C30 has the locks).'),
})
