"""What each check runs: the harness entries, their bounds, and the text that goes into the evidence and the manifest."""
COMMON_ASSUMPTIONS = [
    'The code under test is the LLVM IR clang 18 emits at -O1 for x86-64 from the current sources of /repo (no vectorisation or unrolling); the shipped gcc -O3 build is exercised only by replaying path witnesses and counterexamples.',
    'libc string, file, clock and PRNG functions are the models in models/libc.c; OpenSSL AES and BIGNUM are the models in models/aes.c and models/bn.c (FIPS-197 AES; non-negative integers below 2^256).',
    'Memory allocation succeeds; objects do not overlap; uninitialised memory holds arbitrary values, and output that depends on it counts as a violation.',
]
PROPS = {}
def prop(id, bounds, jobs, outside='', assumptions=()): PROPS[id] = dict(bounds=bounds, jobs=jobs, outside=outside, assumptions=list(assumptions))
def job(name, file, entry, bounds='', **kw): return dict(name=name, file=file, entry=entry, bounds=bounds, **kw)
def chunks(lo, hi, n):
    "lo..hi in n strided groups of consecutive values"
    k = (hi - lo + 1 + n - 1) // n; return [(a, min(a + k - 1, hi)) for a in range(lo, hi + 1, k)]

# ---------------------------------------------------------------- SM3
prop('C01', dict(quick='all messages of 0..70 and 118..130 bytes one-shot; splits of a 70-byte message into three update calls (first cut at 0..2, 7, 8, 31, 32, 55, 56 or 63..66, second anywhere); reuse of a context after 0..66 bytes; any number of preceding whole blocks up to 2^55-2 with tails around the block boundaries',
                 thorough='all messages of 0..260 bytes one-shot; every split of 70- and 130-byte messages into three update calls; reuse after 0..70 bytes; any number of preceding blocks with tails 0..70'),
  [job(f'oneshot{a}', 'sm3', 'h_oneshot', f'message length {a}..{b}, all contents', params=dict(lo=a, hi=b)) for a, b in chunks(0, 70, 8) + chunks(118, 130, 4)] +
  [job(f'oneshot{a}', 'sm3', 'h_oneshot', f'message length {a}..{b}, all contents', params=dict(lo=a, hi=b), tier='thorough') for a, b in chunks(71, 117, 6) + chunks(131, 260, 24)] +
  [job(f'stream70_{a}', 'sm3', 'h_stream', f'70-byte message, first cut {a}..{b}, second cut anywhere after it', params=dict(n=70, alo=a, ahi=b)) for a, b in ((0, 2), (7, 8), (31, 32), (55, 56), (63, 66))] +
  [job(f'stream70_{a}', 'sm3', 'h_stream', f'70-byte message, first cut {a}..{b}, second cut anywhere after it', params=dict(n=70, alo=a, ahi=b), tier='thorough') for a, b in chunks(3, 70, 12)] +
  [job(f'stream130_{a}', 'sm3', 'h_stream', f'130-byte message, first cut {a}..{b}, second cut anywhere after it', params=dict(n=130, alo=a, ahi=b), tier='thorough') for a, b in chunks(0, 130, 24)] +
  [job(f'length{a}', 'sm3', 'h_length', f'any chaining value and any number of whole blocks already absorbed, tail of {a}..{b} bytes', params=dict(lo=a, hi=b), reach=['end']) for a, b in ((0, 1), (54, 57), (63, 66))] +
  [job(f'lengthall{a}', 'sm3', 'h_length', f'as length, tail of {a}..{b} bytes', params=dict(lo=a, hi=b), tier='thorough') for a, b in chunks(0, 70, 16)] +
  [job(f'reuse{a}', 'sm3', 'h_reuse', f'first message of {a}..{b} bytes, finished or abandoned', params=dict(lo=a, hi=b)) for a, b in ((0, 2), (55, 57), (63, 66))] +
  [job(f'reuseall{a}', 'sm3', 'h_reuse', f'first message of {a}..{b} bytes', params=dict(lo=a, hi=b), tier='thorough') for a, b in chunks(0, 70, 8)],
  outside='messages longer than the bounds other than through the length job (which starts from an arbitrary chaining state); more than three update calls per message')

prop('C02', 'all 16-byte keys and all blocks for encryption, decryption, in place and after re-keying; all keys of 0..24 bytes',
  [job('cipher', 'sm4', 'h_cipher', 'all keys, all blocks')] + [job(f'keylen{a}', 'sm4', 'h_keylen', f'all keys of {a}..{b} bytes, all blocks', params=dict(lo=a, hi=b)) for a, b in chunks(0, 24, 8)], outside='keys longer than 24 bytes')
prop('C03', 'all keys of 0..24 bytes, all blocks; all pairs of 16-byte keys for re-keying', [job(f'cipher{a}', 'aes', 'h_cipher', f'all keys of {a}..{b} bytes, all blocks', params=dict(lo=a, hi=b)) for a, b in chunks(0, 24, 8)] + [job('rekey', 'aes', 'h_rekey', 'all pairs of keys')],
  outside='keys longer than 24 bytes', assumptions=['OpenSSL implements AES as in FIPS-197: its key-schedule and block functions are replaced by the model'])
prop('C07', dict(quick='keys of 0..40 bytes; messages of 0..66 bytes; arbitrary buffers of 0..50 bytes for removal; all contents', thorough='keys of 0..40 bytes; messages of 0..260 bytes; arbitrary buffers of 0..80 bytes for removal; all contents'),
  [job('key', 'padding', 'h_key', 'keys of 0..40 bytes'), job('msg', 'padding', 'h_msg', 'messages of 0..66 bytes'), job('strip', 'padding', 'h_strip', 'buffers of 0..50 bytes')] + [job(f'msg{a}', 'padding', 'h_msg', f'messages of {a}..{b} bytes', params=dict(lo=a, hi=b), tier='thorough') for a, b in chunks(67, 260, 8)] + [job('strip80', 'padding', 'h_strip', 'buffers of 0..80 bytes', params=dict(hi=80), tier='thorough')])
prop('C08', dict(quick='any block cipher (uninterpreted permutation): messages of 0..66 bytes, in place or not, exact or roomy output, all outputs that are too small up to 33 bytes, any ciphertext of 0..6 blocks; SM4 and AES: messages of 0..34 bytes', thorough='as quick, with messages of 0..162 bytes, any ciphertext of 0..12 blocks; SM4 and AES: messages of 0..66 bytes'),
  [job('generic', 'cbc', 'h_roundtrip', 'any block cipher, messages of 0..66 bytes', params=dict(hi=66)), job('reject', 'cbc', 'h_reject', 'lengths 0..33, every output size up to the padded length'), job('dec', 'cbc', 'h_dec', 'any ciphertext of 0..6 blocks', params=dict(blocks=6)), job('dec12', 'cbc', 'h_dec', 'any ciphertext of 0..12 blocks', params=dict(blocks=12), tier='thorough')] +
  [job(f'generic{a}', 'cbc', 'h_roundtrip', f'any block cipher, messages of {a}..{b} bytes', params=dict(lo=a, hi=b), tier='thorough') for a, b in chunks(67, 162, 6)] +
  [job(f'{n}enc{a}', 'cbc', 'h_enc', f'{n}, messages of {a}..{b} bytes', params=dict(mode=m, lo=a, hi=b)) for m, n in ((1, 'sm4'), (2, 'aes')) for a, b in ((0, 1), (15, 17), (31, 33))] +
  [job(f'{n}dec{a}', 'cbc', 'h_wdec', f'{n}, any ciphertext of {a} blocks', params=dict(mode=m, blo=a, bhi=a)) for m, n in ((1, 'sm4'), (2, 'aes')) for a in (0, 1, 2)] +
  [job(f'{n}enc_{a}', 'cbc', 'h_enc', f'{n}, messages of {a}..{b} bytes', params=dict(mode=m, lo=a, hi=b), tier='thorough') for m, n in ((1, 'sm4'), (2, 'aes')) for a, b in chunks(2, 66, 20)] +
  [job(f'{n}dec_{a}', 'cbc', 'h_wdec', f'{n}, any ciphertext of {a} blocks', params=dict(mode=m, blo=a, bhi=a), tier='thorough') for m, n in ((1, 'sm4'), (2, 'aes')) for a in (3, 4)])

# ---------------------------------------------------------------- white-box SM4
def wb_jobs():
    J = [job(f'{"de"[:2] if d else "en"}c{n}_{k}', 'wbsm4', 'h_encrypt', f'{"decryption" if d else "encryption"} tables, {n} dummy rounds, key {k} of {l} bytes, seed {t}{", in place" if ip else ""}', params=dict(dec=d, dummy=n, key=k, klen=l, time=t, inplace=ip), cost=2) for d, n, k, l, t, ip in ((0, 0, 0, 16, 0, 0), (1, 0, 0, 16, 1, 1), (0, 1, 1, 16, 2, 1), (1, 1, 2, 16, 3, 0), (0, 2, 3, 5, 4, 0), (1, 2, 0, 0, 5, 0), (0, 3, 1, 20, 6, 0), (1, 8, 3, 16, 7, 1), (0, 8, 2, 15, 8, 0), (0, 1, 0, 16, 9, 0), (1, 3, 0, 17, 10, 0), (0, 20, 0, 16, 11, 0))]
    return J + [job(f't{t}', 'wbsm4', 'h_encrypt', f'seed {t}', params=dict(dec=t % 2, dummy=t % 7, key=t % 4, klen=t % 21, time=t, inplace=t // 2 % 2), tier='thorough', cost=2) for t in range(20, 120)]
prop('C05', dict(quick='all pairs of blocks, one after the other, for twelve table sets: encryption and decryption tables with 0, 1, 2, 3, 8 and 20 dummy rounds, four keys, keys of 0..20 bytes, seeds, in place or not', thorough='as quick, with 100 more table sets (seeds, keys, key lengths, dummy rounds)'), wb_jobs(), outside='keys, seeds and dummy-round counts other than those listed (each table set is generated by running the real generator on concrete values)')
prop('C06', dict(quick='all 16-byte keys and all pairs of blocks, encryption and decryption, for one seed each, in place or not; keys of 0, 5 and 20 bytes; all blocks under tables that together use every one of the 2039 self-equivalences', thorough='as quick, with 40 seeds and all keys of 0..20 bytes'),
  [job(f'key{d}', 'wbsm4', 'h_se', f'all keys, all blocks, {"decryption" if d else "encryption"}', params=dict(dec=d, key=-1, time=d, inplace=d), cost=3) for d in (0, 1)] + [job(f'klen{l}', 'wbsm4', 'h_se', f'all keys of {l} bytes, all blocks', params=dict(dec=l % 2, key=-1, klen=l, time=10 + l), cost=3) for l in (0, 5, 20)] +
  [job(f'walk{a}', 'sewalk', 'h_walk', f'random sources {a}..{b} that together draw all 2039 self-equivalences', params=dict(lo=a, hi=b), cost=3) for a, b in chunks(0, 33, 8)] + [job(f't{t}', 'wbsm4', 'h_se', f'all keys of {t % 21} bytes, seed {t}', params=dict(dec=t % 2, key=-1, klen=t % 21, time=t, inplace=t // 2 % 2), tier='thorough', cost=3) for t in range(20, 62)], outside='random seeds other than those listed')

# ---------------------------------------------------------------- white-box AES
prop('C04', dict(quick='all values of each one of the sixteen bytes of the block, the others fixed (two fixings each), for sixteen table sets: four keys, keys of 0, 5, 16 and 20 bytes, sixteen seeds; in place or not', thorough='as quick, with all values of every byte under each of sixteen further table sets'),
  [job(f'byte{p}', 'wbaes', 'h_byte', f'all values of byte {p}, key {p % 4} of {l} bytes, seed {p}', params=dict(lo=p, hi=p, key=p % 4, klen=l, time=p, base=p + 1, bases=2)) for p in range(16) for l in ({3: 0, 6: 5, 13: 20}.get(p, 16),)] +
  [job(f'all{t}_{a}', 'wbaes', 'h_byte', f'all values of each byte {a}..{b}, seed {t}', params=dict(lo=a, hi=b, key=t % 4, klen=t % 21, time=t, base=t), tier='thorough', cost=2) for t in range(20, 36) for a, b in ((0, 7), (8, 15))],
  outside='blocks that differ from the listed ones in more than one byte (a fully symbolic block did not finish within hours: the encoded rounds have no small normal form and defeat the SMT solvers), keys and seeds other than those listed')
def wbgcm_jobs(m):
    P = lambda **k: dict(mask=m, **k); J = 'wbgcm'
    R = [job(f'msg{a}', J, 'h_msg', f'messages of {a}..{b} bytes, AAD of 0..1 bytes, in place or not', params=P(lo=a, hi=b, time=a, key=a % 4)) for a, b in ((0, 2), (15, 17), (31, 33))]
    R += [job('aad', J, 'h_msg', 'AAD of 2..20 bytes', params=P(lo=0, hi=1, alo=2, ahi=20, ip=0, time=40)), job('ivs', J, 'h_msg', 'IVs of 16, 5, 33 and 0 bytes, two messages per context, messages of 33 bytes in two pieces', params=P(lo=33, hi=33, vlo=1, vhi=4, cuts=2, again=1, ip=0, time=41), cost=2), job('tags', J, 'h_msg', 'tags of 0..16 bytes', params=P(lo=5, hi=5, tags=1, ip=0, time=42)), job('carry', J, 'h_carry', 'eight counters that carry', params=P(time=43)), job('small', J, 'h_small', 'outputs shorter than the input', params=P(time=44))]
    R += [job(f'klen{l}', J, 'h_msg', f'keys of {l} bytes', params=P(lo=1, hi=1, klen=l, time=50 + l, key=l % 4)) for l in (0, 5, 20)] + [job(f'iv{p}', J, 'h_iv', f'all values of byte {p} of the IV', params=P(plo=p, phi=p, n=1, time=60 + p), cost=3) for p in (0, 6, 11)]
    R += [job('file', J, 'h_file', 'files of 0..3 bytes', params=P()), job('file128', J, 'h_file', 'files of 127..129 bytes', params=P(lo=127, hi=129), cost=2)] + [job(f'tamper{n}', J, 'h_tamper', f'changed file of {n} bytes, changed AAD', params=P(lo=n, hi=n)) for n in (0, 1, 17)] + [job(f'io{k}', J, 'h_io', 'one failing call or a missing input', params=P(klo=k, khi=l)) for k, l in ((1, 2), (3, 3), (4, 4), (6, 8))]
    R += [job(f'msg_{a}', J, 'h_msg', f'messages of {a}..{b} bytes, AAD of 0..3 bytes', params=P(lo=a, hi=b, ahi=3, time=100 + a), tier='thorough') for a, b in chunks(0, 98, 16)] + [job(f'seed{t}', J, 'h_msg', f'seed {t}', params=P(lo=17, hi=17, time=t, key=t % 4, klen=t % 21), tier='thorough') for t in range(200, 232)] + [job(f'iv_{p}', J, 'h_iv', f'all values of byte {p} of the IV, 20-byte message', params=P(plo=p, phi=p, n=20, time=70 + p), tier='thorough', cost=3) for p in range(12)] + [job(f'iv16_{p}', J, 'h_iv', f'all values of byte {p} of a 16-byte IV', params=P(plo=p, phi=p, n=1, ivn=16, time=90 + p), tier='thorough', cost=3) for p in range(16)]
    R += [job(f'file_{a}', J, 'h_file', f'files of {a}..{b} bytes', params=P(lo=a, hi=b), tier='thorough', cost=2) for a, b in ((4, 20), (126, 130), (255, 257))] + [job(f'tamper_{n}', J, 'h_tamper', f'changed file of {n} bytes', params=P(lo=n, hi=n, aad=8), tier='thorough') for n in range(2, 17)]
    return R
WG = ' for the listed keys, seeds and IVs: messages of 0..2, 15..17 and 31..33 bytes with AAD of 0..1 bytes, AAD of 2..20 bytes, IVs of 0, 5, 12, 16, 33 bytes, tags of 0..16 bytes, carrying counters, pieces, contexts used again; all values of an IV byte (three places) for fixed messages; files of 0..3 and 127..129 bytes, every one-byte change, cut and extension of files of 0, 1 and 17 bytes, one failing file operation'
prop('C14', dict(quick='all message and AAD contents' + WG, thorough='as quick, with messages of 0..98 bytes, 32 more seeds and keys, every IV byte, more file lengths'), wbgcm_jobs(0), outside='keys, seeds and (but for one byte) IVs other than those listed; longer messages')
prop('C15', dict(quick='all message and AAD contents' + WG, thorough='as quick, with messages of 0..98 bytes, 32 more seeds and keys, every IV byte, more file lengths'), wbgcm_jobs(1), outside='keys, seeds and (but for one byte) IVs other than those listed; longer messages')

# ---------------------------------------------------------------- GCM
prop('C09', dict(quick='any block cipher (uninterpreted permutation, any hash key): messages of 0..33 bytes with AAD of 0 or 1 bytes, AAD of 0..33 bytes, IVs of 0..33 bytes; with four fixed hash keys: messages of 0..50 bytes in place and not, tags of 0..16 bytes, IVs of 16..33 bytes whose counters carry across any byte; SM4 and AES under two keys each',
                 thorough='as quick, with messages of 0..66 bytes (any hash key) and 0..162 bytes (fixed hash keys), AAD and IVs of 0..66 bytes'),
  [job(f'any{a}', 'gcm', 'h_gcm', f'any hash key, messages of {a}..{b} bytes, AAD of 0..1 bytes', params=dict(lo=a, hi=b, ahi=1, ip=0), cost=3) for a, b in ((0, 2), (15, 15), (16, 16), (17, 17), (31, 31), (32, 32), (33, 33))] +
  [job(f'aad{a}', 'gcm', 'h_gcm', f'any hash key, AAD of {a}..{b} bytes', params=dict(lo=0, hi=0, alo=a, ahi=b, ip=0, dhi=0), cost=2) for a, b in ((2, 10), (11, 16), (17, 22), (23, 28), (29, 33))] +
  [job(f'iv{a}', 'gcm', 'h_gcm', f'any hash key, IVs of {a}..{b} bytes', params=dict(lo=0, hi=0, ivlo=a, ivhi=b, ip=0, dhi=0), cost=2) for a, b in ((0, 10), (11, 17), (18, 26), (27, 33))] +
  [job(f'fixed{f}_{a}', 'gcm', 'h_gcm', f'hash key {f}, messages of {a}..{b} bytes', params=dict(lo=a, hi=b, fix=f), cost=2) for f, a, b in ((0, 0, 17), (1, 18, 28), (2, 29, 38), (3, 39, 45), (0, 46, 50))] +
  [job('tags', 'gcm', 'h_gcm', 'tags of 0..16 bytes', params=dict(lo=0, hi=1, tags=1, fix=1)), job('carry16', 'gcm', 'h_carry', '16-byte IVs, nine counters', params=dict(fix=0)), job('carry17', 'gcm', 'h_carry', 'IVs of 17..33 bytes', params=dict(fix=1, ivlo=17, ivhi=33, ctrs=0)), job('ciphers', 'gcm', 'h_cipher', 'SM4 and AES, two keys each', cost=4), job('small', 'gcm', 'h_small', 'outputs shorter than the input', params=dict(fix=0, hi=18))] +
  [job(f'any_{a}', 'gcm', 'h_gcm', f'any hash key, messages of {a}..{b} bytes, AAD of 0..3 bytes', params=dict(lo=a, hi=b, ahi=3, ip=0), tier='thorough') for a, b in chunks(0, 66, 33)] +
  [job(f'aad_{a}', 'gcm', 'h_gcm', f'any hash key, AAD of {a}..{b} bytes, messages of 0..1 bytes', params=dict(lo=0, hi=1, alo=a, ahi=b, ip=0), tier='thorough') for a, b in chunks(0, 66, 22)] +
  [job(f'iv_{a}', 'gcm', 'h_gcm', f'any hash key, IVs of {a}..{b} bytes', params=dict(lo=0, hi=0, ivlo=a, ivhi=b, ip=0), tier='thorough') for a, b in chunks(0, 66, 11)] +
  [job(f'fixed_{f}_{a}', 'gcm', 'h_gcm', f'hash key {f}, messages of {a}..{b} bytes', params=dict(lo=a, hi=b, fix=f), tier='thorough') for f in range(4) for a, b in chunks(0, 162, 12)] +
  [job(f'carry_{f}', 'gcm', 'h_carry', 'IVs of 16..66 bytes, nine counters', params=dict(fix=f, ivlo=16, ivhi=66), tier='thorough') for f in range(4)] + [job('small33', 'gcm', 'h_small', 'outputs shorter than the input', params=dict(fix=2, hi=33), tier='thorough')],
  outside='messages, AAD and IVs longer than the bounds; nonempty messages under IVs shorter than 16 bytes other than 12 (their first counter block is checked through the tag); messages of 2^31 bytes and more')
prop('C10', dict(quick='any hash key: messages of 33 and 48 bytes in three pieces, two contexts used alternately; fixed hash keys: messages of 31..50 bytes in three pieces, serial and parallel pieces mixed, second message after a first one abandoned at any of four stages', thorough='as quick, with messages of 16..98 bytes'),
  [job('stream33', 'gcm', 'h_stream', 'any hash key, 33 bytes, every two block-aligned cuts', params=dict(lo=33, hi=33), cost=2), job('stream48', 'gcm', 'h_stream', 'any hash key, 48 bytes', params=dict(lo=48, hi=48), cost=3), job('two', 'gcm', 'h_two', 'any two hash keys')] +
  [job(f'streamf{a}', 'gcm', 'h_stream', f'{a}..{b} bytes', params=dict(lo=a, hi=b, fix=0)) for a, b in chunks(31, 50, 4)] + [job(f'mixed{a}', 'gcm', 'h_stream', f'{a} bytes, each piece serial or parallel', params=dict(lo=a, hi=a, fix=1, par=1), omp=1) for a in (32, 35, 49)] + [job('reuse', 'gcm', 'h_reuse', 'second message of a context', cost=4)] +
  [job(f'stream_{a}', 'gcm', 'h_stream', f'{a}..{b} bytes', params=dict(lo=a, hi=b, fix=2), tier='thorough') for a, b in chunks(16, 98, 16)] + [job(f'mixed_{a}', 'gcm', 'h_stream', f'{a} bytes, each piece serial or parallel', params=dict(lo=a, hi=a, fix=3, par=1), omp=1, tier='thorough') for a in (48, 64, 81)])
prop('C11', dict(quick='messages of 0..35 and of 64, 79, 120, 128 bytes on 1..8 threads, encryption and decryption, in place and not, every assignment of blocks to threads that a static schedule makes, ascending and descending thread order, absence of conflicting accesses between threads; any hash key for 17 and 33 bytes', thorough='as quick, with messages of 0..130 bytes on 1..8 threads and of 200..260 bytes on 4 and 16 threads'),
  [job(f'par{a}', 'gcm', 'h_par', f'messages of {a}..{b} bytes, 1..8 threads', params=dict(lo=a, hi=b, fix=a % 4, rev=0), omp=1, cost=2) for a, b in ((0, 2), (15, 17), (31, 33))] + [job(f'par{a}', 'gcm', 'h_par', f'messages of {a} bytes, 3..5 threads', params=dict(lo=a, hi=a, fix=a % 4, tlo=3, thi=5), omp=1, cost=2) for a in (64, 79, 128)] +
  [job('par120', 'gcm', 'h_par', '120 bytes, 8 threads', params=dict(lo=120, hi=120, fix=0, tlo=8, thi=8, room=9), omp=1, cost=2)] + [job(f'anykey{a}', 'gcm', 'h_par', f'any hash key, {a} bytes, 2 threads', params=dict(lo=a, hi=a, tlo=2, thi=2), omp=1, cost=2) for a in (17, 33)] + [job('small', 'gcm', 'h_parsmall', 'outputs shorter than the input', params=dict(fix=0), omp=1)] +
  [job(f'par_{a}', 'gcm', 'h_par', f'messages of {a}..{b} bytes, 1..8 threads', params=dict(lo=a, hi=b, fix=a % 4), omp=1, tier='thorough') for a, b in chunks(0, 130, 40)] + [job(f'wide_{a}', 'gcm', 'h_par', f'messages of {a} bytes, {t} threads', params=dict(lo=a, hi=a, fix=a % 4, tlo=t, thi=t), omp=1, tier='thorough') for a in (200, 208, 255, 257, 260) for t in (4, 16)],
  outside='more than 16 threads; messages beyond the bounds', assumptions=['A parallel region without conflicting accesses between barriers gives the same result under every interleaving; threads are executed one after the other, in both orders, and every pair of accesses to a byte by different threads is compared.', 'The number of threads the library asks for is ignored: it is a parameter of the check.'])

# ---------------------------------------------------------------- GCM files
prop('C12', dict(quick='any block cipher with a fixed hash key: files of 0..3, 15..17, 127..130, 255..257 bytes, with and without AAD, over an existing output or not, same or new context for decryption; SM4 and AES file interfaces', thorough='as quick, with every file length 0..40, 120..145, 240..260, 383..386, 511..514'),
  [job(f'rt{a}', 'gcmfile', 'h_roundtrip', f'files of {a}..{b} bytes', params=dict(lo=a, hi=b), cost=3) for a, b in ((0, 3), (15, 17), (127, 127), (128, 128), (129, 130), (255, 255), (256, 256), (257, 257))] + [job('cipher', 'gcmfile', 'h_cipher', 'SM4 and AES file interfaces', cost=2)] +
  [job(f'rt_{a}', 'gcmfile', 'h_roundtrip', f'files of {a}..{b} bytes', params=dict(lo=a, hi=b, fix=1), tier='thorough') for x, y, n in ((0, 40, 4), (120, 145, 13), (240, 260, 20), (383, 386, 4), (511, 514, 4)) for a, b in chunks(x, y, n)], outside='files longer than the bounds; hash keys other than the two fixed ones (C09 covers any hash key); failing I/O (C13)')
prop('C13', dict(quick='files of 0, 1, 5, 16, 17, 33 bytes: any change of one byte of tag, length or ciphertext, every truncation, 1..20 appended bytes; any one-byte difference of IV or AAD; each single failing open, read, write, flush or close among the first seven of a call; missing inputs', thorough='as quick, with files of 0..20 and 128..130 bytes and the first twenty calls failing'),
  [job(f'tamper{n}', 'gcmfile', 'h_tamper', f'file of {n} bytes', params=dict(lo=n, hi=n), cost=2) for n in (0, 1, 5, 16, 17, 33)] + [job('aad', 'gcmfile', 'h_wrong', 'wrong AAD, messages of 0..17 bytes', params=dict(lo=0, hi=17, wlo=1), cost=2), job('iv', 'gcmfile', 'h_wrong', 'wrong IV, empty message', params=dict(lo=0, hi=0, whi=0))] + [job('io', 'gcmfile', 'h_io', 'one failing call', cost=4), job('missing', 'gcmfile', 'h_missing', 'missing input')] +
  [job(f'tamper_{n}', 'gcmfile', 'h_tamper', f'file of {n} bytes', params=dict(lo=n, hi=n, fix=1, aad=a), tier='thorough') for n in list(range(0, 21)) + [128, 129, 130] for a in ((n % 2) * 5,)] + [job('io_', 'gcmfile', 'h_io', 'one failing call', params=dict(at=20), tier='thorough')],
  outside='changes of several bytes at once and of the four high bytes of the stored length, which the format does not authenticate; several failing calls')

# ---------------------------------------------------------------- FPE
def fpe_jobs(ff3):
    f, r = ('ff3', dict(ff3=1)) if ff3 else ('ff1', dict(ff3=0))
    P = lambda **k: dict(r, **k)
    J = [job(f'r10_{a}', 'fpe', 'h_ff', f'decimal strings of {a}..{b} characters, all tweaks', params=P(lo=a, hi=b, ip=1)) for a, b in ((2, 8), (9, 13), (14, 17), (18, 20))]
    J += [job(f'r{x}', 'fpe', 'h_ff', f'radix {x}, strings of {a}..{b} characters', params=P(lo=a, hi=b, radix=x)) for x, a, b in ((2, 2, 14), (8, 2, 9), (12, 2, 9), (16, 2, 8), (26, 2, 8), (36, 2, 9), (3, 2, 9))]
    J += [job(f'round{a}', 'fpe', 'h_round', f'decimal strings of {a}..{b} characters, there and back', params=P(lo=a, hi=b)) for a, b in ((2, 10), (11, 16), (17, 20))] + [job('round36', 'fpe', 'h_round', 'radix 36, 2..8 characters, there and back', params=P(lo=2, hi=8, radix=36))]
    J += [job('refuse', 'fpe', 'h_refuse', 'strings of 0..1 characters, radix 0..60', params=dict(wlo=2 * ff3, whi=2 * ff3 + 1))]
    if not ff3:
        J += [job(f'tweak{a}', 'fpe', 'h_ff', f'tweaks of {a}..{b} bytes, 6..7 decimals', params=P(lo=6, hi=7, tlo=a, thi=b)) for a, b in ((0, 12), (13, 24))]
        J += [job(f'long_{a}', 'fpe', 'h_ff', f'decimal strings of {a}..{b} characters', params=P(lo=a, hi=b), tier='thorough') for a, b in chunks(21, 31, 6)]
    J += [job(f'round_{x}', 'fpe', 'h_round', f'radix {x}, 2..10 characters, there and back', params=P(lo=2, hi=10, radix=x), tier='thorough') for x in (12, 26)]
    return J
prop('C16', dict(quick='any block cipher: decimal strings of 2..20 characters in place or not, both directions; radix 2, 3, 8, 12, 16, 26, 36 with 2..8 (radix 2: 2..14) characters; tweaks of 0..24 bytes; there-and-back runs up to 20 decimals; strings of 0 and 1 characters; radix 0..60', thorough='as quick, with decimal strings of 2..31 characters'), fpe_jobs(0), outside='strings whose halves exceed 8 bytes (beyond about 32 decimals); tweaks longer than 24 bytes; characters outside the alphabet', assumptions=['OpenSSL bignums compute integer arithmetic: they are replaced by a model on 128-bit integers that fails when a value does not fit.'])
prop('C17', 'any block cipher: decimal strings of 2..20 characters in place or not, both directions; radix 2, 3, 8, 12, 16, 26, 36 with 2..8 (radix 2: 2..14) characters; there-and-back runs up to 20 decimals; strings of 0 and 1 characters; radix 0..60', fpe_jobs(1), outside='strings whose halves exceed 8 bytes; characters outside the alphabet', assumptions=['OpenSSL bignums compute integer arithmetic: they are replaced by a model on 128-bit integers that fails when a value does not fit.'])
def mac_jobs(ff3):
    P = lambda **k: dict(ff3=ff3, **k)
    t = dict(tlo=16, thi=16) if ff3 else {}
    return [job(f'r10_{a}', 'fpe', 'h_mac', f'decimal strings of {a}..{b} characters', params=P(lo=a, hi=b, **t)) for a, b in ((2, 8), (9, 12))] + [job('r36', 'fpe', 'h_mac', 'radix 36, 2..8 characters', params=P(lo=2, hi=8, radix=36, **t)), job('r12', 'fpe', 'h_mac', 'radix 12, 2..8 characters', params=P(lo=2, hi=8, radix=12, **t)), job('tweak', 'fpe', 'h_mac', 'tweaks of 8..16 bytes, 6 decimals', params=P(lo=6, hi=6, tlo=8, thi=16)), job('refuse', 'fpe', 'h_refuse', 'strings of 0..1 characters, radix 0..60', params=dict(wlo=4 + 2 * ff3, whi=5 + 2 * ff3))] + [job(f'long_{a}', 'fpe', 'h_mac', f'decimal strings of {a}..{b} characters', params=P(lo=a, hi=b, **t), tier='thorough') for a, b in chunks(13, 18, 3)]
prop('C18', dict(quick='any block cipher: decimal strings of 2..12 characters, radix 12 and 36 with 2..8 characters, tweaks of 8..16 bytes, one or two contexts; strings of 0 and 1 characters; radix 0..60', thorough='as quick, with decimal strings of 2..18 characters'), mac_jobs(0), outside='longer strings; which tag value the CMAC construction gives (only agreement between the two directions and its 16 bytes are stated)')
prop('C19', dict(quick='any block cipher with two fixed hash keys: decimal strings of 2..12 characters, radix 12 and 36 with 2..8 characters, tweaks of 8..16 bytes, one or two contexts; strings of 0 and 1 characters; radix 0..60', thorough='as quick, with decimal strings of 2..18 characters'), mac_jobs(1), outside='longer strings; hash keys other than the two fixed ones')

# ---------------------------------------------------------------- FPE applications
APP = ['The four block ciphers are stand-ins here (an uninterpreted function of cipher, padded key and block): C02 to C06 are about them.', 'OpenSSL bignums compute integer arithmetic: they are replaced by a model on 256-bit integers that fails when a value does not fit.']
prop('C20', dict(quick='any cipher and key: 11-digit numbers without a sample and with every sample that encrypts one run of digits, FF1 and FF3, both directions, and there-and-back; every sample for 4- and 6-digit numbers; numbers of 2..10 and 12 digits; four cipher names and an unknown one, known and unknown mode names, keys of 0..20 bytes; in place', thorough='as quick, with every sample for 8 digits and numbers of up to 18 digits'),
  [job(f'run{f}', 'fpeapp', 'h_digits', f'11 digits, ff{"13"[f]}, every run of digits', params=dict(flo=f, fhi=f), cost=2) for f in (0, 1)] + [job('mask4', 'fpeapp', 'h_digits', '4 digits, every sample, every cipher and mode name', params=dict(lo=4, hi=4, all=1, clo=0, chi=4, other=1)), job('mask6', 'fpeapp', 'h_digits', '6 digits, every sample', params=dict(lo=6, hi=6, all=1)), job('short', 'fpeapp', 'h_digits', '0..10 digits, in place', params=dict(lo=0, hi=10, sample=0, ip=1)), job('long', 'fpeapp', 'h_digits', '12..14 digits', params=dict(lo=12, hi=14, sample=0)), job('back', 'fpeapp', 'h_back', '11 digits, there and back', cost=2)] +
  [job(f'keys{a}', 'fpeapp', 'h_digits', f'keys of {a}..{b} bytes, every cipher', params=dict(sample=0, fhi=0, clo=0, chi=4, klo=a, khi=b, ip=1)) for a, b in chunks(0, 20, 5)] +
  [job('mask8', 'fpeapp', 'h_digits', '8 digits, every sample', params=dict(lo=8, hi=8, all=1), tier='thorough'), job('long18', 'fpeapp', 'h_digits', '15..18 digits', params=dict(lo=15, hi=18, sample=0), tier='thorough')],
  outside='numbers with other characters than digits; samples that are shorter than the number', assumptions=APP)
prop('C21', dict(quick='any cipher and key: 18-character identity cards with and without a final X, without a sample and with every sample that encrypts a run of digits, FF1 and FF3, both directions, and there-and-back (a quarter of the runs); every sample for 5 and 6 characters; cards of 0..10 and 15 characters; four cipher names and an unknown one', thorough='as quick, with every there-and-back run and every sample for 8 characters'),
  [job(f'run{f}_{a}', 'fpeapp', 'h_digits', f'18 characters, ff{"13"[f]}, runs from {a}..{b}', params=dict(card=1, lo=18, hi=18, flo=f, fhi=f, slo=1, alo=a, ahi=b), cost=2) for f in (0, 1) for a, b in ((0, 2), (3, 7), (8, 18))] + [job('whole', 'fpeapp', 'h_digits', '18 characters, no sample, in place', params=dict(card=1, lo=18, hi=18, sample=0, ip=1)), job('mask5', 'fpeapp', 'h_digits', '5..6 characters, every sample', params=dict(card=1, lo=5, hi=6, all=1)), job('names', 'fpeapp', 'h_digits', 'every cipher and mode name', params=dict(card=1, lo=3, hi=3, all=1, clo=0, chi=4, other=1)), job('short', 'fpeapp', 'h_digits', '1..10 characters', params=dict(card=1, lo=1, hi=10, sample=0)), job('fifteen', 'fpeapp', 'h_digits', '15 characters', params=dict(card=1, lo=15, hi=15, sample=0)), job('back', 'fpeapp', 'h_back', 'there and back, runs from 0..3', params=dict(card=1, lo=18, hi=18, alo=0, ahi=3), cost=2)] +
  [job('back_', 'fpeapp', 'h_back', 'there and back', params=dict(card=1, lo=18, hi=18), tier='thorough'), job('mask8', 'fpeapp', 'h_digits', '8 characters, every sample', params=dict(card=1, lo=8, hi=8, all=1), tier='thorough')],
  outside='cards with other characters than digits and a final X; samples that are shorter than the card', assumptions=APP)
prop('C22', dict(quick='texts of 1..3 characters: any one character U+4E00..U+9EFF anywhere, the others any of 256 each, any result digits; with every sample of stars and kept characters, also one that ends early; any character outside that range', thorough='as quick, with texts of 4 characters and any one character under every sample'),
  [job(f'one{a}', 'fpecn', 'h_cn', f'one character, high byte {a}..{b}', params=dict(lo=1, hi=1, hlo=a, hhi=b, modes=0, shi=0)) for a, b in chunks(0, 80, 4)] + [job(f'two{a}', 'fpecn', 'h_cn', f'two characters, high byte {a}..{b}', params=dict(lo=2, hi=2, hlo=a, hhi=b, modes=0, shi=0)) for a, b in chunks(0, 80, 8)] +
  [job(f'sample{a}', 'fpecn', 'h_cn', f'1..3 characters with a sample, high byte {a}', params=dict(lo=1, hi=3, hlo=a, hhi=a, slo=1)) for a in (80, 33)] + [job('sample0', 'fpecn', 'h_cn', '1..2 characters with a sample, high byte 0', params=dict(lo=1, hi=2, hlo=0, hhi=0, slo=1, modes=0))] + [job('inplace', 'fpecn', 'h_cn', 'three characters in place', params=dict(lo=3, hi=3, hlo=6, hhi=6, ip=1, shi=0))] + [job(f'foreign{a}', 'fpecn', 'h_foreign', f'a character with high byte {a}..{b}', params=dict(hlo=a, hhi=b, hi=2)) for a, b in chunks(8, 77, 5) + chunks(159, 255, 5)] +
  [job(f'any{a}', 'fpecn', 'h_cn', f'1..3 characters with a sample, high byte {a}..{b}', params=dict(lo=1, hi=3, hlo=a, hhi=b, slo=1, modes=0), tier='thorough') for a, b in chunks(0, 80, 20)] + [job('four', 'fpecn', 'h_cn', 'four characters', params=dict(lo=4, hi=4, hlo=40, hhi=41), tier='thorough')],
  outside='longer texts; text that is not made of three-byte characters; the digit string itself (C16, C17)', assumptions=['FF1 and FF3 are stand-ins here that may return any digits: C16 and C17 decide them.'])

# ---------------------------------------------------------------- key export
prop('C23', dict(quick='all values of one table entry in 61 (every entry with its own value) for 32, 36, 40 rounds, importers with equal, more and fewer rounds; every one-byte header change, every impossible round count, twelve cuts, one failing file operation of each kind at eight places; key store: all keys of 0..40 bytes, every cut', thorough='as quick, with all values of one entry in 8; key store up to 500 bytes'),
  [job(f'file{d}_{e}', 'exkey', 'h_file', f'{32 + 4 * d} rounds into a context with room for {32 + 4 * (d + e)}', params=dict(dummy=d, room=e, old=o), cost=2) for d, e, o in ((0, 0, 0), (1, 2, 1), (2, 0, 1))] + [job(f'bytes{d}_{e}', 'exkey', 'h_bytes', f'{32 + 4 * d} rounds into a context of {32 + 4 * e}', params=dict(dummy=d, other=e)) for d, e in ((0, 0), (2, 0), (0, 3), (1, 1))] +
  [job('header', 'exkey', 'h_bad', 'any change to one byte of the header', params=dict(wlo=0, whi=0)), job('rounds0', 'exkey', 'h_bad', 'any number of rounds below 32 or above the context', params=dict(wlo=1, whi=1)), job('rounds2', 'exkey', 'h_bad', 'a 40-round file into 36 rounds', params=dict(wlo=1, whi=1, dummy=2, have=1)), job('cut', 'exkey', 'h_bad', 'twelve cuts and a missing file', params=dict(wlo=2, whi=3), cost=2)] +
  [job('iowrite', 'exkey', 'h_io', 'export with a failing write', params=dict(klo=4, khi=4), cost=2), job('ioopen', 'exkey', 'h_io', 'export with a failing open', params=dict(klo=1, khi=2)), job('ioflush', 'exkey', 'h_io', 'export with a failing flush or close', params=dict(klo=6, khi=7)), job('ioread', 'exkey', 'h_io', 'import with a failing open or read', params=dict(klo=1, khi=3, **{'import': 1}), cost=3), job('store', 'exkey', 'h_store', 'keys of 0..40 bytes, replaced files, short files, failing operations')] +
  [job(f'every{d}', 'exkey', 'h_file', 'one entry in eight arbitrary', params=dict(dummy=d, stride=8), tier='thorough', cost=2) for d in (0, 1)] + [job('everyb', 'exkey', 'h_bytes', 'one entry in eight arbitrary', params=dict(dummy=1, stride=8), tier='thorough', cost=2)] + [job(f'store{a}', 'exkey', 'h_store', f'keys of {a}..{b} bytes', params=dict(lo=a, hi=b), tier='thorough') for a, b in chunks(41, 200, 8)],
  outside='several failing operations; changed table entries, which the format does not authenticate; byte strings that no export produced; failing memory allocation')
