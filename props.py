#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.abspath(__file__)); P = []
def p(id, title, statement, over, qtext, tests, files, mech, state=(), observe=(), na=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=tests, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)), na))
p('C01', 'SM3 digests equal the standard for every message and every way of feeding it',
  'The SM3 digest of every message equals the one GB/T 32905 defines, whether computed in one call or by any sequence of update calls that splits the message, including empty ones. The digest encodes the true length however many blocks came before, a context that is initialised again starts a fresh message, and successful calls return 1.',
  ['inputs', 'histories'], 'all messages, all splits into update calls, all reuse of a context',
  'The test hashes one short string in one call; buffering across block boundaries, padding at 55/56/63/64 bytes, the length carry and reuse are never reached.',
  ['src/sm3/sm3.c', 'src/sm3/md32_common.h', 'src/sm3/sm3_local.h', 'include/wbcrypto/sm3.h'],
  [('compression function', 'src/sm3/sm3.c sm3_block_data_order'), ('block buffering and padding', 'src/sm3/md32_common.h HASH_UPDATE, HASH_FINAL')], [('Nl, Nh', 'message length in bits', 'WBCRYPTO_sm3_context'), ('num, data', 'bytes waiting for a full block', 'WBCRYPTO_sm3_context')], ['WBCRYPTO_sm3', 'WBCRYPTO_sm3_init', 'WBCRYPTO_sm3_update', 'WBCRYPTO_sm3_final'])
p('C02', 'SM4 equals the standard, decryption inverts encryption, key padding is exact',
  'For every key and every block, SM4 encryption and decryption give what GB/T 32907 defines and invert each other, also in place and after a context is given a new key. A key shorter than 16 bytes is extended with bytes holding the number of missing bytes, a longer one is cut to its first 16 bytes; successful calls return 1.',
  ['inputs', 'histories'], 'all keys of every length, all blocks, contexts that are re-keyed',
  'The tests encrypt a handful of fixed blocks under one 16-byte key and mostly print the result.', ['src/sm4/sm4.c', 'src/utils/padding.c', 'include/wbcrypto/sm4.h'],
  [('key schedule', 'src/sm4/sm4.c aux_sm4_init_key'), ('rounds', 'src/sm4/sm4.c WBCRYPTO_sm4_encrypt, WBCRYPTO_sm4_decrypt'), ('key padding', 'src/utils/padding.c WBCRYPTO_key_padding_pkcs7')], [('rk', 'round keys', 'struct sm4_context')], ['WBCRYPTO_sm4_init_key', 'WBCRYPTO_sm4_encrypt', 'WBCRYPTO_sm4_decrypt'])
p('C03', 'The AES interface is AES-128 under the padded key, in both directions',
  'For every key and block, the AES interface encrypts and decrypts with AES-128 under the key padded or cut to 16 bytes as for SM4, so that decryption inverts encryption, also in place, in any order of calls and after the context is given a new key. Contexts do not influence one another and successful calls return 1.',
  ['inputs', 'histories'], 'all keys of every length, all blocks, all orders of encrypt, decrypt and re-keying', 'The test checks one block under one key.', ['src/aes/aes.c', 'src/utils/padding.c', 'include/wbcrypto/aes.h'],
  [('key set-up for both directions', 'src/aes/aes.c WBCRYPTO_aes_init_key'), ('block calls', 'src/aes/aes.c')], [('aes_key, aes_dec_key', 'the two key schedules', 'struct aes_context')], ['WBCRYPTO_aes_init_key', 'WBCRYPTO_aes_encrypt', 'WBCRYPTO_aes_decrypt'])
p('C07', 'Padding helpers give exact bytes and lengths, stay in bounds, and removal undoes',
  'Key padding always yields 16 bytes: the first bytes of the key followed by the pad (the missing count, or zeros). Message padding extends a message to the next multiple of 16 with bytes holding the pad length and leaves whole-block messages unchanged; removal strips as many bytes as the last byte says when that is at most 16 and at most the length, and nothing otherwise, so that it restores every message that was padded. None of them touches memory outside the given lengths or changes its input.',
  ['inputs'], 'all keys, messages and buffers of every length', 'The helpers have no tests of their own; the mode tests use one message length each.', ['src/utils/padding.c', 'include/wbcrypto/utils.h'],
  [('padding and removal', 'src/utils/padding.c')], (), ['WBCRYPTO_key_padding_pkcs7', 'WBCRYPTO_key_padding_zeros', 'WBCRYPTO_padding_pkcs7_merge', 'WBCRYPTO_padding_pkcs7_separate', '..._length'])
p('C08', 'CBC ciphertext follows the mode, decrypts back, and length errors are reported',
  'For every message, key and IV and every block cipher, CBC encryption yields the CBC ciphertext of the padded message (whole-block messages are not extended) and reports its length; decryption restores the padded message and reports the length without padding, in place or not. An output buffer that is too small, or a ciphertext that is not whole blocks, makes the call return 0 with nothing written, and no call touches memory outside the given lengths or changes a separate input buffer.',
  ['inputs'], 'all messages, IVs, keys, output sizes; in place and out of place', 'The tests round-trip one message length per cipher, out of place, with a roomy buffer.', ['src/modes/cbc128.c', 'src/sm4/sm4_modes.c', 'src/aes/aes_modes.c', 'src/wbsm4/wbsm4_modes.c', 'src/utils/padding.c'],
  [('chaining', 'src/modes/cbc128.c'), ('length reporting', 'src/*/..._modes.c ..._cbc_decrypt')], (), ['WBCRYPTO_cbc128_encrypt', 'WBCRYPTO_cbc128_decrypt', 'WBCRYPTO_sm4_cbc_*', 'WBCRYPTO_aes_cbc_*'])
p('C09', 'GCM ciphertext and tag equal SP 800-38D for every message, AAD and IV length',
  'For every block cipher, message, additional data, IV and tag length, GCM encryption yields the ciphertext and (truncated) tag that SP 800-38D defines, decryption of that ciphertext restores the message and computes the same tag, in place or not, whatever the lengths (including empty ones, partial last blocks and IVs whose counter carries across bytes). Calls never touch memory outside the given lengths, an output shorter than the input is refused with 0, and successful calls return 1.',
  ['inputs'], 'all messages, additional data, IVs, tag lengths and keys', 'The tests round-trip one message with one IV; the reference tag, other IV lengths, counter carries and partial blocks are not compared with anything.',
  ['src/modes/gcm128.c', 'src/sm4/sm4_modes.c', 'src/aes/aes_modes.c', 'include/wbcrypto/modes.h'], [('GHASH with 4-bit tables', 'src/modes/gcm128.c gcm_init_4bit, gcm_gmult_4bit'), ('counter mode', 'src/modes/gcm128.c WBCRYPTO_gcm_encrypt, WBCRYPTO_gcm_decrypt'), ('IV and AAD', 'WBCRYPTO_gcm_setiv, WBCRYPTO_gcm_aad'), ('tag', 'WBCRYPTO_gcm_finish')], [('len, add_len', 'bytes hashed so far', 'WBCRYPTO_gcm_context')], ['WBCRYPTO_gcm_*', 'WBCRYPTO_sm4_gcm_*', 'WBCRYPTO_aes_gcm_*'])
p('C10', 'GCM contexts: messages in block-aligned pieces, fresh IVs and several contexts',
  'Feeding a GCM message in any sequence of pieces of which all but the last are whole blocks, each piece through the serial or the parallel call, gives the ciphertext and tag of the whole message. Setting a new IV starts a new message that does not depend on anything done before with the context (finished, abandoned, with or without AAD), and contexts used alternately do not influence one another.',
  ['histories', 'inputs'], 'all block-aligned splits, all earlier uses of the context, all interleavings of two contexts', 'The tests use each context for one message in one piece.', ['src/modes/gcm128.c', 'src/modes/gcm_parallel.c'], [('running counter and hash', 'WBCRYPTO_gcm_encrypt'), ('reset', 'WBCRYPTO_gcm_setiv')], [('y, buf, len, add_len', 'state of the current message', 'WBCRYPTO_gcm_context')], ['WBCRYPTO_gcm_setiv', 'WBCRYPTO_gcm_aad', 'WBCRYPTO_gcm_encrypt', 'WBCRYPTO_gcm_finish'])
p('C11', 'Parallel GCM equals serial GCM for every length, thread count and schedule',
  'For every message and number of threads, the parallel GCM calls produce the same ciphertext, plaintext and tag as the serial ones (encryption and decryption, in place or not, any length including 0 and partial last blocks), under every interleaving of the threads: no two threads touch the same memory with one of them writing. Outputs shorter than the input are refused.',
  ['schedules', 'inputs'], 'all interleavings, thread counts, messages and lengths', 'The parallel test compares one message on one schedule; races and lengths that are not multiples of the block or chunk never show.', ['src/modes/gcm_parallel.c', 'src/modes/gcm128.c'], [('OpenMP loops', 'src/modes/gcm_parallel.c WBCRYPTO_gcm_parallel_encrypt, WBCRYPTO_gcm_parallel_decrypt')], [('counter blocks per iteration', 'derived from the loop index', 'src/modes/gcm_parallel.c')], ['WBCRYPTO_gcm_parallel_encrypt', 'WBCRYPTO_gcm_parallel_decrypt', 'WBCRYPTO_gcm_finish'])
p('C12', 'GCM files hold tag, length and ciphertext, and decrypt back to the same file',
  'Encrypting a file of any length under GCM writes the 16-byte tag, the 8-byte little-endian length and the ciphertext that GCM defines for the whole content, replaces an existing output, leaves the input unchanged and leaves no temporary file; decrypting it with the same key, IV and AAD, with the same or a fresh context, restores the file byte for byte and returns 1.',
  ['inputs', 'histories'], 'all file contents and lengths, AAD, IVs; existing or absent outputs', 'The tests convert one file of one length and never compare the tag.', ['src/modes/gcmfile.c', 'src/sm4/sm4_modes.c', 'src/aes/aes_modes.c'], [('chunked conversion', 'src/modes/gcmfile.c WBCRYPTO_gcmfile_encrypt, WBCRYPTO_gcmfile_decrypt')], [('tag', 'tag read from or written to the file', 'WBCRYPTO_gcmfile_context')], ['the files named in the call', 'return values'])
p('C13', 'GCM files: changed files and wrong IV or AAD are rejected, I/O errors reported',
  'Decrypting a GCM file returns 0 when any byte of the tag, of the low four length bytes or of the ciphertext was changed, when bytes were cut off or appended, or when the IV or AAD differs. A missing input, or a failing open, read, write or flush, makes the call return 0: 1 is returned only if the complete output was written.',
  ['inputs', 'fault_sequences'], 'all single-byte changes, truncations and extensions; every failing I/O call', 'No test changes a file, passes a wrong IV or makes a file operation fail.', ['src/modes/gcmfile.c'], [('tag comparison', 'src/modes/gcmfile.c WBCRYPTO_gcmfile_decrypt'), ('length check and I/O errors', 'src/modes/gcmfile.c')], (), ['WBCRYPTO_gcmfile_decrypt', 'WBCRYPTO_gcmfile_encrypt'])
p('C16', 'FF1 equals SP 800-38G: same format, same length, and decryption undoes it',
  'For every block cipher, tweak, alphabet of 2 to 36 characters and numeral string of at least two characters, FF1 encryption and decryption give the string that SP 800-38G defines: same length, same alphabet, and decryption restores what was encrypted, in place or not. The input is left alone, memory is released, a successful call returns 1; strings of fewer than two characters return 0 with nothing written, and alphabets outside 2..36 give no context.',
  ['inputs', 'configurations'], 'all numeral strings, tweaks of every length, radices, block ciphers', 'The tests round-trip one string with one tweak; odd lengths, other radices, values with leading zeros and tweak lengths that change the padding are not compared with the standard.', ['src/fpe/ff1.c', 'src/fpe/fpe_locl.c', 'src/fpe/init.c', 'include/wbcrypto/fpe.h'],
  [('Feistel rounds', 'src/fpe/ff1.c'), ('numeral conversion', 'src/fpe/fpe_locl.c'), ('tweak set-up', 'WBCRYPTO_fpe_init')], [('tweak, tweaklen, radix', 'parameters of the permutation', 'WBCRYPTO_fpe_context')], ['WBCRYPTO_fpe_init', 'WBCRYPTO_ff1_encrypt', 'WBCRYPTO_ff1_decrypt'])
p('C17', 'FF3 equals SP 800-38G: same format, same length, and decryption undoes it',
  'For every block cipher, 8-byte tweak, alphabet of 2 to 36 characters and numeral string of at least two characters, FF3 encryption and decryption give the string that SP 800-38G (2016) defines, so format and length are kept and decryption restores what was encrypted, in place or not. The input is left alone, memory is released, a successful call returns 1; strings of fewer than two characters return 0 with nothing written.',
  ['inputs', 'configurations'], 'all numeral strings, tweaks, radices, block ciphers', 'The tests round-trip one string with one tweak; odd lengths, byte order, other radices and leading zeros are not compared with the standard.', ['src/fpe/ff3.c', 'src/fpe/init.c', 'include/wbcrypto/fpe.h'],
  [('Feistel rounds with reversed numerals', 'src/fpe/ff3.c')], [('tweak, radix', 'parameters of the permutation', 'WBCRYPTO_fpe_context')], ['WBCRYPTO_fpe_init', 'WBCRYPTO_ff3_encrypt', 'WBCRYPTO_ff3_decrypt'])
p('C18', 'FF1-CMAC: FF1 ciphertext, and decryption reproduces text and 16-byte tag',
  'For every block cipher, tweak, alphabet and numeral string of at least two characters, FF1-CMAC encryption gives the ciphertext of FF1 and a tag of 16 bytes; decrypting that ciphertext, with the same context or a fresh one, restores the text and arrives at the same tag. The input is left alone, exactly 16 tag bytes are written, memory is released, successful calls return 1; strings of fewer than two characters return 0 with nothing written.',
  ['inputs', 'histories'], 'all numeral strings, tweaks, radices, block ciphers; one or two contexts', 'The test runs one string and prints the tags.', ['src/fpe/ff1_cmac.c', 'src/fpe/init.c', 'include/wbcrypto/fpe.h'],
  [('rounds and tag chaining', 'src/fpe/ff1_cmac.c')], [('tag', 'running tag', 'WBCRYPTO_fpe_mac_context')], ['WBCRYPTO_ff1_cmac_encrypt', 'WBCRYPTO_ff1_cmac_decrypt', 'WBCRYPTO_ff1_cmac_finish'])
p('C19', 'FF3-GMAC: FF3 ciphertext, tag over tweak and rounds, equal in both directions',
  'For every block cipher, tweak, alphabet and numeral string of at least two characters, FF3-GMAC encryption gives the ciphertext of FF3 and a 16-byte tag that is the GHASH product of the hash key with the sum of the (zero-extended) tweak and the byte-reversed outputs of all eight rounds; decrypting that ciphertext, with the same context or a fresh one, restores the text and arrives at the same tag. The input is left alone, memory is released, successful calls return 1; strings of fewer than two characters return 0 with nothing written.',
  ['inputs', 'histories'], 'all numeral strings, tweaks, radices, block ciphers; one or two contexts', 'The test runs one string and prints the tags.', ['src/fpe/ff3_gmac.c', 'src/fpe/init.c', 'include/wbcrypto/fpe.h'],
  [('rounds and tag', 'src/fpe/ff3_gmac.c')], [('tag', 'running tag', 'WBCRYPTO_fpe_mac_context')], ['WBCRYPTO_ff3_gmac_encrypt', 'WBCRYPTO_ff3_gmac_decrypt', 'WBCRYPTO_ff3_gmac_finish'])
p('C20', 'Phone numbers: chosen digits go through FF1/FF3, the rest stays, and it undoes',
  'Encrypting a phone number under any configured cipher, key and mode replaces the digits whose place holds a star in the sample (all of them without a sample) by FF1 or FF3 of exactly those digits in order, with the kept characters (and their closing NUL) as tweak, and keeps every other character in place, so the result has the same length and decryption with the same sample restores the number. The cipher named in the context is used with the padded key (AES and FF3 when the name is unknown); calls return 1 exactly when at least two digits are encrypted, release their memory and leave the input alone.',
  ['inputs', 'configurations'], 'all numbers, samples, keys, ciphers and modes', 'The tests encrypt one number with one or two samples and print it.', ['src/fpe_app/phone.c', 'src/fpe_app/init.c', 'include/wbcrypto/fpe_app.h'],
  [('choice of digits and tweak', 'src/fpe_app/phone.c aux_fpe_phone'), ('choice of cipher', 'src/fpe_app/init.c WBCRYPTO_fpe_app_init')], [('cipher, ffx, cipher_ctx', 'configured cipher and mode', 'WBCRYPTO_fpe_app_context')], ['WBCRYPTO_fpe_encrypt_phone', 'WBCRYPTO_fpe_decrypt_phone', '..._with_sample'])
p('C21', 'Identity cards: chosen digits go through FF1/FF3, a final X and the rest stay',
  'Encrypting an identity card under any configured cipher, key and mode keeps a final X and replaces, among the other characters, those whose place holds a star in the sample (all of them without a sample) by FF1 or FF3 of exactly those digits in order, with the kept ones (and their closing NUL) as tweak; every other character stays in place, so the result has the same length and decryption with the same sample restores the card. Calls return 1 exactly when at least two digits are encrypted, release their memory and leave the input alone.',
  ['inputs', 'configurations'], 'all cards, with and without X, samples, keys, ciphers and modes', 'The tests encrypt one card with one or two samples and print it.', ['src/fpe_app/idcard.c', 'src/fpe_app/init.c', 'include/wbcrypto/fpe_app.h'],
  [('choice of digits, tweak and final X', 'src/fpe_app/idcard.c aux_fpe_idcard')], [('cipher, ffx, cipher_ctx', 'configured cipher and mode', 'WBCRYPTO_fpe_app_context')], ['WBCRYPTO_fpe_encrypt_idcard', 'WBCRYPTO_fpe_decrypt_idcard', '..._with_sample'])
p('C22', 'Chinese text: chosen characters map to digits and back exactly, the rest stays',
  'Encrypting or decrypting Chinese text turns every character chosen by the sample (all of them without one) into the four duodecimal digits, least significant first, of its place after U+4E00, passes exactly those digits in order, with the digits of the kept characters as tweak and alphabet 12, to the configured FF1 or FF3 direction, and turns each four result digits back into the character at that place; kept characters stay as they are. A sample entry is a star or a three-byte character, and characters after its end are kept. Text with a character outside U+4E00..U+9EFF is refused with 0 and nothing written; memory is released and the input left alone.',
  ['inputs', 'configurations'], 'all characters at every place, all samples, all digit results', 'The tests encrypt one or two fixed texts and print them.', ['src/fpe_app/cn_utf8.c', 'src/fpe_app/utf8_util.c', 'include/wbcrypto/fpe_app.h'],
  [('choice of characters and tweak', 'src/fpe_app/cn_utf8.c aux_fpe_cn'), ('conversion', 'src/fpe_app/utf8_util.c')], [], ['WBCRYPTO_fpe_encrypt_cn_utf8', 'WBCRYPTO_fpe_decrypt_cn_utf8', '..._with_sample'])
p('C05', 'White-box SM4 tables compute SM4 for every block, with any dummy rounds',
  'For every key and seed and every number of dummy rounds, the tables that white-box SM4 generates in encryption mode map every block to its SM4 encryption, and those generated in decryption mode to its SM4 decryption, under the key padded or cut to 16 bytes as for SM4; also in place and for many blocks after another. The input is left alone and successful calls return 1.',
  ['inputs', 'configurations'], 'all blocks, keys of every length, seeds, dummy-round counts, both modes', 'The tests encrypt one block under one key with the seed of the moment, without dummy rounds next to each other; a table entry that is wrong for a few byte values, or a wrong position of the dummy rounds, shows only for some seeds and blocks.', ['src/wbsm4/wbsm4.c', 'src/wbsm4/wbsm4_gen.c', 'WBMatrix/src/WBMatrix.c', 'include/wbcrypto/wbsm4.h'],
  [('table generation and dummy rounds', 'src/wbsm4/wbsm4_gen.c WBCRYPTO_wbsm4_gen_table, wbsm4_gen_dummyround_array'), ('table-driven rounds', 'src/wbsm4/wbsm4.c WBCRYPTO_wbsm4_encrypt'), ('random invertible encodings', 'WBMatrix/src/WBMatrix.c genaffinepairM32, affinemixM32')], [('MM, CC, DD, SE, FE, Table', 'encoded round tables', 'struct wbsm4_context')], ['WBCRYPTO_wbsm4_context_init', 'WBCRYPTO_wbsm4_gen_table', 'WBCRYPTO_wbsm4_encrypt', 'WBCRYPTO_wbsm4_decrypt'])
p('C06', 'Self-equivalence white-box SM4 computes SM4 for every key, block and draw',
  'For every key, block, random seed and choice of self-equivalences, the context that self-equivalence white-box SM4 generates in encryption mode maps the block to its SM4 encryption, and in decryption mode to its SM4 decryption, under the key padded or cut to 16 bytes as for SM4; also in place and for many blocks after another. The input is left alone and successful calls return 1.',
  ['inputs', 'configurations'], 'all keys, blocks, seeds and self-equivalences, both modes', 'The test encrypts one block with the self-equivalences one seed draws: 128 of 2039.', ['src/se_wbsm4/se_wbsm4.c', 'src/se_wbsm4/se_wbsm4_local.c', 'WBMatrix/src/WBMatrix.c', 'include/wbcrypto/se_wbsm4.h'],
  [('context generation', 'src/se_wbsm4/se_wbsm4.c WBCRYPTO_se_wbsm4_gen_table'), ('list of self-equivalences', 'src/se_wbsm4/se_wbsm4_local.c SE_initial'), ('rounds', 'src/se_wbsm4/se_wbsm4.c WBCRYPTO_se_wbsm4_encrypt')], [('M, C, D, SE, FE', 'encoded affine layers', 'struct se_wbsm4_context')], ['WBCRYPTO_se_wbsm4_context_init', 'WBCRYPTO_se_wbsm4_gen_table', 'WBCRYPTO_se_wbsm4_encrypt', 'WBCRYPTO_se_wbsm4_decrypt'])
p('C23', 'Exported white-box SM4 keys import exactly and alone; bad key files are refused',
  'Exporting white-box SM4 tables to a file or to a byte string and importing them into any context (for files: one with room for the rounds) restores every table, the number of rounds and the mode, leaves the exporter alone, and the imported context does not depend on the exporter or the string any more. The key store restores exactly the bytes that were stored. A missing, shortened or unreadable file, a changed header, or a number of rounds the context cannot hold makes the import return 0 without touching foreign memory, and an export returns 1 only if the whole file was written.',
  ['inputs', 'histories', 'fault_sequences'], 'all table contents, round counts, importing contexts, header changes, cuts and failing file operations', 'The test exports one key and imports it in the same process, where shared pointers look like a copy; nothing is cut, changed or made to fail.', ['src/wbsm4/wbsm4_exkey.c', 'src/utils/keystore.c', 'include/wbcrypto/wbsm4.h', 'include/wbcrypto/utils.h'],
  [('key files', 'src/wbsm4/wbsm4_exkey.c WBCRYPTO_wbsm4_key2file, WBCRYPTO_wbsm4_file2key'), ('key strings', 'src/wbsm4/wbsm4_exkey.c WBCRYPTO_wbsm4_key2bytes, WBCRYPTO_wbsm4_bytes2key'), ('key store', 'src/utils/keystore.c')], [('rounds, encmode and the tables', 'the exported key', 'struct wbsm4_context')], ['WBCRYPTO_wbsm4_key2file', 'WBCRYPTO_wbsm4_file2key', 'WBCRYPTO_wbsm4_key2bytes', 'WBCRYPTO_wbsm4_bytes2key', 'WBCRYPTO_keystore_key_to_file', 'WBCRYPTO_keystore_file_to_key'])
p('C04', 'White-box AES tables compute AES-128 for every block, key and seed',
  'For every key and random seed, the tables that white-box AES generates map every block to its AES-128 encryption under the key padded or cut to 16 bytes as for SM4, also in place. Table generation and encryption leave the key and the input alone, write nothing outside their context and output, and successful calls return 1.',
  ['inputs', 'configurations'], 'all blocks, keys of every length, seeds', 'The test encrypts one block under one key with the seed of the moment and prints it; a table entry that is wrong for a few byte values shows only for some blocks and seeds.', ['src/wbaes/wbaes.c', 'src/wbaes/wbaes_local.c', 'WBMatrix/src/WBMatrix.c', 'include/wbcrypto/wbaes.h'],
  [('table generation', 'src/wbaes/wbaes.c WBCRYPTO_wbaes_gen_table'), ('table-driven rounds', 'src/wbaes/wbaes.c WBCRYPTO_wbaes_encrypt')], [('round tables', 'encoded T-boxes and mixing tables', 'struct wbaes_context')], ['WBCRYPTO_wbaes_context_init', 'WBCRYPTO_wbaes_gen_table', 'WBCRYPTO_wbaes_encrypt'])
WB = 'restores the message and arrives at the same tag, in place or not, in one piece or in pieces of whole blocks, with a context used again after a new IV. An output shorter than the input is refused with a value other than 1 and nothing is written. The file calls write tag, 8-byte little-endian length and ciphertext, restore the file, reject files changed in tag, low four length bytes or ciphertext, cut or extended files and other AAD with 0, and return 1 only if the whole output was written. Inputs, IVs, AAD and input files are left alone.'
p('C14', 'White-box AES-GCM (encoded) is AES-GCM in both directions and for files',
  'For every key, random seed, IV, AAD and message, the tables and contexts of white-box AES-GCM with external encodings give the AES-128-GCM ciphertext and tag of SP 800-38D under the padded key, and decryption ' + WB,
  ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all messages, AAD, IVs, keys, seeds; contexts used again; failing file operations', 'The tests round-trip one message and one file under one key and seed; they do not compare with AES-GCM, carry counters, change files or make I/O fail.', ['src/wbaes/wbaes_wbgcm_ee_init.c', 'src/wbaes/wbaes_wbgcm_ee_mode.c', 'src/wbaes/wbaes_wbgcm_ee_file.c', 'include/wbcrypto/wbaes_wbgcm_ee.h'],
  [('table generation', 'src/wbaes/wbaes_wbgcm_ee_init.c'), ('counter mode and tag', 'src/wbaes/wbaes_wbgcm_ee_mode.c'), ('file conversion', 'src/wbaes/wbaes_wbgcm_ee_file.c')], [('y, buf, base_ectr, len, add_len', 'counter, running tag, lengths', 'WBCRYPTO_wbgcm_ee_context')], ['WBCRYPTO_wbaes_wbgcm_ee_gen_table', 'WBCRYPTO_wbaes_wbgcm_ee_encrypt', 'WBCRYPTO_wbaes_wbgcm_ee_decrypt', 'WBCRYPTO_wbaes_wbgcm_ee_finish', 'WBCRYPTO_wbaes_wbgcmfile_ee_encrypt', 'WBCRYPTO_wbaes_wbgcmfile_ee_decrypt'])
p('C15', 'White-box AES-GCM (masked) decrypts what it encrypts, with the GCM tag',
  'For every key, random seed, IV, AAD and message, white-box AES-GCM with masks emits a ciphertext as long as the message and with it the AES-128-GCM tag of SP 800-38D, under the padded key, of exactly the emitted ciphertext and the AAD; decryption of it with the paired decryption tables ' + WB,
  ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all messages, AAD, IVs, keys, seeds; contexts used again; failing file operations', 'The tests round-trip one message and one file under one key and seed; a mask or table entry that is wrong for some byte values, counters that carry, changed files and failing I/O are not exercised.', ['src/wbaes/wbaes_wbgcm_mask_init.c', 'src/wbaes/wbaes_wbgcm_mask_mode.c', 'src/wbaes/wbaes_wbgcm_mask_file.c', 'include/wbcrypto/wbaes_wbgcm_mask.h'],
  [('generation of paired tables', 'src/wbaes/wbaes_wbgcm_mask_init.c'), ('counter mode and tag', 'src/wbaes/wbaes_wbgcm_mask_mode.c'), ('file conversion', 'src/wbaes/wbaes_wbgcm_mask_file.c')], [('y, buf, base_ectr, len, add_len', 'counter, running tag, lengths', 'WBCRYPTO_wbgcm_mask_context')], ['WBCRYPTO_wbaes_wbgcm_mask_gen_table', 'WBCRYPTO_wbaes_wbgcm_mask_encrypt', 'WBCRYPTO_wbaes_wbgcm_mask_decrypt', 'WBCRYPTO_wbaes_wbgcm_mask_finish', 'WBCRYPTO_wbaes_wbgcmfile_mask_encrypt', 'WBCRYPTO_wbaes_wbgcmfile_mask_decrypt'])
# --- more below
def main():
    import registry
    with open(V + '/properties.jsonl', 'w') as f:
        for d, na in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
    T = 'symbolic execution of the compiled LLVM IR with SMT/SAT-decided assertions (own engine, z3), counterexamples replayed natively'
    ck, nal = [], []
    for d, na in P:
        if na is None and d['id'] in registry.PROPS:
            b = registry.PROPS[d['id']]['bounds']; b = b['quick'] if isinstance(b, dict) else b
            ck.append(dict(property=d['id'], quick_cmd=f'python3 check.py {d["id"]} --tier quick', thorough_cmd=f'python3 check.py {d["id"]} --tier thorough', evidence_file=f'evidence/{d["id"]}.json', technique=T, level='model_checking', level_note='Every value within the bounds is decided by the solver over the real code. Bounds: ' + b + ('. Outside: ' + registry.PROPS[d['id']]['outside'] if registry.PROPS[d['id']].get('outside') else '')))
        else: nal.append(dict(property=d['id'], reason=na or 'no check has been built for it yet'))
    json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=ck, not_applicable=nal), open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
    print(len(P), 'properties', len(ck), 'checks')
if __name__ == '__main__': main()
