import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
CV='lib/converters/*.h'
p('C01','No call reads or writes outside the buffers it was given, or aborts',
 'For every pair of encodings, every state a descriptor can be in, every input byte string and every pair of buffer sizes, a conversion call or a reset call reads only the given input bytes, writes only the given output bytes, touches no memory outside its own tables, terminates and never aborts the process. When it returns, the input pointer has advanced by exactly the decrease of the input count and the output pointer by exactly the decrease of the output count, and neither count has grown.',
 ['inputs','histories','configurations'],'all 198 x 198 encoding pairs, all reachable converter states, all byte strings (valid or not), all buffer sizes including zero',
 'the tests convert complete valid tables through large buffers; they run without memory checking and never offer an output buffer that is just too small',
 [CV,'lib/loop_unicode.h','lib/iconv.c'],[('per-character length checks of each decoder and encoder',CV),('accounting and rollback of the conversion loop','lib/loop_unicode.h: unicode_loop_convert'),('reset','lib/loop_unicode.h: unicode_loop_reset')],
 [('istate/ostate','shift state, buffered character','lib/reiconv_defines.h: struct conv_struct')],['return value, errno, the four in/out parameters','the memory around the buffers'])
p('C02','Splitting input or output anywhere never changes the result of a conversion',
 'Feeding a byte string to a descriptor in any number of pieces (re-presenting the unconsumed bytes) and collecting the output through buffers of any sizes produces the same output bytes, the same final verdict and the same stopping position (shift sequences and byte order marks directly before it carry no characters and do not count) as one call with all the input and unlimited room. A call that stops (output full, truncated input, invalid input) has consumed only whole characters or whole shift sequences whose output is complete, writes no part of the character it stopped at, and leaves the descriptor so that the next call continues exactly there.',
 ['inputs','histories','configurations'],'all encodings, all input strings, all ways of cutting input and output, including cuts inside escape sequences, surrogate pairs and combining pairs',
 'the tests only convert in one piece, so no interrupted call is ever resumed',
 [CV,'lib/loop_unicode.h'],[('rollback of the decoder state when a character does not fit','lib/loop_unicode.h: last_istate'),('RET_TOOFEW / RET_SHIFT_ILSEQ accounting','lib/reiconv_defines.h and the decoders'),('no state change on RET_TOOSMALL/RET_ILUNI','the encoders')],
 [('istate','decoder shift state / pending character','struct conv_struct'),('ostate','encoder shift state / pending composition','struct conv_struct')],['concatenated output of several calls'])
p('C03','What an encoding can express survives encoding and decoding unchanged',
 'For every encoding and every sequence of characters each of which the encoder accepts, the emitted bytes (with the closing reset sequence) decode without error to the same sequence, whatever mixture of scripts and shift states the sequence goes through. Exempt are only: the encoding\'s own signalling characters (escape and shift controls in ISO-2022-*, byte order marks in the encodings that use them, the backslash in C99 and JAVA, language tags in ISO-2022-JP-2), surrogate code points, the documented one-way mappings (which must still re-encode to the same bytes), and in CP1255, CP1258 and TCVN the choice between composed and decomposed spelling.',
 ['inputs','histories'],'all encodings, all character sequences, hence all joint encoder/decoder states',
 'the tests check each character of a table alone from the initial state (plus one snippet per stateful encoding)',
 [CV],[('mapping table pairs (xxx_mbtowc / xxx_wctomb)',CV),('announcement of character sets before use','lib/converters/iso2022_*.h'),('composition of base and combining characters','lib/converters/big5hkscs*.h, *jisx0213.h, iso2022_jp3.h')],
 [('ostate vs. istate','the decoder must be in the state the encoder thinks it is in','struct conv_struct')],['decoded characters'])
p('C04','The Unicode encodings follow their definitions exactly',
 'UTF-8, UTF-16(BE/LE), UTF-32(BE/LE), UCS-2 and UCS-4 (plain, BE, LE, internal, swapped), UTF-7, C99 and JAVA decode and encode every input exactly as their definitions say: every scalar value maps to its one byte sequence, and overlong, surrogate, out-of-range and otherwise ill-formed input is rejected at its first unit. Byte order marks are honoured and consumed by the encodings that use them (UTF-16 and UTF-32 encoders write a big-endian mark once, the plain decoders assume big-endian without a mark) and are ordinary characters in the others.',
 ['inputs','histories'],'all code points 0..2^32-1 and all byte strings up to the longest sequence, in every decoder state',
 'tests decode the valid sequences only (UTF-8 through a table), and say nothing about the 2^32 ill-formed 4-byte strings or byte-order histories',
 ['lib/converters/utf8.h','lib/converters/utf16*.h','lib/converters/utf32*.h','lib/converters/ucs2*.h','lib/converters/ucs4*.h','lib/converters/utf7.h','lib/converters/c99.h','lib/converters/java.h'],
 [('range checks of the decoders','utf8_mbtowc, utf16_mbtowc, ...'),('byte order state','istate of ucs2/ucs4/utf16/utf32')],(),['decoded characters, verdicts, bytes'])
p('C05','Every 8-bit character set maps exactly its own repertoire, in both directions',
 'For each 8-bit encoding (ISO-8859-*, CP*, Mac*, KOI8-*, EBCDIC* and the rest) every byte decodes to exactly the character its published mapping assigns or is rejected as invalid, from every state and whatever follows it, and the encoder accepts exactly the characters of that mapping (plus the documented one-way ones) and emits the byte that decodes back to them. No other code point up to 2^32-1 is accepted.',
 ['inputs'],'all 256 bytes and all 2^32 code points of every 8-bit encoding',
 'tests cover the encodings that have a table file and only code points of the BMP or below 0x30000; the EBCDIC family has none',
 [CV],[('page tables of the decoders and encoders',CV)],(),['decoded characters and emitted bytes'])
p('C06','Invalid input and unencodable characters are treated as the flags say',
 'Without the discard flag a conversion stops at the first invalid sequence with EILSEQ, having converted everything before it; with the flag it skips exactly one unit (1 byte, or 2/4 for UCS-2/UTF-16 and UCS-4/UTF-32 family input) and goes on. A character the target cannot express is dropped silently if it is a language tag (U+E0000..U+E007F), otherwise counted in the return value and dropped with the flag or replaced by U+FFFD without it, and if even U+FFFD cannot be expressed the call stops with EILSEQ just before that character; nothing else is ever dropped, substituted or counted.',
 ['inputs','configurations','histories'],'all encoding pairs, both flag settings, all inputs with any mixture and position of invalid sequences and unencodable characters, all buffer sizes',
 'one test with a fixed string per behaviour; combinations with full buffers, tags, and multi-byte units are not reached',
 ['lib/loop_unicode.h'],[('case analysis of the conversion loop','lib/loop_unicode.h: unicode_loop_convert'),('flag set at open time','lib/iconv.c: reiconv_open*')],
 [('discard_ilseq','the flag','struct conv_struct')],['return value, errno, output, stopping position'])
p('C07','Reset delivers what is pending, closes the shift state, and starts afresh',
 'A reset call with an output buffer emits the pending character of the input (if any) exactly once, then the sequence that returns the output encoding to its initial state, and leaves the descriptor converting as if freshly opened (except that a byte order already detected is kept); with no output buffer it only does the latter. If the room does not suffice it fails with E2BIG, nothing is lost or duplicated, and repeating the call with more room completes it; resetting a descriptor in its initial state emits nothing.',
 ['histories','inputs','fault_sequences'],'all encoding pairs, all descriptor states reachable by any conversion history, all output sizes',
 'no test calls reset with a short buffer, twice, or between two texts',
 ['lib/loop_unicode.h',CV],[('unicode_loop_reset','lib/loop_unicode.h'),('xxx_flushwc and xxx_reset','lib/converters/*.h')],
 [('istate, ostate','cleared by reset','struct conv_struct'),('ibyteorder','kept','struct conv_struct')],['bytes emitted by reset, subsequent conversions'])
p('C08','Name and code page lookup is total, safe and spelling-insensitive',
 'For every C string of any length, name lookup returns a valid encoding index or -1 without touching memory outside its arguments, ignores case and the characters - and _, and finds exactly the listed names; for every int, code page lookup returns the index of the encoding of that code page or -1. Names listed as aliases of one encoding give the same index, and no two encodings share a name.',
 ['inputs'],'all strings (any bytes, any length) and all 2^32 code page numbers',
 'tests look up the names of their own encodings only',
 ['lib/iconv.c','lib/generated/aliases.h','lib/generated/codepage_to_eindex.h','lib/encodings/*.def'],[('reiconv_name_canonicalize, reiconv_lookup_from_name, reiconv_lookup_from_codepage','lib/iconv.c'),('perfect hash','lib/generated/aliases.h: aliases_lookup')],(),['returned index'])
p('C09','The one-shot functions agree with streaming conversion and with each other',
 'For every input, computing the result size gives exactly the number of bytes that converting the input followed by a reset emits, conversion into a caller\'s buffer succeeds exactly when the buffer is at least that large, writes those bytes and leaves the rest of the buffer untouched, and the allocating conversion returns exactly those bytes and their count. On invalid or truncated input, or lack of room or memory, they return failure with errno set (EILSEQ, E2BIG, ENOMEM, EINVAL for null arguments), never leak or free a caller\'s live buffer behind his back, and in every case leave the descriptor ready for the next unrelated conversion.',
 ['inputs','histories','fault_sequences'],'all encoding pairs, inputs of any length (including results around and beyond the internal buffer size), all output sizes, allocation failures, reuse of one descriptor',
 'tests call them once per descriptor on valid input with ample room',
 ['lib/iconv.c'],[('reiconv_result_size, reiconv_convert_static_size, reiconv_convert','lib/iconv.c')],(),['return values, errno, buffers, subsequent conversions'])
p('C10','Opening yields the requested conversion or a clean error',
 'Opening by index, code page or name returns a descriptor in the initial state that converts from exactly the requested source encoding to exactly the requested target encoding with exactly the requested flags, or fails with EINVAL for an unknown name or code page and ENOMEM when memory is short, without leaking. The iconv-compatible open takes target then source, accepts the suffix //IGNORE on either (ignoring case) as the discard flag, and ignores other // suffixes.',
 ['inputs','fault_sequences','configurations'],'all names and numbers, all flag values, allocation failure',
 'tests open with correct names only and never fail an allocation',
 ['lib/iconv.c'],[('reiconv_open, reiconv_open_from_*','lib/iconv.c')],(),['behaviour of the returned descriptor, errno'])
p('C11','Descriptors are independent; inputs and shared tables are never modified',
 'Using, interleaving or closing one descriptor never affects another, so descriptors may be used by different threads at the same time; a call modifies nothing but its descriptor, its in/out arguments and the output buffer it was given. In particular the input bytes and the mapping tables are never written.',
 ['histories','schedules','inputs'],'all interleavings of calls on any number of descriptors, all inputs',
 'tests use one descriptor at a time and a single thread',
 ['lib/iconv.c','lib/loop_unicode.h',CV],[('all state lives in the descriptor','lib/reiconv_defines.h: struct conv_struct'),('const tables','lib/converters/*.h')],(),['results of interleaved conversions'])
p('C12','The C++ wrapper reports every error as an exception and leaks nothing',
 'The C++ functions return exactly what the C functions produce for the same arguments, throw the documented exception on every failure, never return a partial result and release the descriptor and buffers on every path.',
 ['inputs','fault_sequences'],'all inputs and encodings, all failure points',
 'tests never make the wrapper fail',
 ['include/cppp/reiconv.hpp.in'],[('reiconv::convert','include/cppp/reiconv.hpp.in')],(),['exceptions, returned strings'])
p('C13','The locale character set query always names a usable encoding',
 'The locale query returns a non-empty, statically allocated name for every locale setting.',
 ['configurations'],'all locale settings',
 'no test calls it',
 ['lib/locale_charset.c'],[('locale_charset','lib/locale_charset.c')],(),['returned string'])
p('C14','7-bit encodings emit only 7-bit bytes and end in the plain state',
 'The encodings defined for 7-bit channels (ASCII, ISO646-*, ISO-2022-JP/-1/-2/-3/-MS, ISO-2022-CN/-CN-EXT/-KR, HZ, UTF-7, JAVA) never emit a byte above 0x7F, for any character in any state, and after the closing reset sequence a decoder is back in its initial (ASCII) state, so texts may be concatenated.',
 ['inputs','histories'],'all characters, all encoder states',
 'tests encode each character once from the initial state and do not look at the state afterwards',
 ['lib/converters/iso2022_*.h','lib/converters/hz.h','lib/converters/utf7.h','lib/converters/c99.h','lib/converters/java.h'],[('encoders and reset functions','lib/converters/*.h')],(),['emitted bytes'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
