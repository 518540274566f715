COMMON_ASSUMPTIONS = [
    "x86_64 little-endian, Rust stable toolchain, opt-level 1 with overflow checks; the LLVM IR of the fat-LTO crate graph is what is executed",
    "memory allocation succeeds; uninitialised memory reads as a fixed pattern; pointers of distinct allocations compare by allocation order",
]
HASH = "CityHash128=model_CityHash128"
LZC = "LZ4_compress_default=model_LZ4_compress_default"
LZD = "LZ4_decompress_safe=model_LZ4_decompress_safe"
def H(name, bounds, **kw):
    d = dict(name=name, bounds=bounds); d.update(kw); return d
PROPS = {
 "C01": dict(harnesses=[
    H("c01_uvarint_rt", "every u64, any byte behind it", reach=["rt"]),
    H("c01_uvarint_any", "every byte string of 0..13 bytes", reach=["value", "truncated", "overflow"]),
    H("c01_string_rt", "every byte string of 0..5 and of 130 bytes", reach=["utf8", "not utf8"]),
    H("c01_string_any", "every ASCII byte string of 0..6 bytes as wire input", reach=["truncated", "complete"]),
    H("c01_string_pool", "3 strings of lengths 0,1,5,1024,2000 in any order, first and last byte symbolic", reach=["pool"]),
 ]),
 "C03": dict(harnesses=[
    H("c03_scalars", "21 scalar types, 0..2 rows, every byte of every cell", reach=["rows", "empty"]),
    H("c03_params", "15 parametrised types, 0..2 rows", reach=["rows", "empty"]),
    H("c03_aliases", "19 alias names, 0..1 rows", reach=["rows"]),
    H("c03_nested", "25 Nullable/Array types, 0..2 rows, 0..2 items", reach=["rows", "empty"]),
    H("c03_deep", "16 doubly nested, Map and SimpleAggregateFunction types", reach=["rows", "empty"]),
    H("c03_lowcard", "LowCardinality over 5 types, index widths 1,2,4,8, 0..3 rows", reach=["rows", "empty"]),
    H("c03_info", "every block info", reach=["info"]),
 ]),
 "C02": dict(harnesses=[
    H("c02_scalars", "24 Rust value types, 0..2 rows, every value (dates and instants from lists, strings of 0..3 bytes)", reach=["sent"]),
    H("c02_opts", "20 optional value types, 0..2 rows", reach=["sent"]),
    H("c02_vecs", "18 array value types, 0..2 rows of 0..2 items", reach=["sent"]),
    H("c02_maps", "2 map types, 0..2 rows of 0..2 entries with fixed keys", reach=["sent"]),
    H("c02_casts", "21 conversions to the table's type, 0..2 rows", reach=["sent"]),
    H("c02_lowcard", "LowCardinality of String, UInt32, Int64, Date, 0..3 rows from small value lists", reach=["sent"]),
    H("c02_lowcard_many", "262 rows, 260 distinct values", reach=["sent"]),
 ]),
 "C04": dict(harnesses=[H("c04_%s" % x, "the columns of c02_%s, 4 rows in chunks of 1..4, 8 patterns of lengths and nulls, every value" % x, reach=["sent", "chunks"]) for x in ("scalars", "opts", "vecs", "maps", "casts", "lowcard")]),
 "C09": dict(harnesses=[
    H("c09_read_cuts", "6 operations, two cuts at every position of the server's stream", reach=["fetch_all", "stream_blocks", "stream", "execute", "insert", "ping"]),
    H("c09_read_bytes", "6 operations, byte by byte", reach=["fetch_all", "insert"]),
    H("c09_write_cuts", "6 operations, two cuts at every position of the client's stream", reach=["fetch_all", "insert"]),
 ]),
 "C13": dict(harnesses=[
    H("c13_exception", "6 operations, an exception in place of every packet of the answer, every code, name, message of up to 2 bytes; connection closed behind it or not", reach=["fetch_all", "stream_blocks", "stream", "execute", "insert", "ping", "reused"]),
    H("c13_hello", "an exception in place of the hello", reach=["hello"]),
    H("c13_eof", "6 operations, the server's stream ends or breaks at every offset", reach=["no hello", "broken", "complete"]),
    H("c13_eof_check", "5 operations, the connection broken before, at and after the check", reach=["fetch_all", "insert"]),
 ]),
 "C15": dict(harnesses=[H("c15_dirty", "3 ways to read, 5 ways to end early at every packet, 6 next operations, same or new handle, with and without the check", reach=["dropped", "stalled", "garbage", "exception", "unpolled", "clean"])]),
 "C22": dict(harnesses=[
    H("c22_timeouts", "silence at every packet of the answer, 6 operations including connecting", reach=["timeout"]),
    H("c22_retries", "0..3 retries, 0..4 refused connections, 5 operations", reach=["none", "recovered", "given up"]),
    H("c22_flapping", "a server that drops each connection behind the hello", reach=["end"]),
    H("c22_stale", "1..4 stale connections in the pool, 5 operations", reach=["fresh"]),
    H("c22_hosts", "1..3 hosts, 5 connections, every pattern of refusals", reach=["hosts"]),
 ]),
 "C14": dict(harnesses=[
    H("c14_tasks", "2 and 3 tasks on pools of 1 and 2 connections, every interleaving of polls and of connections coming up or failing, one cancelled task", reach=["done"]),
    H("c14_history", "every history of 4 operations on up to 2 handles", reach=["done"]),
 ]),
 "C08": dict(harnesses=[
    H("c08_flat", "22 fixed-width types, row counts 1, 2, 3, 255 .. 2^64-1, 0, 5 or 20 arbitrary bytes", reach=["block", "rejected"]),
    H("c08_strings", "String columns: row counts up to 2^64-1, arbitrary lengths below 128 or from a list up to 2^64-1", reach=["block", "rejected"]),
    H("c08_offsets", "8 array and map types, every choice of offsets from {0,1,2,3,255..2^64-1}, up to 6 arbitrary bytes", reach=["block", "rejected"]),
    H("c08_offsets2", "Array(Array(UInt8)), both levels of offsets from {0,1,2,3,2^63}", reach=["block", "rejected"]),
    H("c08_lowcard", "4 LowCardinality types, every first two bytes of the flags, sizes from lists, arbitrary keys", reach=["block", "rejected"]),
    H("c08_columns", "blocks of up to 2^50 columns, the second of a bad or short type", reach=["block", "rejected"]),
    H("c08_header", "blocks of up to 9 (thorough: 11) arbitrary bytes from {0..4, 127}, one of them any", params=dict(len=9), thorough=dict(len=11), reach=["block", "rejected"]),
    H("c08_typename", "34 type names, cut at or with any ASCII byte at every position, or with one byte removed or doubled", reach=["block", "rejected"]),
    H("c08_typename_any", "16 prefixes of type names followed by up to 2 (thorough: 3) arbitrary ASCII characters", reach=["block", "rejected"], params=dict(len=2), thorough=dict(len=3)),
    H("c08_packet", "packets of any kind with up to 8 bytes from {0..4, 127} at 8 revisions", reach=["packet", "rejected"]),
    H("c08_packet_len", "strings of up to 2^64-1 bytes in every packet that has strings", reach=["rejected"]),
    H("c08_session", "arbitrary answers of up to 3 bytes from {0..4, 127} behind a prefix, 6 operations", reach=["answer", "error", "waits"]),
 ]),
 "C05": dict(harnesses=[
    H("c05_concat", "8 column types, 1..5 blocks of 0..2 rows", reach=["concat"]),
    H("c05_result", "results of 0..3 blocks of 0..3 rows with news between them, read in 3 ways", reach=["all", "blocks", "rows"]),
    H("c05_odd", "results without blocks, and with blocks of different columns", reach=["read", "error"]),
 ]),
 "C06": dict(harnesses=[
    H("c06_types", "86 column types read as 65 Rust types in 3 ways, 2 rows in one or several blocks", reach=["read"]),
    H("c06_index", "0..3 columns, 0..2 rows, any row and column number, names", reach=["found", "out of range"]),
 ]),
 "C07": dict(harnesses=[
    H("c07_simple", "86 column types as 51 Rust types, 2 rows, two time zones; next, nth, count, size_hint", reach=["read"]),
    H("c07_complex", "the same over 2..4 blocks, some of them empty", reach=["read"]),
    H("c07_empty", "the same without rows", reach=["read"]),
 ]),
 "C24": dict(harnesses=[
    H("c24_known", "fixed bytes of 20 lengths up to 1000", reach=["hash"]),
    H("c24_short", "every byte string of 0..39 bytes", reach=["hash"]),
    H("c24_mid", "every byte string of 40..272 bytes", reach=["hash"]),
    H("c24_long", "every byte string of 24 lengths from 273 to 1000", reach=["hash"]),
 ]),
 "C10": dict(harnesses=[
    H("c10_write", "8 column types, 0..2 rows, every cell", reach=["frames"], replace=[HASH, LZC]),
    H("c10_write_lz4", "18 fixed blocks of up to 5000 rows through the real LZ4 and CityHash", reach=["frames"], max_steps=200000000),
    H("c10_read", "8 column types, 0..2 rows, every cell, in up to 3 frames cut anywhere", reach=["frames"], replace=[HASH, LZD]),
    H("c10_read_lz4", "frames with one match of 3 lengths and 3 distances, every literal", reach=["frames"], replace=[HASH]),
    H("c10_corrupt", "blocks of 0..2 rows in 1 or 2 frames, any change of any one byte, any truncation", reach=["corrupted", "truncated"], replace=[HASH, LZD]),
    H("c10_fields", "any wrong method; sizes wrong by up to 30 or 300 bytes or out of range", reach=["rejected"], replace=[HASH, LZD]),
    H("c10_payload", "payloads of 0..5 bytes from a set of tokens, 6 declared sizes", reach=["rejected"], replace=[HASH]),
    H("c10_session", "6 operations with compression, in one piece or byte by byte", reach=["fetch_all", "insert"], replace=[HASH, LZC, LZD]),
    H("c10_session_corrupt", "an answer with any one byte of a block changed", reach=["error"], replace=[HASH, LZC, LZD]),
 ]),
 "C11": dict(harnesses=[
    H("c11_requests", "14 revisions, 7 kinds of requests, one of user, password, database, setting, query id and statement any ASCII text of 0, 2 or 130 bytes, 6 kinds of settings, compression on and off", reach=["fetch_all", "stream_blocks", "stream", "execute", "insert", "ping", "hello"], replace=[HASH, LZC, LZD]),
    H("c11_settings", "0..3 settings, both formats", reach=["settings"]),
    H("c11_negative", "negative settings", reach=["setting"]),
 ]),
 "C12": dict(harnesses=[
    H("c12_progress", "every revision, one number any or the packet cut anywhere", reach=["packet"]),
    H("c12_profile", "one number any or the packet cut anywhere", reach=["packet"]),
    H("c12_hello", "every revision, one number or ASCII name (0, 1, 2, 127, 130 bytes) any or the packet cut anywhere, 4 time zones", reach=["packet"]),
    H("c12_exception", "every code, one ASCII text (0, 1, 2, 127, 130 bytes) any or the packet cut anywhere", reach=["packet"]),
    H("c12_others", "pong, end of stream, table columns, data, totals, extremes of 0..2 rows", reach=["packet"]),
    H("c12_unknown", "every other packet number", reach=["rejected"]),
 ]),
 "C16": dict(harnesses=[
    H("c16_params", "13 parameters, values near a list of texts: each cut, with any character replaced or appended, or 0..2 arbitrary characters", reach=["value", "rejected"]),
    H("c16_userinfo", "user, password, database: any 1..2 ASCII characters percent-encoded, a two-byte character, any unreserved character; any port", reach=["url"]),
    H("c16_settings", "7 names which are no parameters, values as in c16_userinfo", reach=["setting"]),
    H("c16_many", "up to 16 parameters at once, a parameter given twice", reach=["url"]),
    H("c16_invalid", "16 texts which are no URL of a server", reach=["rejected"]),
    H("c16_any", "14 prefixes followed by up to 2 (thorough: 3) arbitrary ASCII characters", params=dict(len=2), thorough=dict(len=3), reach=["url", "rejected"]),
    H("c16_builder", "17 methods, every number, duration and flag", reach=["options"]),
    H("c16_pool", "pools made of a URL", reach=["connected", "rejected"]),
    H("c16_hosts", "1..3 alternative hosts with and without a port", reach=["hosts"]),
 ]),
 "C17": dict(harnesses=[
    H("c17_read", "precisions 0..9, 26 days from 1900 to 2299, any second and fraction, 4 ways of reading, 2 (thorough: 4) zones", reach=["read"], params=dict(zones=2), thorough=dict(zones=4)),
    H("c17_far", "8 days outside of the years ClickHouse supports", reach=["read"]),
    H("c17_any", "plus and minus the powers of two and their predecessors, 10 precisions", reach=["read", "rejected"]),
    H("c17_datetime", "10 days, any second, 2 (thorough: 4) zones, of the column and of the server", reach=["read"], params=dict(zones=2), thorough=dict(zones=4)),
    H("c17_date", "3072 days from 1970 to 2149", reach=["date"]),
    H("c17_write", "precisions 0..9, the first 16 (thorough: 26) of the days, any second and nanosecond", reach=["written"], params=dict(days=16), thorough=dict(days=26)),
 ]),
 "C18": dict(harnesses=[
    H("c18_eq", "8 (thorough: 30) numbers and all within 128 of them in another scale, 19 x 19 scales", reach=["equal", "different"], params=dict(nums=8), thorough=dict(nums=30)),
    H("c18_print", "30 numbers, 19 scales, 4 ways of printing", reach=["printed"]),
    H("c18_of", "8 integer types, 19 scales, any value within 128 of 0, the ends and the third of the type and 10^18", reach=["made"]),
    H("c18_float", "10 fractions of 8, 13 scales", reach=["float"]),
    H("c18_insert", "5 x 10 types, plain and nullable, any number within 128 of 0, of the ends of what fits and of 64 bits", reach=["inserted", "too large"]),
    H("c18_push", "5 x 10 types, plain and nullable, any number within 128 of 0, of the ends of what fits and of 64 bits", reach=["pushed", "too large"]),
 ]),
 "C19": dict(harnesses=[
    H("c19_values", "58 types, two values each: numbers, strings of 0 or 2 bytes, floats, UUIDs etc. arbitrary, dates and enums concrete", reach=["equal", "different"]),
    H("c19_maps", "40 types of maps (every key type), 0 or 2 entries", reach=["equal", "different"]),
    H("c19_convert", "22 Rust types, any value", reach=["converted"]),
    H("c19_print", "18 kinds of values, instants at the ends of what there is", reach=["printed"]),
 ]),
 "C20": dict(harnesses=[
    H("c20_rows", "3 (thorough: 4) rows of 3 columns, each absent, present or of another type, in two orders, one twice", reach=["pushed", "rejected"], params=dict(rows=3), thorough=dict(rows=4)),
    H("c20_macro", "any values of 3 columns", reach=["pushed"]),
    H("c20_types", "60 x 60 types of columns and values", reach=["same type", "rejected"]),
    H("c20_new", "55 types, two rows", reach=["pushed"]),
 ]),
}
