NOTE = "Every path of the real code, compiled to LLVM IR, is explored for all values of the symbolic inputs within the bounds in spec.py; nothing is claimed outside them. Trusted: rustc/LLVM up to opt-level 1 IR, the executor in engine/ (each run replays explored paths natively and compares), z3, the reference model in harness/. "
P = [
 dict(id="C01", title="Varints and strings are coded exactly and read back unchanged",
  statement="Every length, number and string the client puts on the wire uses the ClickHouse varint and length-prefixed string encodings, and reading them back gives the same value and consumes exactly the bytes of the encoding. A varint that does not fit 64 bits is an error, a truncated one is never taken for a value, and strings kept together in memory never overlap or change one another.",
  over=["inputs"], quant="every u64; every wire byte string up to the bound; strings up to the bound",
  why="The unit tests decode one two-byte varint and encode one number; boundaries at every 7th bit, ten-byte varints and truncation are not tested.",
  files=["src/binary/read_ex.rs", "src/binary/uvarint.rs", "src/binary/encoder.rs", "src/types/column/string_pool.rs"],
  mech=[("read_uvarint", "src/binary/read_ex.rs"), ("put_uvarint", "src/binary/uvarint.rs"), ("StringPool", "src/types/column/string_pool.rs")],
  note=NOTE + "Bounds: varints complete; strings of up to 5 and of 130 bytes, wire inputs of up to 13 bytes."),
 dict(id="C02", title="An INSERT sends exactly the values the user put into the block",
  statement="For each supported Rust column type (integers, floats, bool, strings and bytes, dates, date-times, decimals, enums, IP addresses, UUIDs, options, vectors, maps), the block sent for an INSERT holds, for every row, exactly the user's value in the native encoding of the table's column type, under the same column names and in the same order. This includes the conversions the driver makes to the table's type: FixedString padding, DateTime and DateTime64, Decimal rescaling of representable values, SimpleAggregateFunction, text to IP addresses, and LowCardinality.",
  over=["inputs"], quant="every value of each column type, rows and lengths up to the bound",
  why="The round trips in the test suite need a live server and use a handful of values per type.",
  files=["src/types/column/*.rs", "src/types/block/mod.rs", "src/types/marshal.rs", "src/binary/encoder.rs"],
  mech=[("ColumnData::save, cast_to", "src/types/column"), ("Block::cast_to, send_data", "src/types/block/mod.rs")],
  note=NOTE + "Bounds: 0..2 rows (262 for one LowCardinality case), strings of 0..3 bytes, arrays and maps of 0..2 items; dates and instants from boundary lists."),
 dict(id="C03", title="Reading a native block yields exactly the cells the server sent",
  statement="For every well-formed native-format block of the supported column types (including aliases, Nullable, Array, Map, LowCardinality, SimpleAggregateFunction and their nesting), the block the user gets has the server's column names, types and row count, and every cell read from it equals the value the server encoded. Reading a block consumes exactly its bytes.",
  over=["inputs"], quant="every cell value, every listed column type, rows and lengths up to the bound",
  why="Reading is tested on a few recorded blocks and against a live server only.",
  files=["src/types/block/mod.rs", "src/types/column/*.rs", "src/types/unmarshal.rs"],
  mech=[("Block::load", "src/types/block/mod.rs"), ("ColumnData::load_data", "src/types/column/factory.rs"), ("ColumnData::at", "src/types/column")],
  note=NOTE + "Bounds: 105 type names, 0..2 rows (3 for LowCardinality), strings of 0..2 bytes, arrays and maps of 0..2 items."),
 dict(id="C04", title="Splitting a large INSERT into chunks keeps every row intact",
  statement="When an insert is split into several blocks, the blocks together hold every row exactly once, in order, and each cell of each row is encoded exactly as if the block had been sent whole, whatever the column type and wherever the split falls.",
  over=["inputs", "configurations"], quant="every column type of C02, every chunk size up to the row count, every value",
  why="Chunking starts above a million rows; one unit test chunks a numeric column and looks at row counts only.",
  files=["src/types/block/chunk_iterator.rs", "src/types/column/chunk.rs", "src/types/column/*.rs"],
  mech=[("ChunkIterator", "src/types/block/chunk_iterator.rs"), ("ChunkColumnData", "src/types/column/chunk.rs"), ("ColumnData::save(start, end)", "src/types/column")],
  note=NOTE + "Bounds: 4 rows in chunks of 1..4, 8 patterns of lengths and nulls."),
 dict(id="C09", title="Results do not depend on how the network cuts the byte streams",
  statement="However the server's bytes are cut into reads, and however the socket cuts or delays the client's writes, every operation (query by fetch_all, stream or stream_blocks, execute, insert, ping) gives the same result, sends the same bytes, neither hangs nor fails, and leaves the connection fit for the next operation.",
  over=["inputs", "schedules"], quant="every pair of cut positions of a conversation, in either direction; byte-by-byte delivery; every cell value",
  why="Over loopback a reply arrives in one piece; a cut inside a varint, a block or a packet header hardly ever occurs in a test.",
  files=["src/io/transport.rs", "src/io/read_to_end.rs", "src/io/stream.rs", "src/binary/read_ex.rs", "src/types/block/mod.rs"],
  mech=[("ClickhouseTransport::poll_next, send, wr_flush", "src/io/transport.rs"), ("read_to_end", "src/io/read_to_end.rs")],
  note=NOTE + "Bounds: conversations of hello, ping, one operation and a following fetch_all with 3 rows; two cuts."),
 dict(id="C13", title="Server errors and broken connections surface, exactly once, as errors",
  statement="A server exception, at whatever step of whatever operation it comes and whether or not the server closes the connection behind it, reaches the caller as a server error with its code, name, message and stack trace unchanged; rows delivered before it stay delivered. A stream that ends or breaks before the answer is complete is an error, never a shorter result, a panic or a hang. Afterwards the same handle can be used again: it reconnects (with the connection check) or reports an error.",
  over=["faults", "inputs"], quant="every packet position of an exception, every offset of an end of stream, 6 operations, every error code and short text",
  why="No test makes a server fail in the middle of an answer.",
  files=["src/io/transport.rs", "src/lib.rs", "src/types/query_result/stream_blocks.rs", "src/binary/parser.rs", "src/pool/mod.rs"],
  mech=[("parse_exception", "src/binary/parser.rs"), ("BlockStream::poll_next", "src/types/query_result/stream_blocks.rs"), ("execute_, insert_, hello, ping", "src/lib.rs")],
  note=NOTE + "Bounds: answers of 3 rows in up to 6 packets; error texts of 0..2 bytes."),
 dict(id="C14", title="The pool never exceeds pool_max, loses no connection and strands no waiter",
  statement="A pool never has more than pool_max connections open or handles in use, keeps at most pool_min idle, and gets every connection back, or forgets it, whether its handle is dropped, its query failed, its stream was left early, the connection broke or the waiting task was cancelled. A task that waits for a handle gets one as soon as it can, or an error: it is never left waiting with nobody to wake it. When all handles are back, pool_max handles can be taken again and work.",
  over=["schedules", "histories", "faults"], quant="every interleaving of polls, connection outcomes and a cancellation of 3 tasks on 1 or 2 connections; every history of 4 operations on 2 handles",
  why="The pool's tests need a live server and never fail, cancel or interleave in a chosen order.",
  files=["src/pool/mod.rs", "src/pool/futures/get_handle.rs", "src/io/transport.rs", "src/retry_guard.rs"],
  mech=[("Pool::poll, handle_futures, take_conn, return_conn", "src/pool/mod.rs"), ("TransportStatus::drop", "src/io/transport.rs")],
  note=NOTE + "Interleavings at await points on one executor thread; races between threads inside a poll are outside. Bounds as in the quantifier."),
 dict(id="C15", title="A connection is never reused with leftovers of an earlier operation",
  statement="Whatever ended an earlier operation early (a stream dropped after any number of items or never polled, a timeout, a server error, an unreadable packet), the next operation, on the same handle or on another handle of the pool, with or without ping_before_query, gets exactly its own answer or an error, never rows or errors of the earlier one, and the client never sends a request while the server is still busy with the earlier one.",
  over=["histories", "faults"], quant="5 ways to end early at every packet, 6 next operations, both ping settings, every cell value",
  why="Needs a server that stalls or fails at a chosen point, then a second operation.",
  files=["src/types/query_result/stream_blocks.rs", "src/io/transport.rs", "src/lib.rs", "src/pool/mod.rs"],
  mech=[("BlockStream::drop", "src/types/query_result/stream_blocks.rs"), ("ClickhouseTransport::clear", "src/io/transport.rs"), ("check_connection, wrap_stream", "src/lib.rs")],
  note=NOTE + "Bounds: answers of 3 rows in 6 packets, two operations."),
 dict(id="C22", title="Timeouts, retries and host rotation follow the options",
  statement="When the server falls silent at any point, each operation ends with a timeout error after its own configured timeout (connection, ping, query, execute, insert). A broken connection is replaced before a query, past all stale idle connections; refused connections are retried send_retries times with retry_timeout pauses, then reported as an error after which the handle still works. Connections go to the configured hosts in turn.",
  over=["faults", "configurations"], quant="silence at every packet of the answer; 0..3 retries with 0..4 refusals; 1..4 stale connections; 1..3 hosts with every pattern of refusals",
  why="Needs a server that falls silent or refuses on demand, and a clock under control.",
  files=["src/lib.rs", "src/retry_guard.rs", "src/pool/mod.rs", "src/connecting_stream.rs"],
  mech=[("with_timeout", "src/lib.rs"), ("retry_guard", "src/retry_guard.rs"), ("Pool::get_addr", "src/pool/mod.rs")],
  note=NOTE + "Time is abstract: a timer fires only when nothing else can happen, the shortest first."),
 dict(id="C08", title="No bytes from a server make the client panic, overread or exhaust memory",
  statement="Whatever bytes arrive from a server, as a block or a packet at any revision, in answer to any operation, decoding them ends in a value whose every cell can be read, in an error, or in waiting for more bytes: never in a panic, an out-of-bounds access, an invalid value, an endless loop, or memory reserved for sizes the server only claims (row and column counts, string lengths, array offsets, dictionary sizes, frame sizes). Malformed type names, offsets and keys are errors.",
  over=["inputs"], quant="every cut and every one-byte change of the listed type names; arbitrary bytes, offsets, keys and declared sizes within the bounds",
  why="Tests decode well-formed blocks; a damaged stream or a hostile server is never simulated.",
  files=["src/types/column/*.rs", "src/types/block/*.rs", "src/binary/read_ex.rs", "src/binary/parser.rs"],
  mech=[("load_data, parse_*", "src/types/column/factory.rs"), ("ReadEx", "src/binary/read_ex.rs"), ("Parser::parse_packet", "src/binary/parser.rs"), ("load of each column", "src/types/column")],
  note=NOTE + "Bounds in spec.py. Outside: stack depth for type names nested thousands of levels deep, symbolic bytes in time zone names."),
 dict(id="C05", title="A query's result holds every row of every block, once and in order",
  statement="However the server spreads a result over data blocks (empty ones, several, with progress, profile info or other packets between them), fetch_all, stream_blocks and stream give every row of every block exactly once and in the server's order, with the server's columns; a cell of the combined block equals the cell of the block it came from. A result without blocks is an empty result, and blocks that do not belong together are an error, never a panic.",
  over=["inputs"], quant="every split of a result into up to 5 blocks of 0..2 rows (3 of 0..3 in a conversation), every cell value",
  why="The tests read results of one or two blocks from a live server; block borders at every place are not tested.",
  files=["src/types/query_result/mod.rs", "src/types/query_result/stream_blocks.rs", "src/types/column/concat.rs", "src/types/block/mod.rs"],
  mech=[("QueryResult::fetch_all, stream", "src/types/query_result/mod.rs"), ("ConcatColumnData", "src/types/column/concat.rs"), ("Block::concat", "src/types/block/mod.rs")],
  note=NOTE + "Bounds: 8 column types; totals and extremes are data for the driver."),
 dict(id="C06", title="A typed cell is the server's value, or an error when the type does not fit",
  statement="Reading a cell of a block or row as a Rust type gives exactly the value the server sent whenever the Rust type is the one for the column's type, and an error otherwise: never a panic, a truncated or reinterpreted value, or another cell. Columns are found by their exact name or number, rows by their number; what is not there is an error. This holds for plain, nullable, array, map and low cardinality columns, in single and combined blocks.",
  over=["inputs"], quant="86 column types as 65 Rust types, every cell value; every row and column number of small blocks",
  why="Only a few of the thousands of pairs of column type and Rust type are tested, all of them on fitting ones.",
  files=["src/types/from_sql.rs", "src/types/value_ref.rs", "src/types/block/mod.rs", "src/types/block/row.rs"],
  mech=[("FromSql", "src/types/from_sql.rs"), ("Block::get", "src/types/block/mod.rs"), ("Row::get, name, sql_type", "src/types/block/row.rs")],
  note=NOTE + "Bounds: 2 rows; strings of 0..2 bytes, at most two of them not ASCII; dates and instants from lists; negative DateTime64 are under C17."),
 dict(id="C07", title="Iterating over a typed column gives the same values as reading its cells",
  statement="Column::iter of a Rust type that fits the column yields exactly one value per row, in order, each equal to the server's value, for single and combined blocks and wherever the block borders lie; nth, count and size_hint agree with next. An unfitting type is an error when the iterator is made: the iterator never reads memory as another type, never runs over the end and never panics.",
  over=["inputs"], quant="86 column types as 51 Rust types, every cell value, 4 ways to cut into blocks, two time zones",
  why="The iterators use raw pointers and unsafe code; the tests iterate over a few fitting columns.",
  files=["src/types/column/iter/mod.rs", "src/types/column/column_data.rs", "src/types/column/*.rs"],
  mech=[("Iterable", "src/types/column/iter/mod.rs"), ("get_internal, get_internals", "src/types/column")],
  note=NOTE + "Bounds: 0..2 rows; dates and instants from lists; options and arrays of dates are refused by the driver, which is accepted."),
 dict(id="C10", title="Compression never changes what is read or stored, and damage is detected",
  statement="With compression on, the blocks a query returns and the rows a server stores are exactly those without compression, however a block is divided into frames. Every frame the driver writes has the checksum, method and sizes of the ClickHouse format. A frame in which any byte was changed, which is cut short, or whose sizes or content do not fit is reported as an error: never as data, a panic, an overread or an unjustified allocation.",
  over=["inputs", "faults"], quant="blocks of 0..2 rows of 8 types with every cell, cut into up to 3 frames anywhere; every change of any one byte; every truncation; wrong sizes and methods",
  why="The tests read two fixed compressed blocks; corruption, frame borders and sizes at the limits are not tested.",
  files=["src/types/block/compressed.rs", "src/types/block/mod.rs", "src/binary/encoder.rs"],
  mech=[("CompressedReader, decompress_buffer", "src/types/block/compressed.rs"), ("Block::write", "src/types/block/mod.rs")],
  note=NOTE + "By decomposition: CityHash128 is decided by C24 and replaced by a model hash here; LZ4 by a plain reference (de)compressor except in c10_write_lz4, c10_read_lz4 and c10_payload."),
 dict(id="C11", title="Every request carries exactly what the user set",
  statement="Hello, query, insert and ping packets are what a server of the negotiated revision expects: database, user, password, statement, query id, settings (names, values, importance, each once, in the format of the revision) and the compression flag arrive unchanged, for each of the ways to run a query, followed by exactly the empty block that ends the external tables or the data.",
  over=["inputs"], quant="14 revisions on both sides of every threshold, 7 operations, one text any ASCII string of the listed lengths, setting values of each type",
  why="Tests look at one hello and one query packet; the formats of other revisions and the settings are never compared.",
  files=["src/types/cmd.rs", "src/types/options.rs", "src/types/query.rs", "src/client_info.rs", "src/lib.rs"],
  mech=[("Cmd::get_packed_command, encode_query, serialize_settings", "src/types/cmd.rs"), ("client_info::write", "src/client_info.rs")],
  note=NOTE + "Bounds in spec.py. Known finding: negative integer settings are sent as huge unsigned numbers."),
 dict(id="C12", title="Every packet is understood as the server sent it, at every revision",
  statement="Hello, exception, progress, profile info, pong, end of stream, table columns and data packets give exactly the fields the server wrote, taking the fields which the negotiated revision has and no others, and consume exactly their bytes. A packet that is not complete is never taken for one, and an unknown packet is an error.",
  over=["inputs"], quant="every revision; one field any number or ASCII text of the listed lengths; every truncation",
  why="Tests parse one packet per kind, mostly of one revision.",
  files=["src/binary/parser.rs", "src/types/mod.rs", "src/io/transport.rs"],
  mech=[("Parser::parse_packet", "src/binary/parser.rs")],
  note=NOTE + "Bounds in spec.py. Nested exceptions are not read by the driver, the connection is given up instead."),
 dict(id="C24", title="The checksum of compressed frames is CityHash128 (version 1.0.2)",
  statement="city_hash_128 of a byte string is the CityHash v1.0.2 128-bit hash that ClickHouse uses, for strings of every length and content; it reads no byte outside of the string.",
  over=["inputs"], quant="every content of every length 0..272 and of 24 lengths up to 1000",
  why="The tests compare the hash of two strings.",
  files=["clickhouse-rs-cityhash-sys/src/cc/city.cc", "clickhouse-rs-cityhash-sys/src/lib.rs"],
  mech=[("CityHash128, CityHash128WithSeed, CityMurmur", "clickhouse-rs-cityhash-sys/src/cc/city.cc"), ("city_hash_128", "clickhouse-rs-cityhash-sys/src/lib.rs")],
  note=NOTE + "Bounds: the lengths listed."),
 dict(id="C16", title="Connection options are exactly what the URL or the builder says",
  statement="Address (port 9000 when none is given), user, password, database, every documented parameter, alternative hosts and other parameters (which become settings) are exactly what a connection URL says, after percent-decoding; what is not mentioned has its documented default, and the last of two equal parameters counts. A URL or a value that is not valid is an error: never a panic, a default in its place, or a connection. Each builder method sets its own option and no other.",
  over=["inputs"], quant="13 parameters with values near valid ones, any one or two characters in each part, any port, prefixes of URLs followed by any 2 characters",
  why="The tests parse a few URLs; characters that need encoding, values at the limits and malformed values are sampled at best.",
  files=["src/types/options.rs", "src/connecting_stream.rs", "src/pool/mod.rs"],
  mech=[("from_url, set_params, parse_duration, parse_hosts", "src/types/options.rs"), ("ConnectingStream::new", "src/connecting_stream.rs"), ("Pool::new", "src/pool/mod.rs")],
  note=NOTE + "Bounds in spec.py. Outside: TLS options (feature not built), keepalive on the socket (not implemented by the driver), host names that need DNS."),
 dict(id="C17", title="Dates and times are the same instants on both sides",
  statement="A Date, DateTime or DateTime64 value that the server sends is read as exactly the day or instant it stands for, in the time zone of the column (or of the server when the column names none), before 1970 as well as after, at every precision and however it is read (cell, typed iterator, Value). What no value of the Rust type can hold is an error, never a panic or another instant. A day or instant that is inserted arrives as itself, less only what the precision of the column leaves out.",
  over=["inputs"], quant="precisions 0..9, days from 1900 to 2299 and far outside, any second of the day and any fraction, several time zones, 4 ways of reading, writing through a cast",
  why="The tests convert single instants after 1970; signs, fractions, precisions and zones only matter in combination.",
  files=["src/types/date_converter.rs", "src/types/column/datetime64.rs", "src/types/column/chrono_datetime.rs", "src/types/column/date.rs", "src/types/column/iter/mod.rs", "src/types/from_sql.rs", "src/types/value.rs"],
  mech=[("split_ticks, to_datetime, from_datetime", "src/types/column/datetime64.rs"), ("UnixTimestamp, StatBuffer for dates", "src/types/date_converter.rs"), ("DateIterator, DateTimeIterator", "src/types/column/iter/mod.rs"), ("ChronoDateTimeAdapter", "src/types/column/chrono_datetime.rs")],
  note=NOTE + "Bounds in spec.py. Outside: instants in other days than the listed ones, the other time zones of chrono-tz."),
 dict(id="C18", title="Decimals keep their value",
  statement="A decimal stands for exactly unscaled / 10^scale: it is made from an integer (or a float that it holds exactly), compared with decimals of other scales, hashed, converted back and printed as that number, negative ones and those without a fraction included. A decimal that is pushed or inserted into a Decimal(P, S) column, nullable or not, whatever its own scale, arrives as the same number (digits beyond S cut off); one that the column cannot hold is an error before anything is sent, never another number or a panic.",
  over=["inputs"], quant="scales 0..18, numbers within 128 of 0, of every limit (32 and 64 bits, 10^18) and of what just fits the column; 5 x 10 column types",
  why="Tests compare and print a few decimals; signs, scale pairs and the limits of 32 and 64 bits only matter in combination.",
  files=["src/types/decimal.rs", "src/types/column/decimal.rs", "src/types/column/mod.rs", "src/types/block/builder.rs"],
  mech=[("Decimal::of, set_scale, PartialEq, Hash, Display", "src/types/decimal.rs"), ("DecimalColumnData::push, DecimalAdapter, NullableDecimalAdapter", "src/types/column/decimal.rs"), ("Column::cast_to, check_decimals", "src/types/column/mod.rs")],
  note=NOTE + "Bounds in spec.py: one symbolic byte around each of the listed numbers (wide multiplications of more are out of the solver's reach)."),
 dict(id="C19", title="Values are equal, hashed, converted and printed as what they are",
  statement="A cell becomes a Value and back without changing; two values are equal exactly when they are the same value of the same type (floats as IEEE 754 says), equality of cells agrees with that of values, and equal ones have the same hash - for every type that a cell can have, so that any of them can be a key of a map. A Rust value converted to Value and back is the same value, of the expected column type. Every value of every type can be printed, without a panic.",
  over=["inputs"], quant="58 column types and 39 types of maps, two arbitrary values each; 22 Rust types; 18 kinds of printed values",
  why="Tests compare values of a few types; equality, hash and conversion are written per variant, twice (Value and ValueRef).",
  files=["src/types/value.rs", "src/types/value_ref.rs", "src/types/decimal.rs", "src/types/column/datetime64.rs"],
  mech=[("PartialEq, Hash, Display, From for Value", "src/types/value.rs"), ("PartialEq, Hash, Display, From for ValueRef", "src/types/value_ref.rs")],
  note=NOTE + "Bounds in spec.py: strings of 0 or 2 bytes, arrays and maps of 0 or 2 entries, map keys, dates and decimals from lists."),
 dict(id="C20", title="A row is pushed whole or not at all",
  statement="Block::push appends a row when its names are exactly the columns of the block (in any order) and each value fits its column: the cells read back are the pushed values and the others are unchanged. A row with a missing, added, repeated or mistyped value is an error and leaves the block as it was, so that columns always have the same length. The first row of an empty block makes columns of its types. Pushing into a block never changes clones of it, and what was pushed can be inserted. The row! macro is the same as its list of pairs.",
  over=["inputs"], quant="3 rows of up to 3 columns in every combination of absent, present and mistyped; 60 x 60 pairs of column and value types; cell contents arbitrary",
  why="Tests push a few valid rows; what a rejected row leaves behind depends on which column fails and on clones that share data.",
  files=["src/types/block/mod.rs", "src/types/block/builder.rs", "src/types/column/mod.rs", "src/types/column/nullable.rs", "src/types/column/array.rs", "src/types/column/map.rs", "src/types/column/low_cardinality.rs"],
  mech=[("Block::push", "src/types/block/mod.rs"), ("RowBuilder, check_row", "src/types/block/builder.rs"), ("ColumnData::push, clone_instance", "src/types/column/column_data.rs")],
  note=NOTE + "Bounds in spec.py. Outside: rows pushed to combined (concat) blocks."),
]
NA = []

P.sort(key=lambda p: p["id"])
