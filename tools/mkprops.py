#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the lines stay valid JSON)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TESTS = "The seven existing tests only exercise pure string formatting, parsing and query-text building; none opens a connection"

p("C01", "A reply is only ever given to the command it answers",
  "Whatever a connection returns for a command is that same command's own reply as the server sent it, even when earlier result sets were abandoned part-way, earlier calls were dropped before completing, or earlier exchanges failed or timed out. After an interruption that leaves the position in the server's reply stream unknown, later commands on that connection fail with an error instead of returning data that belongs to another command. Replies that the caller abandoned at a known position are skipped silently and completely, including every further result set the server announced.",
  ["histories", "crash_points", "fault_sequences", "schedules"],
  "every sequence of commands on a connection, every way of consuming or abandoning each result, every point at which a call can be dropped or its I/O can fail",
  TESTS + ", so no sequence of two commands is ever run, let alone one interrupted between two packets.",
  ["src/connection/mod.rs", "src/connection/io.rs", "src/connection/query.rs", "src/connection/result_set.rs", "src/connection/prepared_statement.rs"],
  [("drain of a pending result before each command", "Connection::cleanup, Connection::write_command, Connection::execute_command"), ("packet sequence number check", "Connection::read_packet_to_buf"), ("single outstanding borrow of the connection", "ResultSet<'a>, PreparedStatement<'a>")],
  [("pending_result", "an unread result set is still in the stream", "src/connection/mod.rs"), ("seq_id", "next expected packet sequence number", "src/connection/mod.rs")],
  ["Connection::query/execute_query/prepare_statement/cleanup results", "bytes the simulated server receives"])

p("C02", "Packets of any size cross the wire byte-exact however the stream fragments",
  "Every command and every reply is transferred byte for byte whatever its length, including empty packets and payloads around and beyond multiples of 16 MiB - 1, however the transport splits, delays or coalesces reads and writes. What the server receives is a correctly framed and numbered packet sequence, and a reply packet out of sequence is reported as an error and never delivered as data.",
  ["inputs", "schedules", "fault_sequences"],
  "every payload length, every fragmentation of both byte streams into partial reads and writes with arbitrary pauses",
  TESTS + "; short reads, short writes and multi-frame payloads are never produced.",
  ["src/connection/io.rs", "src/connection/mod.rs", "src/connection/parse_buf.rs"],
  [("frame splitting and joining", "Connection::write_packet, read_chunk_to_buf, read_packet_to_buf"), ("sequence numbering", "Connection::seq_id")],
  [("seq_id", "per-command packet counter", "src/connection/mod.rs")],
  ["server-side frame decoder", "values returned to the caller"])

p("C03", "Bound parameters reach the server unchanged",
  "Executing a prepared statement delivers to the server exactly the values the caller bound, in order, with their types, signedness and nulls, whatever their number and size, including values too large for one packet that are streamed ahead of the execution. A call with the wrong number of values is refused without sending anything and leaves the statement usable. If streaming is interrupted, the statement is never executed with partial or stale data.",
  ["inputs", "crash_points", "fault_sequences"],
  "every vector of values, every size up to several frames, every interruption point inside the multi-packet exchange",
  TESTS + "; binary parameter encoding and long-data streaming have no test at all.",
  ["src/connection/prepared_statement.rs", "src/connection/packets/stmt_execute_request.rs", "src/connection/packets/stmt_send_long_data.rs", "src/connection/io.rs", "src/types/value/bin.rs", "src/connection/types/null_bitmap.rs"],
  [("execute request with null bitmap and types", "StmtExecuteRequest"), ("long data streaming", "Connection::send_long_data"), ("count check", "PreparedStatement::query/execute")],
  None, ["parameters decoded by the simulated server"])

p("C04", "Values read from result sets equal what the server sent",
  "Each value of each row read through the text or the binary protocol equals the value the server encoded for that column, with its type, signedness, null-ness and full precision, for all column types, column counts and value sizes and however the row's bytes arrive. A value the library cannot represent or parse is reported as an error, never returned as a different value and never by crashing.",
  ["inputs", "schedules"],
  "every column type and value in both protocols, any number of columns and rows, any fragmentation of the reply stream",
  TESTS + "; only pure text parsing of single values is tested, not rows read from a stream, the binary format, nulls or signedness.",
  ["src/types/value/text.rs", "src/types/value/bin.rs", "src/connection/types/protocol.rs", "src/connection/types/null_bitmap.rs", "src/connection/parse_buf.rs"],
  [("text row decoding", "TextProtocol, Value::deserialize_text"), ("binary row decoding", "BinaryProtocol, Value::deserialize_bin, NullBitmap")],
  None, ["ResultSet::next/collect/one"])

p("C05", "A result set is delivered complete and in order, or it ends in an error",
  "Reading a result set to its end yields exactly the rows the server sent, in order, each once, and the end is reported only if the server completed the result set. If the server aborts it with an error, or the connection breaks, stalls or goes out of step part-way, the caller gets an error (the server's own error if it sent one) instead of a silently shortened or padded result. This holds for servers with either end-of-result convention and for every way of consuming the rows.",
  ["histories", "fault_sequences", "schedules", "configurations"],
  "every result set, every position of a server error, disconnect, stall or corruption of framing in it, both end-of-result conventions, all consumption methods",
  TESTS + "; no result set is ever read.",
  ["src/connection/result_set.rs", "src/connection/query.rs", "src/connection/packets/ok.rs", "src/connection/packets/err.rs"],
  [("row loop and end detection", "ResultSet::next/collect/one/finish"), ("column definitions", "Connection::read_column_defs"), ("EOF convention", "CapabilityFlags::DEPRECATE_EOF")],
  [("pending_result", "rows left in the stream", "src/connection/mod.rs"), ("ok_packet", "end seen", "src/connection/result_set.rs")],
  ["ResultSet API"])

p("C06", "Completion information, server errors and column metadata are reported exactly",
  "When a statement or result set completes, the affected-row count, insert id, warning count, status and message reported are those the server sent for it, and a refused statement yields the server's error code, state and message. Column names, tables, types and flags of a result set are reported exactly for names of any legal length.",
  ["inputs", "histories", "configurations"],
  "every completion or error packet and column definition the protocol allows, for direct queries, prepared statements and finished result sets, under both end-of-result conventions",
  TESTS + "; no completion, error or column packet is ever decoded.",
  ["src/connection/packets/ok.rs", "src/connection/packets/err.rs", "src/connection/packets/column_def.rs", "src/connection/types/column.rs", "src/connection/io.rs"],
  [("OK/EOF decoding", "OkPacket::read_ok/read_eof/read_old_eof"), ("error decoding", "ErrPacket"), ("column decoding", "ColumnDef, Column")],
  None, ["OkPacket, Error::Server, ResultSet::columns"])

p("C07", "A stalled peer cannot hang a call, and a slow one is not cut off",
  "If the peer or the network stops making progress at any point of a connect, command, read or write, the pending call returns a timeout error within the configured timeout of the stall. A peer that keeps every single wait for progress below the timeout is never timed out, however long a packet or the whole exchange takes. Timeouts do not fire for waits whose bytes arrived in time, even if a busy executor polls the call late, and do not delay calls that can complete.",
  ["schedules", "fault_sequences", "configurations"],
  "every stall point in both directions, every stall or delay length relative to the timeout, every phase of every operation",
  TESTS + "; no clock is involved in any test.",
  ["src/connection/timeout.rs", "src/connection/io.rs", "src/connection/init.rs", "src/connection/options.rs"],
  [("per-wait timer", "Timeout around every read and write"), ("replaceable clock", "ConnectionOptions::timeout/sleep, ConnectionData::sleep")],
  None, ["simulated time at which calls return"])

p("C08", "Connecting succeeds exactly when the server accepts the login",
  "Connecting returns a connection if and only if the server completed the login with success for the configured user, password and database, with every authentication method the client supports, whether offered first or switched to. Any refusal at any stage of the handshake is returned as that server error, and the established connection reports the server's id, version, vendor, agreed capabilities and packet limit.",
  ["configurations", "histories", "fault_sequences"],
  "all combinations of offered, pinned and account authentication methods, cached and uncached credentials, secure and insecure transports, empty and long passwords, and server refusals or disconnects at every step",
  TESTS + "; the handshake is never executed.",
  ["src/connection/init.rs", "src/connection/auth.rs", "src/connection/packets/handshake.rs", "src/connection/packets/handshake_response.rs", "src/connection/packets/auth_switch_request.rs", "src/connection/types/auth_plugin.rs", "src/utils/scramble.rs", "src/utils/crypt.rs"],
  [("handshake", "Connection::connect/handle_handshake/do_handshake_response"), ("authentication state machine", "Connection::continue_auth/perform_auth_switch"), ("scrambles and RSA", "scramble_native, scramble_sha256, PublicKey")],
  [("auth_switched", "one switch already happened", "src/connection/data.rs"), ("nonce", "challenge the next answer must use", "src/connection/data.rs")],
  ["result of Connection::connect, Connection::data, bytes the server receives"])

p("C09", "A server cannot talk the client into exposing its password",
  "Whatever messages a server sends during login, the password never appears on an insecure transport in clear or in a form computable from the messages without a key, unless the user explicitly allowed cleartext passwords. If the user pinned an authentication method, the client answers no other method's challenge. Every challenge answer is computed from the most recent challenge of that same login. A password encrypted for the server is padded with fresh randomness, and if the user configured the server's key no other key is used.",
  ["histories", "configurations", "fault_sequences"],
  "every sequence of server messages during login (requests to switch method, repeated switches, forged or malformed challenges, unsolicited continuation packets), every client configuration",
  TESTS + "; no adversarial server exists in the tests.",
  ["src/connection/auth.rs", "src/connection/types/auth_plugin.rs", "src/connection/init.rs", "src/utils/crypt.rs", "src/utils/scramble.rs"],
  [("plugin pinning and cleartext refusal", "AuthPlugin::gen_data"), ("single switch", "ConnectionData::auth_switched"), ("secure transport marker", "Stream::SECURE"), ("RSA-OAEP", "PublicKey::encrypt_padded")],
  [("auth_switched", "one switch already happened", "src/connection/data.rs")],
  ["all bytes the client writes during login"])

p("C10", "No bytes from the server can crash the client or make it spin",
  "For any byte sequence sent by the peer, at any stage and however it is split or cut off, every call returns normally with a value or an error: it does not panic, abort, allocate without bound or loop without consuming input.",
  ["inputs", "fault_sequences", "crash_points"],
  "every corruption, truncation, substitution or injection of bytes in any server message of any exchange",
  TESTS + "; no malformed input other than value literals is tried.",
  ["src/connection/init.rs", "src/connection/auth.rs", "src/connection/parse_buf.rs", "src/connection/result_set.rs", "src/connection/query.rs", "src/connection/packets", "src/types/value/text.rs", "src/types/value/bin.rs", "src/utils/crypt.rs"],
  [("checked parsing", "ParseBuf checked_* functions"), ("first-byte dispatch", "ResultSet::read, Connection::decode_response, continue_auth")],
  None, ["process state of the client (panic, abort, memory, steps)"])

p("C11", "Everything sent is flushed before the client waits for an answer",
  "Over a transport that buffers written bytes until it is flushed, every command and login step still reaches the server before the client starts to wait for the reply, so no exchange stalls because of unsent data. A transport's failure to flush is reported as an error of the command being sent.",
  ["schedules", "configurations", "fault_sequences"],
  "every operation over every buffering behaviour of the user-supplied transport",
  TESTS + "; the exchangeable transport, the crate's headline feature, is never exercised.",
  ["src/connection/io.rs", "src/connection/mod.rs"],
  [("packet writer", "Connection::write_packet"), ("user-supplied transport", "Stream, StreamRequirements")],
  None, ["bytes visible to the server before the client's first read"])

p("C12", "The pool never exceeds its bound and never shares an item",
  "At every moment at most the configured number of pool items exist, idle, in use or being created together, and each item is held by at most one user. An item that is returned, also by a user that panics, becomes available again and is not lost or duplicated.",
  ["schedules", "histories"],
  "every interleaving of threads and tasks that take, return, cancel and fail, at the granularity of single atomic operations of the pool",
  TESTS + "; the pool has no test, and no test runs two threads.",
  ["src/pool/async_pool.rs", "src/pool/pool_item.rs", "src/pool/sync_pool.rs"],
  [("item counter", "AsyncPool::items compare_exchange"), ("idle queue", "AsyncPool::pool"), ("return on drop", "PoolItem::drop")],
  [("items", "number of items created", "src/pool/async_pool.rs"), ("pool", "idle items", "src/pool/async_pool.rs")],
  ["AsyncPoolTrait::get, drop of PoolItem, AsyncPoolContent::new calls"],
  "yield points at the pool's atomic operations (cfg mysql_connector_sim)")

p("C13", "Every pool request is eventually served",
  "A request waiting for a pool item completes once an item is returned or capacity becomes free, provided users keep returning items. Requests that are cancelled and creations that fail or are cancelled never reduce the pool's capacity and never swallow the wake-up another waiter needs; a failed creation is reported to the request that made it.",
  ["schedules", "crash_points", "fault_sequences"],
  "every interleaving of waiters, returns, cancellations and creation failures across threads and tasks",
  TESTS + "; no test waits for a pool item.",
  ["src/pool/async_pool.rs", "src/pool/pool_item.rs"],
  [("waiter registration", "PoolTake::poll"), ("return path", "AsyncPool::put"), ("item counter", "AsyncPool::items")],
  [("wakers", "waiting requests", "src/pool/async_pool.rs"), ("items", "capacity in use", "src/pool/async_pool.rs")],
  ["completion of AsyncPoolTrait::get futures"],
  "yield points at the pool's atomic operations (cfg mysql_connector_sim)")

p("C14", "The pool hands out only connections that work as new",
  "A connection taken from the pool behaves towards its user as a freshly opened one would: no leftovers of a previous user's results, statements' replies or interrupted exchanges are visible. A connection that was broken or abandoned in the middle of an exchange is not handed out again, so once the server is reachable again pool users succeed.",
  ["histories", "crash_points", "fault_sequences", "schedules"],
  "every way in which a pool user can finish, abandon, cancel or lose a connection, followed by any other users",
  TESTS + "; no connection or pool is used in tests.",
  ["src/pool/async_pool.rs", "src/pool/mod.rs", "src/connection/mod.rs", "src/connection/result_set.rs"],
  [("return to pool", "PoolItem::drop, AsyncPool::put"), ("drain before command", "Connection::cleanup")],
  [("pending_result", "unread result", "src/connection/mod.rs")],
  ["operations on connections obtained from AsyncPool"])

p("C15", "Concurrent connections never see each other's bytes",
  "Connections of one process, used concurrently from any tasks in any interleaving, with any of their calls cancelled or failing at any moment, do not influence each other: every byte a server receives on a connection was put there by a command of that connection, and every result comes from that connection's server. Reused internal buffers never carry content from one packet, call or connection into another.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of several connections' operations, with cancellations and failures that hand buffers back at arbitrary moments",
  TESTS + "; nothing runs concurrently.",
  ["src/connection/mod.rs", "src/connection/io.rs", "src/pool/sync_pool.rs", "src/pool/pool_item.rs"],
  [("shared buffer pool", "BUFFER_POOL, SyncPool"), ("buffer reset", "SyncPoolContent::reset for Vec")],
  [("BUFFER_POOL", "process-wide buffer cache", "src/connection/mod.rs")],
  ["bytes received per simulated server connection, results per connection", "SyncPool::get"],
  "yield points at the pool's atomic operations (cfg mysql_connector_sim)")

p("C16", "Migrations run in order, once, and their record matches",
  "Migrating up runs exactly the not yet recorded migrations up to the target version in declared order; migrating down runs exactly the recorded ones above the target in reverse order. Whenever an operation reports success, the recorded set equals the set whose effects are in the database and is exactly what the target asks for, and every migration is recorded only after it was applied and unrecorded only after it was undone.",
  ["histories", "configurations", "fault_sequences"],
  "every migration set, every starting record including gaps, every sequence of up, down and target-version operations, through fresh or reused migrators",
  TESTS + "; the migrator is never run.",
  ["src/migrator/migrator_inner.rs", "src/migrator/migration.rs", "src/migrator/model.rs"],
  [("ordered walk", "Migrator::up_to_version/down_to_version/to_version/one_down"), ("version order", "impl Ord for Version"), ("record table", "Migrator::new")],
  [("applied", "migrations believed to be recorded", "src/migrator/migrator_inner.rs")],
  ["statements executed by the simulated server, its migrations table"])

p("C17", "Interrupted migrations can be resumed without loss",
  "If a migration run is interrupted at any statement by a server error, a broken connection or the process dying, at most the one migration in progress is in doubt: every other migration's record agrees with its effects. Repeating the run, with the same migrator or a fresh one, brings the database to the requested state, and it never reports success while a record is missing or left over.",
  ["crash_points", "fault_sequences", "histories"],
  "every point at which a migration run can fail or die, followed by any retry",
  TESTS + "; no failure is ever injected.",
  ["src/migrator/migrator_inner.rs", "src/migrator/migration.rs"],
  [("order of effect and record", "Migrator::up_to_version/down_to_version/one_down")],
  [("applied", "migrations believed to be recorded", "src/migrator/migrator_inner.rs")],
  ["server state after the failure and after the retry"])

p("C18", "Saving a model writes exactly the fields that were set",
  "Inserting a model writes one row holding exactly the set fields with their values in the columns that the fields are called like (`r#type` is the column `type`), after inserting the models it references, and stores in each reference the key of the referenced row (its own key if set, otherwise the one the server generated). Updating changes exactly the set fields of the row with the given key and sends nothing if none is set. If any step fails or is interrupted, the failure is returned and no later step is executed.",
  ["histories", "inputs", "fault_sequences"],
  "every combination of set and unset fields and nested references, with generated or explicit keys, and failures or interruptions at every statement",
  TESTS + ", and one test compares the text of a generated select; inserts and updates are never run.",
  ["src/model/active_model/mod.rs", "src/model/active_model/active_reference.rs", "src/model/active_model/active_value.rs", "src/model/active_model/named_value.rs", "src/model/active_model/update_model.rs", "macros/src/lib.rs"],
  [("insert", "ActiveModel::insert"), ("references", "ActiveReference::insert_named_value"), ("update", "UpdateModel::update"), ("derived code", "derive(ActiveModel)")],
  None, ["statements and parameters received by the server, its tables afterwards"])

p("C19", "Models read back equal the rows stored",
  "Selecting models with their generated query returns, for every stored row, a model whose fields and nested referenced models equal the stored values, regardless of the order in which the server lists the columns, of additional columns and of field names that are Rust keywords (`r#type`). A row that lacks a needed column or holds a value that does not fit a field is reported as an error and never yields a wrong or defaulted field.",
  ["inputs", "histories", "schedules"],
  "every stored content including nulls and boundary values, nested references, any column order, both query protocols, any fragmentation of the reply",
  TESTS + ", and one test compares the text of a generated select; no row is ever mapped to a model.",
  ["src/model/from_query_result.rs", "src/model/into_query.rs", "src/types/value/conversion.rs", "macros/src/lib.rs"],
  [("column mapping", "FromQueryResultMapping, derive(FromQueryResult)"), ("query text", "IntoQuery::build_query"), ("conversions", "TryInto impls of Value")],
  None, ["models returned by query::<Model>"])

p("C20", "Escaped strings and identifiers cannot break out of their literal",
  "For every text and a server in its default SQL mode (UTF-8): StringEscape formats it as one string literal that the server reads as exactly that text, so that a row stored with it returns it, a row that holds it is found by it, and the statement does nothing else. IdentifierEscape formats it as one quoted identifier denoting the text without the characters that names cannot contain (U+0000 and everything beyond U+FFFF) and without trailing spaces; UnquotedIdentifierEscape leaves exactly the characters a name may contain without quotes. A writer that fails makes the formatting fail. This holds whatever happens to the network around the statement. (Known and not repairable without breaking an existing test: U+001A is written as `\\z`.)",
  ["inputs", "fault_sequences"], "every text, through the text and binary protocol", "The tests check about a dozen fixed strings against fixed texts; no server reads them.",
  ["src/types/value/text.rs"], [("escaping", "StringEscape, IdentifierEscape, UnquotedIdentifierEscape")])

p("C21", "Values and hex strings survive formatting and parsing",
  "Formatting a Value (Display) yields a literal that a MySQL server reads as that value: inserted into a column of its type, it is stored and read back unchanged through either protocol (NULL, all integers, every finite float, bytes including none, dates, times and datetimes; the sign of a zero is not kept, NaN and infinities have no literal). Formatting a Hex and parsing it again (FromStr, try_from_hex, serde) yields its bytes; hex text with or without `0x`/`0X`, in either case, parses to the bytes it denotes, everything else is an error. Formatting or parsing anything never panics, and a writer that fails makes the formatting fail.",
  ["inputs", "fault_sequences"], "every value and every text", "The tests check a few fixed values against fixed texts.",
  ["src/types/value/text.rs", "src/types/hex.rs"], [("formatting", "Display for Value, Hex"), ("parsing", "FromStr for Hex, Hex::try_from_hex, Deserialize for Hex")])

p("C22", "Prepared statements do not pile up on the server",
  "A PreparedStatement is closed on the server (COM_STMT_CLOSE) once it cannot be used any more, at the latest before the connection prepares another one: however many statements a connection prepares in its life, directly, through models or by one user of a pool after another, it has at most one of them open at a time, whether or not their executions succeeded, were abandoned or failed. A statement that can still be used is never closed, and what is closed is a statement the same connection has open: never another one and nothing twice.",
  ["histories", "fault_sequences", "crash_points"], "every sequence of preparations, executions, failures, abandoned results and cancelled calls, followed by any other command",
  TESTS + "; no test prepares a statement.",
  ["src/connection/prepared_statement.rs", "src/connection/io.rs", "src/connection/packets/stmt_close.rs", "src/connection/query.rs"],
  [("closing", "Connection::close_prepared"), ("where it is sent", "Connection::execute_command"), ("preparing", "Connection::prepare_statement")],
  [("prepared", "the statement the server keeps", "src/connection/mod.rs")],
  ["COM_STMT_PREPARE, COM_STMT_CLOSE and COM_STMT_EXECUTE as the server receives them"])

p("C23", "Nothing the library allocates is leaked",
  "When connections, pools, statements, results and everything else obtained from the library have been dropped, nothing they allocated stays allocated, however they ended: after success, errors of the server, damaged packets, transport faults, timeouts, dropped calls, failing or panicking creations and panicking users. The only exception are the bounded set of internal buffers kept for reuse, of which none keeps room for an unusually large packet. A pool whose users repeat the same work does not need more memory with every repetition. The elements of a buffer returned to a SyncPool are dropped, and such a buffer keeps no more capacity than the configured size_cap.",
  ["histories", "fault_sequences", "schedules"], "every history of calls, faults, cancellations and panics, however often it is repeated in one process",
  TESTS + "; no test looks at memory.",
  ["src/pool/sync_pool.rs", "src/pool/pool_item.rs", "src/pool/async_pool.rs", "src/connection/io.rs", "src/connection/mod.rs"],
  [("returning", "PoolItem::drop"), ("cutting buffers", "Vec<T>::reset"), ("internal buffers", "BUFFER_POOL"), ("cancelled creations", "PoolTake::drop")],
  [("pool", "the idle items", "src/pool/sync_pool.rs"), ("wakers", "requests that wait", "src/pool/async_pool.rs")],
  ["memory allocated by the process before and after a history"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
