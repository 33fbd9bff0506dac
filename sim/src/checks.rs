//! Which scenarios decide which property.
use crate::gen::Focus::*;
use crate::plan::Scn;
use crate::runner::Mix;

pub fn mix(id: &str) -> Option<Mix> {
    let c = Scn::Conn;
    Some(match id {
        "C01" => vec![(6, c(Mixed), 7, 0), (3, c(Results), 6, 0), (1, c(Params), 9, 6)],
        "C02" => vec![(8, c(Sizes), 3, 9), (2, c(Mixed), 6, 0)],
        "C03" => vec![(9, c(Params), 4, 120), (1, c(Mixed), 5, 0)],
        "C04" => vec![(9, c(Values), 3, 200), (1, c(Mixed), 5, 0)],
        "C05" => vec![(9, c(Results), 7, 100), (2, c(Mixed), 6, 0)],
        "C06" => vec![(9, c(Info), 3, 0), (2, c(Mixed), 5, 0)],
        "C07" => vec![(9, c(Timing), 8, 40), (3, c(Mixed), 6, 0)],
        "C08" => vec![(9, c(Login), 5, 0), (1, c(Mixed), 5, 0)],
        "C09" => vec![(9, c(Secret), 3, 0), (2, c(Login), 3, 0)],
        "C10" => vec![(9, Scn::Bytes, 10, 0), (1, c(Mixed), 6, 0)],
        "C11" => vec![(9, c(Flush), 5, 60), (3, c(Mixed), 5, 0)],
        "C15" => vec![(9, c(Concurrent), 6, 25)],
        "C12" => vec![(3, Scn::PoolThreads, 12, 0), (1, Scn::PoolConns, 8, 0)],
        "C13" => vec![(2, Scn::PoolThreads, 12, 0), (1, Scn::PoolConns, 8, 0)],
        "C14" => vec![(1, Scn::PoolConns, 9, 0)],
        "C16" => vec![(1, Scn::Migrate, 5, 0)],
        "C17" => vec![(1, Scn::Migrate, 10, 0)],
        "C18" => vec![(1, Scn::Models, 6, 0)],
        "C19" => vec![(1, Scn::Models, 3, 0)],
        "C20" => vec![(1, Scn::Text(true), 3, 0)],
        "C21" => vec![(1, Scn::Text(false), 3, 0)],
        "C22" => vec![(4, c(Params), 7, 60), (3, c(Mixed), 7, 0), (2, c(Concurrent), 4, 25), (2, Scn::PoolConns, 6, 0), (2, Scn::Models, 5, 0)],
        "C23" => vec![
            (4, c(Mixed), 4, 0), (1, c(Sizes), 2, 9), (1, c(Login), 3, 0), (1, c(Params), 2, 60), (2, c(Concurrent), 3, 25), (3, Scn::PoolThreads, 4, 0),
            (2, Scn::PoolConns, 4, 0), (3, Scn::PoolLong, 3, 0), (1, Scn::Migrate, 3, 0), (1, Scn::Models, 3, 0), (1, Scn::Text(true), 2, 0),
        ],
        // for mutation tests: everything, and whatever property breaks counts
        "ALL" => vec![
            (4, c(Mixed), 6, 0), (3, c(Sizes), 3, 9), (4, c(Params), 4, 120), (5, c(Values), 3, 0), (3, c(Results), 7, 0),
            (3, c(Info), 3, 0), (3, c(Timing), 8, 40), (5, c(Login), 5, 0), (3, c(Secret), 3, 0), (3, Scn::Bytes, 10, 0),
            (3, c(Flush), 5, 60), (3, c(Concurrent), 6, 25), (3, Scn::PoolThreads, 12, 0), (2, Scn::PoolConns, 8, 0),
            (4, Scn::Migrate, 7, 0), (6, Scn::Models, 5, 0), (1, Scn::Text(true), 3, 0), (1, Scn::Text(false), 3, 0),
        ],
        _ => return None,
    })
}

pub fn rule(_id: &str) -> String {
    "One case is one simulated run. A job seed makes a base plan (callers' programs, server replies, login configuration, network behaviour) that is run without faults; from what it used (bytes, polls and packets of every command) further plans are derived with faults, cancellations, damaged packets or another schedule placed inside those ranges. A run is non-trivial if at least one transport was opened and bytes were exchanged; distinct runs are counted by the execution hash (see distinct_measure).".into()
}
/// The oracle of a property.
pub fn explain(id: &str) -> String {
    match id {
        "C01" => "Every reply of the simulated server carries the unique id of the command it answers; anything a caller gets back must carry the id of its own command and equal what the server was told to send for it. After an interruption (cancelled call, fault, timeout) whose position is unknown every later call has to fail and no byte of it may reach the server.",
        "C02" => "The server's own frame decoder checks the numbering and splitting of everything the client sends and compares the payload byte for byte; replies are compared byte for byte with what was sent. Packets of the server that are dropped, duplicated or renumbered must never be delivered as data.",
        "C03" => "The server decodes COM_STMT_EXECUTE and COM_STMT_SEND_LONG_DATA with an independent decoder and compares statement id, types, signedness, nulls and values with those that were bound; a wrong number of values must send nothing; an interrupted stream must never be followed by an execution.",
        "C04" => "Cells are encoded by an independent encoder in both protocols and compared with the values the rows return, bit for bit; cells that cannot be represented or parsed have to be errors.",
        "C05" => "The rows a caller received must be a prefix of what the server sent, in order; the end may be reported only if the server completed the result set, otherwise an error (the server's own, if it sent one).",
        "C06" => "OK, EOF and ERR packets and column definitions are compared field by field with what the callers were given.",
        "C07" => "On the virtual clock: a stall at any byte or poll has to end in a timeout error exactly within the configured time of the stall; gaps below it must never end in one, whatever their sum; no completion may come later than its last byte.",
        "C08" => "A model of the login (method, switches, fast and full authentication, refusals) decides whether the server accepted; connecting has to succeed exactly then, with the data of that server, and the server checks every answer for the configured user, password and database.",
        "C09" => "Everything the client sent to a hostile server is searched for the password and for every function of the password an attacker without a key can evaluate; answers must belong to the latest challenge and the pinned method, encryption may use the configured key only and its padding has to depend on the operating system's randomness (two executions that differ in nothing else are compared).",
        "C10" => "Damaged, replaced, truncated and injected packets at every stage; panics, aborts, memory beyond a bound that depends on the received bytes, and calls that use up their budget of polls are violations.",
        "C11" => "The transport delivers written bytes at a flush only; an exchange that stalls although the server would have answered, and a failed flush that is not reported, are violations.",
        "C12" | "C13" => "Threads are stopped before every access to the pool's shared words and queues and go on one at a time as the seed decides; items count themselves and their holders. At quiescence every request must have been served, the whole capacity must be obtainable again, and a failed creation must have been reported to the request that made it.",
        "C14" => "Users of a pool of simulated connections leave them in every state the connection scenario knows; whoever gets one next must see what a fresh connection would show. When the network works again every user has to succeed.",
        "C15" => "Several connections and users run interleaved; every server accepts only bytes that the program of its own connection put there and every reply belongs to that server; the buffers of the library's buffer pools have to be empty when taken.",
        "C16" => "The log of the simulated database (effects of migrations and changes of the record, in order) is compared with what a call has to do given the record before it.",
        "C17" => "Every statement of a run is failed, cut off, its reply lost or the process killed before or after it; at most one migration may disagree with its record, and repeated runs (same or fresh migrator) have to reach the requested state.",
        "C18" => "A reference database is advanced by what each operation has to do; the statements and the resulting tables of the simulated server have to agree with it, and nothing may be executed after a failed step.",
        "C19" => "Models returned by selects are compared with the stored rows of the reference database, with shuffled and additional columns; rows that lack a column or do not fit have to be errors.",
        "C22" => "The simulated server keeps the open statements of every session, as a real one does. When it prepares a statement no earlier one of the session may be open, and every COM_STMT_CLOSE has to name an open statement. Executions of a statement that is closed too early are refused, and the program of the caller fails without a fault.",
        "C23" => "Every run is repeated in the same process and the memory that is still allocated after all of its connections, pools and results were dropped must not keep growing from repetition to repetition; no block beyond 8 MiB may be left. Users of a pool who repeat the same work 32 to 51 times (and, to be sure, 8 and 64 times as often) must not make the memory that was allocated inside the library's calls grow throughout the run. Elements of pooled buffers count themselves, and a buffer that was given back has to be cut to the configured capacity.",
        "C20" => "Texts from an alphabet of quotes, escapes, comment signs, control characters and all of Unicode are escaped into statements that the simulated server's own lexer reads; what it stores, finds or names has to be that text, and the statements must do nothing else. Network faults, refused statements and dropped calls are injected around them.",
        "C21" => "Values are formatted into statements that the simulated server parses and stores; what it stores and sends back (both protocols) has to be that value. Hex text is sent by the server, parsed and compared with an independent decoder; bytes are formatted and parsed again.",
        _ => "",
    }
    .into()
}
pub fn real(id: &str) -> Vec<&'static str> {
    let mut v = vec!["mysql_connector built from /repo's working tree (protocol, authentication, statements, rows, timeouts, buffer pools)", "tokio time driver (paused virtual clock)"];
    match id {
        "C23" => v.push("AsyncPool, SyncPool, AsyncPool of Connection, Migrator, Model, ActiveModel, escapes"),
        "C12" | "C13" => v.push("AsyncPool and SyncPool on real OS threads that run one at a time"),
        "C14" => v.push("AsyncPool of Connection"),
        "C16" | "C17" => v.push("Migrator, AsyncPool of Connection"),
        "C20" | "C21" => v.push("StringEscape, IdentifierEscape, UnquotedIdentifierEscape, Hex, Value's Display"),
        "C18" | "C19" => v.push("Model, ActiveModel and their derive macros"),
        _ => {}
    }
    v
}
pub fn stubs(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "MySQL/MariaDB server (simulated, protocol written independently of the client)",
        "network transport (SimStream behind the library's Stream trait; the operating system's sockets are not used)",
        "task executor (seeded scheduler)",
        "operating system's randomness (getrandom, a function of the plan)",
    ];
    match id {
        "C12" | "C13" => v.push("pool items (scripted creation that takes time, fails, panics or is cancelled; users that panic)"),
        "C23" => v.extend(["pool items (scripted)", "SQL engine of the server", "allocator (counts blocks and whose they are, passes everything on)"]),
        "C16" | "C17" | "C18" | "C19" | "C20" | "C21" => v.push("SQL engine of the server (tables, inserts, updates, joins, keys, transactions per statement)"),
        _ => {}
    }
    v
}
pub fn assumptions(id: &str) -> Vec<&'static str> {
    match id {
        "C12" | "C13" => vec!["atomic operations of the pools are sequentially consistent (the hook schedules whole operations)"],
        "C23" => vec!["what is kept for reuse is filled after two repetitions", "memory that a library call allocated is the library's, whoever drops it"],
        "C07" => vec!["the timer is tokio's; computing takes no virtual time"],
        "C09" => vec!["SHA-1, SHA-256 and RSA-OAEP are not invertible without a key; an attacker who evaluates them on guesses is out of scope"],
        "C16" | "C17" => vec!["a statement of the server is atomic; a dying server loses no committed statement"],
        "C20" | "C21" => vec!["the server reads strings, names, numbers and literals as MySQL documents it for the default SQL mode and UTF-8"],
        _ => vec!["calls of one connection are made one after another, as `&mut self` demands"],
    }
}
