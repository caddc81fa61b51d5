"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""

def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note,
      level="exploration", state=None, hook=None, claimed=True, reason=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, observe=observe, technique=technique, note=note,
                level=level, state=state or [], hook=hook, claimed=claimed, reason=reason)

PROPS = [
P("P01", "Incoming messages reach every client once, in order, unaltered",
  "Every PRIVMSG or NOTICE that a network sends to the user or to a channel the user has joined and not detached is delivered to each registered client of that network exactly once, in the order the network sent it, with the sender, target and text unchanged. This holds for any number of clients, any mix of client capabilities, and while clients connect and disconnect.",
  ["inputs", "histories", "schedules", "configurations"],
  "every message content, every sequence of upstream messages, every number of clients and capability mix, every interleaving of client arrivals and departures",
  "The existing tests pass one or two fixed messages through a single client; none runs several clients with different capabilities, churn, or hostile text.",
  ["upstream.go", "downstream.go", "user.go", "conn.go"],
  [("message fan-out to clients", "upstream.go handleMessage/produce, network.forEachDownstream"), ("per-connection ordered queue", "conn.go SendMessage/outgoingCh")],
  ["client sockets", "upstream socket"],
  "trace monitor: unique-id exactly-once/order checker over client transcripts",
  "Real server in-process over loopback TCP; fake upstream sends uniquely numbered messages; fenced transcripts of every client compared with what was sent."),
P("P02", "A client's messages reach the network and the other clients exactly once",
  "Every PRIVMSG or NOTICE a client sends to a target on its network is passed to that network exactly once, in the order it was sent, with target and text unchanged. Each other client of the same user on that network receives exactly one copy attributed to the user, and the sending client receives a copy only if it negotiated echoes. This is independent of whether the network itself supports echoes or labels.",
  ["inputs", "histories", "schedules", "configurations"],
  "every text and target, every interleaving of messages sent by several clients, with and without upstream echo-message and labeled-response",
  "The existing tests send at most one message from one client; self-message synchronisation and upstream echo combinations are not tested.",
  ["downstream.go", "upstream.go", "user.go"],
  [("downstream PRIVMSG handling", "downstream.go handleMessageRegistered"), ("self-message fan-out", "upstream.go produce"), ("echo handling", "upstream.go handleMessage")],
  ["client sockets", "upstream socket", "chat history"],
  "trace monitor: conservation checker between client, upstream and sibling-client transcripts",
  "Several concurrent clients send uniquely numbered messages; upstream and sibling transcripts are checked for exactly-once and order."),
P("P03", "A returning client gets each missed message exactly once",
  "A client that does not fetch history itself and comes back under the same client name receives, before any new message of that conversation, every PRIVMSG and NOTICE it had not yet acknowledged, in order, exactly once, and no message it had acknowledged. This holds independently for every client name and target, at whatever point the client disconnected, and, with a persistent message store, also after the bouncer is stopped and started again (within the retention of the store: 4096 messages per conversation in memory, 4000 replayed per conversation).",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "every sequence of connects, disconnects, acknowledgements and bouncer restarts of several named clients, for each message store",
  "The existing backlog test replays a single message to one client on a fixed history.",
  ["downstream.go", "user.go", "msgstore/msgstore.go", "msgstore/fs.go", "msgstore/db.go", "msgstore/memory.go"],
  [("delivery receipts", "user.go deliveredStore, storeClientDeliveryReceipts"), ("backlog replay", "downstream.go sendTargetBacklog"), ("acknowledgement", "downstream.go ackMsgID")],
  ["client sockets"],
  "trace monitor: per-client delivery model (acknowledged prefix) over random connect/ack/restart histories",
  "Model keeps per (client name, target) the acknowledged position; each reconnect transcript must equal the model's suffix."),
P("P04", "Messages shown to a client survive a crash of the bouncer",
  "With a persistent message store, every PRIVMSG or NOTICE that was delivered to a client before the bouncer process was killed at an arbitrary instant is present in the history served after it is started again, exactly once and in order. The history never contains a message that was not sent, and the bouncer keeps recording new messages after the crash.",
  ["crash_points", "histories", "configurations"],
  "every kill instant during message traffic, each persistent message store",
  "No existing test kills the process or restarts the server on an existing store.",
  ["msgstore/fs.go", "msgstore/db.go", "upstream.go", "database/sqlite.go", "cmd/soju/main.go"],
  [("store before forward", "upstream.go produce"), ("append-only log files", "msgstore/fs.go Append"), ("committed transaction per message", "database/sqlite.go StoreMessages")],
  ["client sockets", "history after restart"],
  "fault injection (SIGKILL of the real binary) with offline durability checker over client logs",
  "The real soju binary is killed at seeded points under traffic; everything any client saw must be served by CHATHISTORY after restart.",
  level="fault_enumeration"),
P("P05", "History queries return exactly the requested messages",
  "For every history query by time (before, after, latest, between, targets) and every limit, the bouncer returns exactly the stored messages that satisfy the bounds, oldest first, choosing the end of the range the query asks for and never exceeding the limit. Non-message events are included only for clients that negotiated them, each returned message carries its original time, sender and text, and paging through a conversation in either direction visits every message exactly once.",
  ["inputs", "histories", "configurations"],
  "every stored history (including gaps of days, equal and out-of-day timestamps), every query kind, bound and limit, file and database stores",
  "The existing chathistory test checks one short history with a couple of fixed queries.",
  ["downstream.go", "msgstore/fs.go", "msgstore/db.go", "msgstore/znclog/reader.go", "msgstore/znclog/writer.go", "database/sqlite.go"],
  [("CHATHISTORY command", "downstream.go"), ("time range loading", "msgstore/fs.go LoadBeforeTime/LoadAfterTime; msgstore/db.go"), ("log line format", "msgstore/znclog")],
  ["CHATHISTORY replies"],
  "differential monitor: CHATHISTORY replies checked against an executable reference model",
  "Generated multi-day histories are loaded through the real upstream path; thousands of queries compared with a list model."),
P("P06", "Search returns exactly the matching messages",
  "A search limited by conversation, sender, text and time range returns only messages that were really exchanged in that conversation and satisfy every given criterion, at most the requested number and never more than the documented maximum, oldest first. When fewer matches than the limit exist, all of them are returned. Criteria that match nothing return an empty result, not an error or unrelated messages.",
  ["inputs", "histories", "configurations"],
  "every stored history, every combination of search attributes, file and database stores",
  "SEARCH has no test at all today.",
  ["downstream.go", "msgstore/fs.go", "msgstore/db.go", "database/sqlite.go", "database/utils.go"],
  [("SEARCH command", "downstream.go"), ("store search", "msgstore/fs.go Search, msgstore/db.go Search, database/sqlite.go ListMessages")],
  ["SEARCH replies"],
  "differential monitor: SEARCH replies checked against an executable reference model",
  "Generated histories and attribute combinations compared with a list model."),
P("P07", "Detached channels stay joined, silent, recorded and re-attachable",
  "While a channel is detached, the bouncer stays joined upstream and keeps recording it, clients see no channel traffic from it except messages relayed under the channel's relay rule, and the detached state survives restarts. A channel re-attaches when a client joins it or when a message matches its re-attach rule, and it detaches when a client asks to or when its inactivity rule says so. On re-attachment every client gets the channel's state, and clients without history support get exactly the messages missed while it was detached.",
  ["histories", "inputs", "configurations"],
  "every sequence of detach, attach, messages, highlights and restarts, every combination of relay/re-attach/detach rules",
  "No existing test detaches a channel.",
  ["user.go", "upstream.go", "downstream.go", "service.go"],
  [("detach/attach", "user.go network.detach, network.attach"), ("filters", "user.go detachedMessageNeedsRelay; upstream.go handleDetachedMessage"), ("service commands", "service.go channel update")],
  ["client sockets", "upstream socket"],
  "trace monitor: reference state machine of detach/attach rules over client transcripts",
  "Random rule/event sequences; expected relays, joins, parts and backlog computed by a model."),
P("P08", "Read markers only move forward and are shared by all clients",
  "The read marker of a conversation never moves backwards and is never later than the time at which it was set. Every change is announced to all clients of the network that understand read markers, a client asking for the marker always gets the latest accepted value, and the value survives a restart of the bouncer. A client joining or attaching is told the current marker of each channel.",
  ["inputs", "histories", "schedules"],
  "every sequence of concurrent marker updates and queries from several clients, with restarts",
  "The MARKREAD command has no test today.",
  ["downstream.go", "database/sqlite.go"],
  [("MARKREAD command", "downstream.go"), ("persistence", "database StoreReadReceipt")],
  ["client sockets"],
  "trace monitor: monotone shared-register checker over all clients' transcripts",
  "Concurrent updates with older/newer/future/invalid timestamps; transcripts and restart state checked against a max-register."),
P("P09", "Clients always see the channel state the network has",
  "After any sequence of joins, parts, kicks, quits, nick changes, mode, topic and membership changes sent by the network, a client that connects or attaches is given exactly the network's current channels, topic, member list with ranks and channel modes, and a client that was already connected has received events from which the same state follows. A rejoin or a reconnection to the network leaves no stale members, topics or channels.",
  ["histories", "inputs", "configurations"],
  "every event sequence, server prefix/casemapping/multi-prefix configuration and attach instant",
  "The existing tests never compare channel state after more than a single join.",
  ["upstream.go", "downstream.go", "irc.go", "xirc/xirc.go", "xirc/genmsg.go"],
  [("channel state tracking", "upstream.go handleMessage"), ("state replay", "irc.go forwardChannel, xirc GenerateNamesReply"), ("membership ordering", "xirc MembershipSet")],
  ["client sockets"],
  "differential monitor: simulated IRC network state versus the state each client reconstructs",
  "A model IRC network generates random events; late clients' initial burst and early clients' replayed events must both equal the model."),
P("P10", "Replies go to the client that asked, completely and in order",
  "When several clients of a user send queries to the same network concurrently, each client receives the complete reply to its own queries and only those, in the order it asked: for WHO, WHOIS and LIST on every network, for all other queries on a network that supports labels. A WHO, WHOIS or LIST that the network rejects, never answers, or cannot answer because the connection is lost ends with the network's error or an end marker to the asking client, and no later reply is ever given to the wrong client. WHO replies the bouncer gives from its own records agree with what the network would have answered. (A network that answers a LIST with an error and still sends an end-of-list, without labels, is outside this guarantee.)",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "every interleaving of queries from several clients and of replies, errors and disconnections from the network, with and without labels",
  "The existing tests have one client and no concurrent queries.",
  ["upstream.go", "downstream.go", "user.go"],
  [("label routing", "upstream.go SendMessageLabeled, labeled-response handling"), ("one query in flight per command", "upstream.go enqueueCommand/dequeueCommand"), ("abort on disconnect", "upstream.go abortPendingCommands")],
  ["client sockets", "upstream socket"],
  "trace monitor: request/reply matching checker with unique per-request reply payloads",
  "Fake upstream answers each query with payload derived from it; every client transcript must contain exactly its own replies."),
P("P11", "Clients only get what they negotiated",
  "A client never receives a message tag, command or batch that belongs to a capability it did not enable, and a client that enabled the capability does receive it. Every batch opened for a client is closed, and its messages refer to an open batch. Capability listing and requests follow the negotiated protocol version: requests are granted entirely or not at all, exactly when every capability in them is offered; capabilities that depend on the network are withdrawn and announced as the network's own support changes.",
  ["inputs", "configurations", "histories"],
  "every subset of capabilities enabled or disabled at any time, every kind of upstream event",
  "The existing tests only use clients without capabilities.",
  ["downstream.go", "upstream.go", "xirc/caps.go"],
  [("outgoing filter", "downstream.go SendMessage"), ("CAP negotiation", "downstream.go handleCap"), ("labels", "downstream.go labeled response handling")],
  ["client sockets"],
  "runtime protocol-contract monitor on every line sent to clients with random capability sets",
  "A per-line conformance monitor runs on all transcripts while many event types are generated."),
P("P12", "Users and networks are isolated from each other",
  "No client ever receives a message, history entry, search result, marker, network attribute or notification that belongs to another user, and a client bound to one network never receives another network's traffic. Nothing a client sends reaches the upstream connection, history or settings of another user or of a network it is not bound to, whatever names, channels and nicknames coincide.",
  ["inputs", "histories", "schedules", "configurations"],
  "all interleavings of traffic of several users with identical nicks, channels and network names, including history, search, push and bouncer commands",
  "The existing tests create a single user with a single network.",
  ["server.go", "user.go", "downstream.go", "upstream.go", "msgstore/fs.go", "msgstore/db.go", "service.go"],
  [("per-user event loop", "user.go run"), ("binding to a network", "downstream.go loadNetwork, forEachNetwork"), ("store keyed by user and network", "msgstore/fs.go logPath; database Message tables")],
  ["client sockets", "upstream sockets", "stored files"],
  "taint-tracking trace monitor: every payload carries its owner, every receiver is checked",
  "Users with colliding names exchange owner-tagged traffic through every feature; any foreign tag at a client or upstream is a violation."),
P("P13", "Only correct credentials give access to an account",
  "A connection gains access to a user's data only after presenting, by password, SASL PLAIN or bearer token, credentials the configured authenticator accepts for that very account and while the account is enabled. Only an administrator may act under another account's identity, and before authentication a connection can neither read nor change anything nor bind to a network. Failed or aborted attempts never leave a connection partly authenticated.",
  ["inputs", "histories", "configurations"],
  "every order of registration commands, every malformed, chunked, aborted or repeated exchange, every account state and authenticator answer",
  "The existing tests cover one successful login and one kind of failure.",
  ["downstream.go", "server.go", "auth/auth.go", "auth/internal.go", "auth/http.go", "auth/oauth2.go", "database/database.go"],
  [("registration state machine", "downstream.go handleMessageUnregistered, authenticate"), ("SASL server", "downstream.go handleAuthenticate"), ("authenticators", "auth/*.go")],
  ["client sockets", "authenticator calls"],
  "runtime monitor: recording authenticator plus access oracle over random registration scripts",
  "Random registration scripts run against a recording authenticator; any access without a matching accepted credential is a violation."),
P("P14", "Losing access takes effect immediately on open connections",
  "When an administrator changes or removes a user's password, or disables or deletes the account, or a user deletes its own account, all of that user's open client connections are closed before the change is acknowledged or right after it; after any password change the old password no longer works. A disabled or deleted account no longer keeps network connections, and logins in progress are not left hanging. Re-enabling the account or using the new password restores service; other users, including those administering the account at the same moment, are unaffected.",
  ["histories", "schedules"],
  "every sequence of password changes, disabling, enabling and deletion with concurrent clients and logins",
  "No existing test changes a password or disables or deletes a user with clients connected.",
  ["user.go", "service.go", "server.go", "downstream.go"],
  [("user update", "user.go updateUser"), ("user stop", "user.go stop"), ("service commands", "service.go handleUserUpdate, handleUserDelete")],
  ["client sockets", "upstream sockets"],
  "trace monitor: session-lifetime checker over account-state histories",
  "After each account change, fenced transcripts must show the closures, refusals and unaffected sessions the model predicts."),
P("P15", "Only administrators can manage other users or the server",
  "A user without administrator rights can never create, delete, list, inspect or change other users, change restricted fields of its own account, run commands as another user, broadcast to everyone or read or change server-wide settings, through any command, alias, abbreviation or quoting. An administrator, and the local administration socket, can. A refused command changes nothing.",
  ["inputs", "configurations"],
  "every service command with every flag combination, by every kind of caller, directly or nested",
  "The existing service tests only parse words; no command authorization is tested.",
  ["service.go", "server.go", "downstream.go", "cmd/sojuctl/main.go"],
  [("admin flag on commands", "service.go serviceCommand.admin, handleServicePRIVMSG"), ("field checks", "service.go handleUserUpdate, handleUserCreate"), ("admin socket", "server.go HandleAdmin")],
  ["client sockets", "database contents"],
  "runtime monitor: database snapshot diff and reply oracle around every generated command",
  "All commands and flags are fired by non-admins; database snapshots and other users' clients must be unaffected."),
P("P16", "Acknowledged settings are durable; refused ones change nothing",
  "Every network, channel, user or certificate setting that the bouncer acknowledged is in effect and is still there, with the same values, after the bouncer is killed at any instant and started again. A command that is refused or fails, including because the database fails, leaves both the running state and the stored state unchanged.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "every sequence of service and bouncer commands, every kill instant, every failing database call",
  "The existing tests store single records directly; none goes through commands, crashes or database faults.",
  ["service.go", "user.go", "downstream.go", "server.go", "database/sqlite.go"],
  [("store then apply", "user.go createNetwork/updateNetwork/deleteNetwork/updateUser"), ("service commands", "service.go")],
  ["service replies", "BOUNCER replies", "database contents after restart"],
  "fault injection (database errors, kill/restart) with a reference model of the acknowledged settings",
  "Random command sequences with injected database failures; model, live replies and restarted server must agree.",
  level="fault_enumeration"),
P("P17", "Saved channels are rejoined after any reconnection",
  "After any loss of the network connection or restart of the bouncer, the bouncer reconnects and joins exactly the channels that clients joined or created and did not leave or delete, once each and with the last key given, whatever their number and in lines the network accepts. A channel left by a client is not rejoined, a kick, forced departure or refused join does not remove a saved channel, and the connect commands are sent once per connection, in order.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of joins, parts, kicks, key changes, forwards, disconnections and restarts, every number and length of channel names and keys",
  "No existing test reconnects to the network.",
  ["upstream.go", "user.go", "downstream.go", "xirc/genmsg.go"],
  [("saved channels", "user.go network.channels; database Channel"), ("rejoin", "upstream.go runUntilRegistered/updateChannelAutoDetach, xirc GenerateJoin")],
  ["upstream socket"],
  "trace monitor: rejoin oracle at the upstream socket after injected disconnects and restarts",
  "Model of saved channels and keys; the JOIN lines of each new upstream connection must cover it exactly."),
P("P18", "Network limits and validity rules are never exceeded",
  "A user never has more enabled networks than the effective limit unless an administrator explicitly overrides it, whichever command, update, rename, enable or auto-connect path is used. Two networks of a user never share a name, a network selected by its name is always the one with that name, empty, reserved (*) and flag-like names are refused on every path, and users without administrator rights can never make the bouncer connect to a local socket. A limit of the account takes precedence over the server default.",
  ["inputs", "histories", "configurations"],
  "every sequence of network creation, update, enabling, deletion and automatic addition with every limit setting",
  "Limits have no test today.",
  ["user.go", "service.go", "downstream.go"],
  [("limit check", "user.go canEnableNewNetwork"), ("network validation", "user.go checkNetwork")],
  ["service and BOUNCER replies", "database contents"],
  "runtime invariant monitor on database state after every generated command",
  "Random command sequences through all paths; invariant evaluated after each step and against the model's accept/refuse decision."),
P("P19", "No client input can crash or wedge the bouncer",
  "Whatever bytes and commands a client sends, authenticated or not, the bouncer process keeps running, no account's processing stops, and other users and the same user's other clients keep being served. A misbehaving connection is at worst closed.",
  ["inputs", "histories", "schedules"],
  "every byte string and command sequence from clients in every registration state",
  "The existing tests send only well-formed sequences.",
  ["downstream.go", "server.go", "user.go", "service.go", "conn.go", "irc.go"],
  [("parameter validation", "downstream.go handleMessage*"), ("panic containment", "user.go run, server.go")],
  ["client sockets", "process state", "server log"],
  "hostile-input stress under a crash/panic/liveness monitor (grammar-based fuzzing of live connections)",
  "Tens of thousands of generated hostile client lines; crash, recovered panic and unresponsive account are violations."),
P("P20", "No network server input can crash or wedge the bouncer",
  "Whatever bytes a network server sends, before or after registration and in any order, the bouncer process keeps running, the user's clients and other networks keep being served, and other users are unaffected. A misbehaving network connection is at worst closed and retried (not retried only when the server refused the login for a reason that needs a configuration change).",
  ["inputs", "histories", "schedules"],
  "every byte string and message sequence from a network server in every connection state",
  "The existing tests use a well-behaved fake server.",
  ["upstream.go", "user.go", "irc.go", "xirc/xirc.go", "xirc/whox.go"],
  [("message parsing and validation", "upstream.go handleMessage, irc.go parseMessageParams"), ("panic containment", "user.go run")],
  ["client sockets", "process state", "server log"],
  "hostile-input stress under a crash/panic/liveness monitor (grammar-based fuzzing of upstream lines)",
  "Tens of thousands of generated hostile upstream lines in every connection state; crash, recovered panic and unresponsive account are violations."),
P("P21", "The bouncer is free of data races",
  "No execution of the bouncer has two unsynchronised accesses, at least one of them a write, to the same memory from different threads of control, under any mix of connections, reconnections, service commands, configuration reloads, statistics queries, pushes, uploads and shutdown.",
  ["schedules", "histories"],
  "every interleaving of concurrent clients, upstream connections, service commands and reloads",
  "The existing tests run single-threaded and without the race detector.",
  ["user.go", "upstream.go", "server.go", "downstream.go", "conn.go", "msgstore/fs.go", "identd/identd.go"],
  [("per-user event loop", "user.go run"), ("locks and atomics", "server.go lock, conn.go lock")],
  ["race detector reports"],
  "Go race detector over concurrent stress of the real server",
  "All workload families run concurrently in a race-instrumented build with injected database delays; reports deduplicated by function pair."),
P("P22", "Secrets are not recorded or shown",
  "Passwords and authentication data sent to NickServ, login passwords, server passwords, SASL exchanges, login commands run on connect and stored network credentials never appear in message history, on connections of other users or networks, in replies to queries or in the server log at the default level; clients of the same user and network see at most the user's own NickServ messages as they are sent. Secrets are only ever sent to the network they belong to, and account passwords are never stored in clear.",
  ["inputs", "histories", "configurations"],
  "every way of handing a secret to the bouncer, every store and log level the operator uses by default",
  "No existing test looks for secrets anywhere.",
  ["upstream.go", "downstream.go", "service.go", "user.go", "conn.go"],
  [("service messages excluded from history", "upstream.go appendLog"), ("redaction", "service.go network status/quote")],
  ["history", "client sockets", "log output", "upstream sockets"],
  "taint-tracking trace monitor: unique secret markers searched in every output channel",
  "Every secret is a unique marker; stores, logs, sibling clients and other upstreams are scanned for it."),
P("P23", "Network credentials only go to the authenticated right server",
  "With TLS, the bouncer sends nothing of the IRC session, in particular no password or SASL data, to a server whose certificate neither verifies nor matches the pinned fingerprint of that network. Saved SASL credentials are used on every connection with the configured mechanism when the server offers it. Credentials a client gives by SASL or account registration are saved only after the network accepted them (passwords in NickServ identify, register and set-password commands are saved as given; other NickServ commands never change them); a failed or interrupted upstream login never replaces saved credentials, and its failure is told to the client which made it.",
  ["inputs", "configurations", "fault_sequences"],
  "every certificate/pin combination and every order of SASL answers",
  "No existing test uses TLS or SASL towards the network.",
  ["upstream.go", "user.go", "downstream.go", "certfp.go"],
  [("TLS verification and pinning", "upstream.go connectToUpstream"), ("SASL client", "upstream.go handleMessage AUTHENTICATE"), ("auto-save", "user.go autoSaveSASLPlain")],
  ["upstream socket (TLS server side)", "database contents"],
  "runtime monitor at a TLS upstream that records every application byte and SASL exchange",
  "Generated certificates and pins; any application byte to a mismatching server is a violation; SASL transcripts compared with a model."),
P("P24", "Message logs stay inside their directory, one file set per target",
  "Whatever user, network, channel and nick names exist, the file message store creates and reads files only inside its configured directory and inside the part of it belonging to that user and network, and two different conversations never share a log file. Renaming a network keeps its history reachable under the new name, and log lines written for a message parse back to the same message.",
  ["inputs", "histories"],
  "every name byte sequence, every rename history and every message text",
  "The existing tests never use hostile names.",
  ["msgstore/fs.go", "msgstore/znclog/reader.go", "msgstore/znclog/writer.go"],
  [("file name escaping", "msgstore/fs.go EscapeFilename, logPath"), ("rename", "msgstore/fs.go RenameNetwork"), ("log format", "msgstore/znclog")],
  ["file tree of the store", "history replies"],
  "runtime monitor: file-tree audit and round-trip oracle under hostile names and texts",
  "Store exercised with hostile names in a scratch directory as an unprivileged stand-in tree; the tree is audited after every operation."),
P("P25", "The database keeps exactly what was stored, through upgrades and deletions",
  "Every record stored in the database is read back with equal field values, updates affect only the addressed record, and deleting a user or network removes all and only the data belonging to it. Opening a database written by any earlier schema version yields the same users, networks, channels and receipts and a fully working current schema.",
  ["inputs", "histories", "configurations"],
  "every record value, every sequence of store/update/delete operations and every earlier schema version",
  "The existing test migrates one old schema and checks only that the result opens.",
  ["database/database.go", "database/sqlite.go", "database/sqlite_schema.sql"],
  [("CRUD", "database/sqlite.go"), ("migrations", "database/sqlite.go sqliteMigrations")],
  ["database API results"],
  "differential monitor: database API versus an in-memory reference model over random operation sequences and migrations",
  "Model-based random operations with row-level comparison; each historical schema built and upgraded."),
P("P26", "Uploads need authentication, are contained and are served intact",
  "A file is accepted only with valid credentials of an enabled account and within the size limit, is stored under the uploader's own directory whatever file name is given, and is served back byte for byte at the returned location. No request can read or write outside the upload directory or overwrite an existing upload, a refused or interrupted upload leaves nothing behind, active content is never served for inline display, and cross-origin requests are refused unless allowed.",
  ["inputs", "schedules"],
  "every path, header, file name, size and concurrent upload",
  "File upload has no test today.",
  ["fileupload/fileupload.go", "fileupload/fs.go", "cmd/soju/main.go"],
  [("HTTP handler", "fileupload/fileupload.go"), ("file store", "fileupload/fs.go")],
  ["HTTP responses", "file tree"],
  "runtime monitor: HTTP oracle plus file-tree audit under hostile requests",
  "Hostile requests against the real handler in a scratch directory; responses and tree compared with a model."),
P("P27", "Claimed client addresses are only believed from trusted proxies",
  "The client address used for logging, display and policy is the real peer address unless the peer is a configured trusted proxy, in which case the address it forwards by PROXY protocol or HTTP forwarding headers is used. Browser connections from origins that are not allowed are refused.",
  ["inputs", "configurations"],
  "every combination of peer address, forwarding header, PROXY header and trust list",
  "Neither forwarding header handling nor PROXY protocol has a test.",
  ["server.go", "cmd/soju/main.go", "config/config.go"],
  [("forwarded header", "server.go ServeHTTP/parseForwarded"), ("PROXY policy", "cmd/soju/main.go proxyProtoListener")],
  ["address reported by the bouncer", "HTTP status"],
  "runtime monitor: reported address compared with the trust model over generated header/peer combinations",
  "Real listeners; the address shown by the bouncer is compared with the model."),
P("P28", "Every client knows the nick the network uses",
  "Every connected client is always told the nick the user actually has on the network: at registration, after every nick change by itself, by another client or forced by the network, and after reconnections. If the wanted nick is taken when connecting, the bouncer still connects under another nick, and takes the wanted nick back when it becomes free while it is still the wanted one. Messages from and to the user always carry the current nick.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of nick changes, collisions, forced changes and reconnections with several clients",
  "The existing tests never change nick.",
  ["upstream.go", "downstream.go", "user.go"],
  [("nick synchronisation", "downstream.go updateNick"), ("fallback and regain", "upstream.go ERR_NICKNAMEINUSE handling, tryRegainNick")],
  ["client sockets", "upstream socket"],
  "trace monitor: nick-state checker across upstream and all client transcripts",
  "Random nick events; each client's view of its nick must equal the simulated network's."),
P("P29", "Away status is the combination of all clients",
  "For a network with automatic away, the user is marked away on the network exactly when no client attached to that network is present (each has left or has marked itself away with a non-empty message, before or after registering), and is marked back as soon as one is present. The network is told once per change, and again after a reconnection. Clients attached elsewhere make no difference, and a network without automatic away is told nothing. Each client is answered its own away commands only.",
  ["histories", "schedules"],
  "every sequence of client connects, disconnects, AWAY commands and upstream reconnections",
  "Away handling has no test today.",
  ["upstream.go", "downstream.go", "user.go"],
  [("away aggregation", "upstream.go updateAway")],
  ["upstream socket"],
  "trace monitor: away-state model at the upstream socket",
  "Random client histories; fenced upstream state compared with the model after each step."),
P("P30", "Presence monitoring is the union of all clients' requests",
  "The nicks monitored on a network are exactly those that some connected client monitors, within the network's limit, and after a reconnection they are requested again. Each client is told of the presence of exactly the nicks it monitors, and its own list and limit replies reflect its own requests only.",
  ["histories", "schedules"],
  "every interleaving of monitor commands of several clients, presence changes, disconnects and reconnections",
  "MONITOR has no test today.",
  ["upstream.go", "downstream.go"],
  [("monitor aggregation", "upstream.go updateMonitor"), ("MONITOR command", "downstream.go")],
  ["upstream socket", "client sockets"],
  "trace monitor: set-union model across clients and upstream",
  "Random MONITOR histories from several clients; upstream list and client notifications compared with the model."),
P("P31", "Names equal under the network's case rules are one conversation",
  "Channels and nicks that are equal under the network's announced case mapping are treated as the same conversation everywhere: membership, history, search, read markers, detaching, delivery and settings; names that differ under it are never merged. What the network reports about a channel or user is shown in the spelling the network uses.",
  ["inputs", "configurations"],
  "every pair of names and every case mapping, through every command that takes a target",
  "No existing test uses differing cases.",
  ["xirc/casemapping.go", "upstream.go", "downstream.go", "user.go"],
  [("case-mapped maps", "xirc CaseMappingMap"), ("case mapping switch", "user.go updateCasemapping")],
  ["client sockets", "history"],
  "metamorphic monitor: the same workload under respelled names must give the same observations",
  "Name pairs generated per mapping; every feature probed with both spellings and compared."),
P("P32", "Network lists and notifications match the real networks",
  "The list of networks given to a client always equals the user's actual networks with their current attributes and connection state, and a client that follows the notifications from an initial list always arrives at the same result after any sequence of additions, changes, deletions and connection events. Identifiers are stable and unique.",
  ["histories", "schedules"],
  "every sequence of network changes made through commands or service, and of connection state changes",
  "The existing test covers listing one network.",
  ["downstream.go", "user.go", "service.go", "irc.go"],
  [("notification", "user.go notifyBouncerNetworkState"), ("listing", "downstream.go BOUNCER LISTNETWORKS")],
  ["client sockets", "database contents"],
  "trace monitor: replayed notifications versus fresh listing versus database",
  "After every step, the state rebuilt from notifications, a fresh listing and the model must agree."),
P("P33", "Pushes go to subscribers only, for the right messages, encrypted",
  "A registered push endpoint receives every private message, highlight and invitation of its own user and network, and the read marker of each conversation it got messages of, exactly once each, as one IRC message with the original sender, target, text and msgid, encrypted for the keys it was registered with and signed with the announced server key, which survives restarts; nothing else, nothing of other networks or users, nothing before it is registered and nothing after it is removed, replaced, reported expired or its network deleted. An endpoint is only accepted once it took a test push, never when its address is local to the bouncer; a failing endpoint takes nothing away from the others.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of registrations, replacements, removals, messages, read markers, endpoint failures and restarts",
  "Web push has no test.",
  ["server.go", "user.go", "downstream.go", "upstream.go", "database/sqlite.go"],
  [("push", "server.go sendWebPush, user.go broadcastWebPush"), ("selection", "upstream.go PRIVMSG handling"), ("registration", "downstream.go WEBPUSH, sanityCheckWebPushEndpoint")],
  ["HTTP push endpoint", "client sockets"],
  "trace monitor at a push service that decrypts, verifies and matches every push",
  "The process's default transport and resolver lead to a push service of the harness; every push is decrypted, verified and matched with the owed ones."),
P("P34", "A slow, stuck or flooding peer never keeps anyone else from being served",
  "A client that stops reading, a network server that stops answering or reading, or a flood from either never keeps other users' clients and networks, new logins, broadcasts, commands about others and shutdown from being served meanwhile. The stalled user's own other clients and networks, and broadcasts to them, are served again within a bounded time, once the stalled connection has been given up. Shutdown always completes and closes every connection that is logged in.",
  ["schedules", "fault_sequences"],
  "every combination of stalled peers, floods, broadcasts and concurrent administration",
  "No existing test stalls a peer.",
  ["conn.go", "user.go", "server.go", "service.go"],
  [("bounded queues, write timeout", "conn.go newConn, SendMessage"), ("per-user event loop", "user.go run"), ("broadcasts that do not wait", "user.go broadcast"), ("shutdown", "server.go Shutdown")],
  ["client sockets", "upstream sockets"],
  "fault injection (stalled sockets, floods) with a progress monitor of everyone else against an undisturbed control bouncer",
  "Stalled peers plus floods; probes from unaffected users must be answered during the stall, those of the stalled user after it.",
  level="stress_oracle"),
P("P35", "Reloading the configuration is atomic and never disrupts",
  "A reload with a valid configuration file applies all of its reloadable settings to subsequent operations without closing connections, and a reload with an invalid file leaves the previous configuration entirely in effect. Configuration files with unknown directives, bad values or conflicting settings are refused with an error.",
  ["inputs", "histories"],
  "every valid and invalid configuration text, reloads during traffic",
  "Configuration loading has no test.",
  ["config/config.go", "cmd/soju/main.go", "server.go"],
  [("loader", "config/config.go Load"), ("reload", "cmd/soju/main.go main loop")],
  ["behaviour of the running binary"],
  "runtime monitor on the real binary under generated configuration reloads",
  "SIGHUP with generated valid/invalid files; observable settings compared with the model."),
P("P36", "Ident answers name exactly the connection's user",
  "For every open network connection, an ident query from that server for exactly that port pair is answered with the identity of the user owning the connection, and every other query is answered with an error. Closed connections are no longer answered for.",
  ["inputs", "histories"],
  "every port pair, every connection history of several users",
  "The ident server has no test.",
  ["identd/identd.go", "user.go"],
  [("entries", "identd/identd.go"), ("registration", "user.go runConn")],
  ["ident socket"],
  "runtime monitor: ident answers versus live connection table",
  "Several users' connections open and close; all live and stale port pairs queried."),
P("P37", "Migration and import tools keep every record with its owner",
  "Migrating a database keeps every user, credential, setting, network, channel, delivery position and push subscription; moving message logs into a database keeps every message, in order; importing a ZNC configuration merges its users, networks and channels as documented. Each record keeps its owner, nothing else in the destination changes, the source's content is never changed, and malformed sources are refused.",
  ["inputs", "configurations"],
  "every database content, log tree and ZNC configuration",
  "The contrib tools have no test.",
  ["contrib/migrate-db/main.go", "contrib/migrate-logs/main.go", "contrib/znc-import/main.go"],
  [("database migration", "contrib/migrate-db/main.go"), ("log migration", "contrib/migrate-logs/main.go"), ("ZNC import", "contrib/znc-import/main.go")],
  ["exit status", "resulting database"],
  "runtime monitor on the real binaries: results compared record by record with generated sources",
  "Generated databases, logs and ZNC files; results read back and compared."),
P("P38", "Clients are told the features the network announces",
  "The features and limits a network announces, in as many lines as it likes and with later additions, changes and withdrawals, are what each of its clients is told, at registration and afterwards, apart from those the bouncer itself decides; capabilities offered to a client follow the network it is bound to as the network's come and go, a client's enabled capabilities are only those it asked for, and nothing is delivered in a form the client did not enable.",
  ["inputs", "histories", "configurations"],
  "every sequence of feature and capability announcements and of client negotiations",
  "No existing test changes features or capabilities.",
  ["upstream.go", "downstream.go", "user.go"],
  [("features", "upstream.go RPL_ISUPPORT, downstream.go passthroughIsupport"), ("capabilities", "downstream.go updateSupportedCaps, handleCapCommand")],
  ["client sockets"],
  "trace monitor: feature and capability state replayed from each client's transcript against the simulated network's",
  "Random announcements; each client's replayed view must equal the network's."),
P("P39", "An enabled network is always brought back, and only then",
  "Whenever a connection to a network is lost or an attempt fails for a reason that may pass (at any stage, with any such refusal), the bouncer tries again, after the delay between failed attempts, until it succeeds; it does not retry a refusal that needs other settings (wrong password, invalid nick, account required) until they change, a restart or a re-enabling; a disabled network, a deleted one and the networks of a disabled user have no connection and no attempts. Each such network has exactly one connection, every registration uses the current settings and sends each connect command exactly once in order, and other networks' connections are untouched.",
  ["faults", "histories", "schedules"],
  "every sequence of losses, refusals at every stage, changes of settings, enabling, disabling, creation, deletion and restarts",
  "Existing tests connect once to a network which never fails.",
  ["user.go", "upstream.go", "server.go"],
  [("reconnecting", "user.go network.run, runConn, replaceNetwork"), ("refusals", "upstream.go registrationError.Temporary, runUntilRegistered, runConnectCommands")],
  ["upstream sockets", "verif hook: retry delays shortened"],
  "trace monitor: connections, attempts and registrations counted at faulty simulated networks against the intended state of each network",
  "Random losses, refusals and changes of settings; every network must end with exactly one correctly registered connection, or none."),
P("P40", "Clients know their own host, user name, real name and account",
  "Each client of a network is told every change of its own host and user name, real name and account on that network, whichever way the network announces it, exactly once, in the form its capabilities ask for (CHGHOST or 396, SETNAME, 900 and 901), also when it connects and after a reconnection, so that the last it was told is the truth, and nothing about other users or networks is taken for its own; real names set by a client are saved, passed to exactly the networks concerned, and used from then on; messages and joins the bouncer sends on the user's behalf carry that identity.",
  ["inputs", "histories", "configurations"],
  "every sequence of identity changes by networks and clients, losses and client connections",
  "No existing test changes a host, a real name or an account.",
  ["downstream.go", "upstream.go", "user.go"],
  [("telling clients", "downstream.go updateHost, updateRealname, updateAccount"), ("sources", "upstream.go RPL_LOGGEDIN, RPL_LOGGEDOUT, RPL_VISIBLEHOST, CHGHOST, SETNAME; downstream.go SETNAME; user.go updateUser")],
  ["client sockets", "upstream sockets", "database"],
  "trace monitor: identity replayed from each client's transcript against the simulated network's",
  "Random identity changes; each client must be told exactly what changed for it."),
P("P41", "The service's reports and commands are true to what is",
  "What the service and the administration socket report - the networks with their addresses, states, nicks and channel counts, the saved channels with theirs, the SASL method and account, certificate fingerprints, users with their flags and limits, and the totals of the server - is what is saved and connected at that moment, whoever asks and however the subject is named; a report names each thing once; a quoted line is sent to the chosen network, once, and to no other; and a notice to all reaches every connected client exactly once.",
  ["inputs", "histories", "configurations"],
  "every sequence of changes by commands, networks and clients, and every way to ask",
  "No existing test looks at what the status commands print after anything changed.",
  ["service.go", "server.go", "user.go"],
  [("reports", "service.go handleServiceNetworkStatus, handleServiceChannelStatus, handleServiceSASLStatus, handleServiceCertFPFingerprints, handleUserStatus, handleServiceServerStatus"), ("commands", "service.go handleServiceNetworkQuote, handleServiceServerNotice, stripNetworkSuffix; user.go eventUserRun"), ("totals", "server.go Stats, user.go runConn")],
  ["client sockets", "administration socket", "upstream sockets", "database"],
  "online monitor: every report parsed and compared with the harness's record of what it did",
  "Random changes on all sides; after each, reports asked for in random ways must equal the truth."),
]
