#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the file stays valid JSON lines)."""
import json, os
NOTE = "The 17 stable unit tests only parse configurations and exercise AccountId validation and one dump/restore in memory; they start no thread, socket, clock, process or provider."
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why + " " + NOTE,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
S="src/server/"
p("C01","A revoked token never comes back",
  "Once `pizauth revoke ACCOUNT` has succeeded, no token obtained, or authorisation or refresh begun, before the revocation is ever shown, dumped, refreshed or announced as new or refreshed for that account, whatever refreshes, code exchanges, notifications, reloads or commands were in flight at the time. The account becomes active again only through an authorisation requested after the revocation, or an explicit restore of a dump that contains it.",
  ["schedules","histories","fault_sequences"],"every interleaving of the revoke with in-flight refreshes, exchanges, notification passes, retry sleeps and transient_error_if_cmd runs",
  "Needs a revoke to land inside another thread's window (between reading a token state and writing it back).",
  [S+"mod.rs",S+"state.rs",S+"refresher.rs",S+"http_server.rs"],
  [("AccountId versioning","src/server/state.rs: tokenstate_replace / is_act_id_valid"),("revoke command","src/server/mod.rs: request")],
  [("details","(name, AccountId, TokenState) per account","src/server/state.rs: LockedState")],["CLI replies","token endpoint requests","event commands","dump"])
p("C02","Reload isolates credentials of changed or removed accounts",
  "After a successful reload in which an account was removed (even if later re-added) or its auth_uri, auth_uri_fields, login_hint, client_id, client_secret, redirect_uri, scopes or token_uri changed, no token, refresh token, authorisation code or pending authorisation belonging to the old definition is ever shown, dumped, sent to the new token_uri or made active under the new definition. This includes refreshes and code exchanges that were in flight when the reload happened.",
  ["schedules","configurations","histories"],"every security-relevant field, every in-flight operation at the moment of reload, every order of repeated reloads",
  "Tests compare two Accounts statically; none reloads while a thread is mid-exchange or mid-refresh.",
  [S+"state.rs","src/config.rs",S+"refresher.rs",S+"http_server.rs"],
  [("Account::secure_eq","src/config.rs"),("LockedState::update_conf","src/server/state.rs"),("is_act_id_valid re-check","src/server/http_server.rs, src/server/refresher.rs")],
  [],["CLI replies","token endpoint requests","dump"])
p("C03","Reload keeps unchanged accounts and fails without effect",
  "A successful reload that leaves an account's name and security-relevant settings unchanged keeps its token or its pending authorisation (same URL) and lets its in-flight refresh or code exchange complete normally, while changed commands and timing settings take effect. A reload of an unreadable or invalid configuration reports an error to the client and changes nothing.",
  ["schedules","configurations","histories","fault_sequences"],"every instant at which a reload can land relative to other activity, and every config read failure",
  "Needs reloads interleaved with live threads and I/O errors on the config file.",
  [S+"state.rs",S+"mod.rs","src/config.rs"],[("update_conf keeps details of secure_eq accounts","src/server/state.rs"),("reload command","src/server/mod.rs")],[],["CLI replies","provider traffic","commands run"])
p("C04","show prints only the account's own, newest, unexpired token",
  "`pizauth show ACCOUNT` prints an access token only if the provider issued it to that account, it is the most recently obtained one, and its expiry lies in the future; and while the server holds such a token show prints it. When the held token has expired, show reports an error (and starts a refresh if none is under way), and when there is none it reports that authorisation is pending.",
  ["schedules","histories","inputs"],"all interleavings of shows with refreshes, exchanges, revocations and expiry instants, for several accounts",
  "Depends on time passing and on threads replacing tokens concurrently with the read.",
  [S+"mod.rs",S+"refresher.rs",S+"http_server.rs"],[("showtoken command","src/server/mod.rs"),("expiry_instant","src/server/mod.rs")],[],["CLI replies"])
p("C05","A followed authorisation completes, also over provider outages",
  "When the user completes the outstanding authorisation request and the provider eventually answers the code exchange validly, the account ends up with exactly the issued tokens: the exchange is retried over connection failures (about ten attempts, six seconds apart), and status queries, notifications, activity on other accounts, and reloads that keep the account never make the result get lost. If all attempts fail the user is told.",
  ["schedules","fault_sequences","histories"],"all outage lengths within the retry budget and all interleavings of the exchange with other activity on the account",
  "Requires an OAuth provider, network faults, minutes of time and concurrent threads.",
  [S+"http_server.rs",S+"notifier.rs",S+"state.rs"],[("RETRY_POST / RETRY_DELAY loop","src/server/http_server.rs"),("pending state lookup","src/server/state.rs: act_id_matching_token_state")],[],["CLI replies","token endpoint requests","event commands"])
p("C06","Only the genuine redirect of the outstanding request is acted upon",
  "The server sends a code to an account's token endpoint only in response to an incoming request on the redirect listener whose state is that of the account's currently outstanding authorisation request and whose scheme, host and port match the account's redirect URI, and the exchange carries that request's code, PKCE verifier, client credentials and redirect URI. Any other request (unknown, superseded or missing state, wrong scheme/host/port, missing code, malformed HTTP) causes no exchange and leaves every account's state unchanged.",
  ["inputs","histories","schedules"],"all request mutations, all histories of superseded authorisation requests, both listeners",
  "No test opens a listener or makes a request.",
  [S+"http_server.rs",S+"state.rs",S+"request_token.rs"],[("request / parse_get","src/server/http_server.rs"),("act_id_matching_token_state","src/server/state.rs")],[],["browser replies","token endpoint requests","CLI replies"])
p("C07","Every authorisation URL is fresh and faithful to the configuration",
  "Every new authorisation URL uses an unpredictable, never reused state and PKCE challenge (S256 of the verifier later sent), names the account's auth_uri, client_id, scopes, extra auth_uri_fields and a redirect_uri with the port actually listened on, and asks for an offline code. Repeated shows of a pending account return the same outstanding URL, whereas an explicit refresh replaces it with a fresh one.",
  ["histories","configurations","schedules"],"all account definitions and all orders of show, refresh, revoke and reload requests",
  "No test builds an authorisation URL.",
  [S+"request_token.rs",S+"mod.rs","src/config.rs"],[("request_token","src/server/request_token.rs"),("Account::redirect_uri","src/config.rs")],[],["CLI replies","token endpoint requests"])
p("C08","Tokens are refreshed in time",
  "While the server runs and the provider answers, every active token that has a refresh token and a lifetime longer than refresh_before_expiry is refreshed no later than shortly after the earlier of (expiry minus refresh_before_expiry) and (obtained plus refresh_at_least), with account settings overriding global ones and defaults of 90 s and 90 min, so that the user always sees an unexpired token. This also holds after a restore, after a reload changes the settings, after failed attempts, and within about 37 seconds of resuming from suspend.",
  ["schedules","histories","configurations","fault_sequences"],"all token lifetimes longer than refresh_before_expiry, settings, restores, reloads, suspends and thread schedules",
  "Liveness over hours of time with condition variables and wake-ups; no test starts the refresher.",
  [S+"refresher.rs",S+"mod.rs","src/config.rs"],[("refresh_at / next_wakeup / refresher loop","src/server/refresher.rs"),("MAX_WAIT_SECS","src/server/mod.rs")],[],["token endpoint requests","CLI replies"])
p("C09","Refreshing never hammers the provider",
  "Without an explicit user request, a token is not refreshed before its refresh time, and failed refreshes are retried no sooner than refresh_retry after the previous attempt. A token whose lifetime is not longer than refresh_before_expiry is not refreshed in a tight loop but at most about once per refresh_retry. No schedule, notification, reload or clock change makes the server send bursts of refresh requests.",
  ["schedules","histories","configurations","fault_sequences"],"all settings, token lifetimes (including very short), failures and wake-up patterns",
  "Rate properties over simulated hours and failing providers.",
  [S+"refresher.rs"],[("refresh_at","src/server/refresher.rs"),("last_refresh_attempt","src/server/state.rs: TokenState::Active")],[],["token endpoint requests"])
p("C10","One refresh at a time, with the newest refresh token",
  "For each account's current token at most one refresh is in flight at any instant however many refresh and show requests, wake-ups and reloads happen (the refresh of a since revoked or replaced token does not count). Each refresh sends the newest refresh token received (a reply without one keeps the old, a reply with one replaces it, and a refused or superseded attempt never overwrites a newer token).",
  ["schedules","histories","fault_sequences"],"all interleavings of user-requested and scheduled refreshes with slow providers",
  "Requires overlapping threads and a stateful provider.",
  [S+"refresher.rs",S+"state.rs"],[("ongoing_refresh","src/server/state.rs"),("sched_refresh / inner_refresh","src/server/refresher.rs")],[],["token endpoint requests"])
p("C11","Transient refresh failures never lose a token",
  "Connection, DNS and I/O failures while refreshing keep the token and its refresh token, keep show working until expiry, and are retried until the provider is reachable again, when the token is refreshed. Only if transient_error_if_cmd is configured is the token given up: the command is consulted on every sixth consecutive failure, and only its failure or three-minute timeout invalidates the token (once, with an invalidation event).",
  ["fault_sequences","schedules","histories"],"all kinds, positions and lengths of transport failure sequences, and all outcomes of the command",
  "Requires injected network faults and child processes over minutes.",
  [S+"refresher.rs"],[("RefreshKind::TransitoryError","src/server/refresher.rs"),("TRANSIENT_ERROR_RETRIES / run_not_transient_error_if","src/server/refresher.rs")],[],["token endpoint requests","commands run","CLI replies"])
p("C12","A refused refresh invalidates the token and says so",
  "When the provider definitively refuses a refresh (HTTP error status, OAuth error, malformed or unusable reply), or a token without a refresh token has expired, the token is dropped: it is never shown or used again, the next show starts a new authorisation, and exactly one token_invalidated event is produced for it. A refusal of an obsolete refresh never affects a newer token.",
  ["schedules","fault_sequences","histories"],"all refusal shapes and all interleavings with revoke, reload and new authorisations",
  "Requires provider replies and concurrent state changes.",
  [S+"refresher.rs"],[("RefreshKind::PermanentError / NoRefreshToken","src/server/refresher.rs")],[],["CLI replies","event commands","token endpoint requests"])
p("C13","Token events are delivered exactly once, in order, one at a time",
  "With token_event_cmd configured, every token obtained, refreshed, invalidated or revoked runs the command exactly once with that account and event name, in the order the changes happened, with at most one such command running at a time. A command that fails, cannot be started or hangs (it is killed after a bounded time) delays but never loses or reorders later events. What happens while no token_event_cmd is configured is not announced, neither then nor later.",
  ["schedules","fault_sequences","histories"],"all interleavings of several accounts' token changes and all command outcomes",
  "Requires threads, processes and time.",
  [S+"eventer.rs",S+"http_server.rs",S+"refresher.rs",S+"mod.rs"],[("event_queue / eventer loop","src/server/eventer.rs"),("token_event","src/server/eventer.rs")],[],["commands run"])
p("C14","State saved by the event command survives a crash",
  "A `pizauth dump` taken by (or after) a token event command contains at least the token change that triggered the event, so restoring the last completed dump after a crash at any instant recovers every token whose event command had completed by then. A dump is always a consistent snapshot that decodes and restores successfully.",
  ["crash_points","schedules","histories"],"all crash instants and all interleavings of token changes, event commands and dumps",
  "Crash and restart with persistent dumps cannot be exercised in a unit test.",
  [S+"state.rs",S+"eventer.rs",S+"http_server.rs",S+"refresher.rs"],[("state is replaced before token_event is queued","src/server/http_server.rs, src/server/refresher.rs"),("dump under the lock","src/server/state.rs")],[],["dump","commands run","CLI replies after restart"])
p("C15","Restore never overrides live tokens nor accepts bad dumps",
  "Restore gives a dumped token only to accounts that have no token and whose security-relevant settings equal those recorded in the dump; it never replaces or removes an existing token, and ignores unknown accounts. Truncated, corrupted, foreign or incompatible-version input is rejected with an error reported to the client and changes nothing.",
  ["inputs","histories","schedules"],"all corruptions of dumps, all current states, configurations and concurrent activity",
  "The single dump/restore test uses one fixed in-memory state.",
  [S+"state.rs","src/config.rs"],[("LockedState::restore","src/server/state.rs"),("Account::secure_restorable","src/config.rs")],[],["CLI replies","dump"])
p("C16","Dump and restore round-trip across restarts",
  "Dumping, stopping the server, starting it again (also after a reboot, with new time origins) and restoring yields for every unchanged account the same access token, refresh token and, up to clock changes in between, the same obtained and expiry times; refreshing then continues as scheduled. Pending authorisations are not carried over, and the dump contains no plain-text secret.",
  ["histories","crash_points","configurations"],"all account states, down times and boot-clock origins",
  "The unit test restores within one process with one clock origin.",
  [S+"state.rs"],[("TokenState::dump / restore","src/server/state.rs"),("ChaCha20Poly1305 wrapping","src/server/state.rs")],[],["dump","CLI replies","token endpoint requests"])
p("C17","Pending authorisations are announced promptly and repeated",
  "If auth_notify_cmd is configured, a newly pending authorisation runs it promptly with the account and its current URL, and again every auth_notify_interval while that authorisation stays pending. It is never run for accounts that are not pending or with a superseded URL, and a slow or failing command delays nothing else.",
  ["schedules","histories","configurations","fault_sequences"],"all interleavings of requests, completions, reloads, suspends and command outcomes",
  "Requires the notifier thread, time and processes.",
  [S+"notifier.rs",S+"request_token.rs"],[("notifier loop / notify_at","src/server/notifier.rs")],[],["commands run"])
p("C18","No input, fault or timing brings the server down",
  "Whatever bytes clients, browsers and providers send, whenever connections break, system calls fail transiently, commands fail or numbers are extreme, the server process neither exits, aborts nor deadlocks. Afterwards it still answers status, show and redirects correctly.",
  ["inputs","fault_sequences","schedules"],"all inputs on the control socket, the redirect listeners and from providers, with all recoverable system-call faults and clock values",
  "Release builds abort on panic, so any reachable panic in any thread kills the server; tests never run it.",
  [S+"mod.rs",S+"http_server.rs",S+"refresher.rs",S+"notifier.rs",S+"eventer.rs"],[("per-connection error handling","src/server/mod.rs, src/server/http_server.rs")],[],["process exit","CLI replies"])
p("C19","Slow parties block only themselves",
  "A stalled, slow or unreachable provider, browser connection, notification command, event command or other account's exchange or refresh never delays replies to show, status, refresh, revoke, reload or dump, nor another account's authorisation or refresh, by more than scheduling overhead.",
  ["schedules","fault_sequences","histories"],"all combinations of stalled parties and concurrent requests",
  "Blocking shows only with stalled peers and concurrent clients.",
  [S+"mod.rs",S+"http_server.rs",S+"refresher.rs",S+"notifier.rs",S+"eventer.rs"],[("lock dropped before network and process work","src/server/*.rs"),("thread per connection / refresh / command","src/server/*.rs")],[],["reply latency","token endpoint requests"])
p("C20","Incoming HTTP requests are read up to a small bound only",
  "The redirect listeners never buffer more than a small bound (the documented 16 KiB limit plus one read buffer) of one request, however the bytes are split into lines and packets; a larger request is answered with an error, closed, and has no other effect.",
  ["inputs","schedules"],"all request shapes and packetisations",
  "No test feeds a request.",
  [S+"http_server.rs"],[("MAX_HTTP_REQUEST_SIZE","src/server/http_server.rs: parse_get")],[],["bytes consumed from the connection","browser replies"])
p("C21","Secrets go only where they must",
  "Access tokens, refresh tokens, client secrets, authorisation codes and PKCE verifiers are sent only to the owning account's token_uri, and appear otherwise only in the reply to show (access token) and, encrypted, in dumps. They never appear in logs at any verbosity, command arguments or environments, status or info output, or replies to browsers.",
  ["histories","fault_sequences","configurations"],"all flows and failure paths, all log levels, several accounts and providers",
  "Needs a global view of all outputs over whole histories.",
  [S+"http_server.rs",S+"refresher.rs",S+"notifier.rs",S+"mod.rs"],[("per-account token_uri","src/server/http_server.rs, src/server/refresher.rs")],[],["all outputs of the process"])
p("C22","One server instance, clean takeover, kept socket",
  "Starting a server while one is running fails without disturbing it, whereas a socket left by a dead server is taken over; shutdown ends the server; the socket's directory is private to the user before the socket exists. While the server runs (detached or not) the socket's timestamps are refreshed at least every six hours.",
  ["crash_points","histories","schedules"],"all crash points of the previous server, both run modes, long run times",
  "Requires processes, a file system and hours of time.",
  ["src/main.rs",S+"mod.rs"],[("socket probe and unlink","src/main.rs"),("utimensat thread","src/main.rs"),("cache_path permissions","src/main.rs")],[],["file system","process exit","CLI replies"])
p("C23","The CLI reports success only for what the server confirmed",
  "Each pizauth client command exits 0 and prints the server's answer to stdout only if it received a complete successful reply; if the server is absent, refuses, reports an error or pending authorisation, or the connection breaks or the reply is malformed or empty, it exits non-zero with a message on stderr and prints nothing to stdout. A show never prints anything but the complete token. Each command sends the server exactly the request its arguments and standard input stand for, and info prints what the server reported about itself, or that no server is running. A command whose output cannot be written completely to stdout does not exit 0.",
  ["fault_sequences","inputs"],"all commands, arguments, replies and connection and output fault points, with short reads and writes",
  "No test runs a client command or breaks a connection.",
  ["src/user_sender.rs","src/main.rs"],[("reply matching","src/user_sender.rs")],[],["exit status","stdout","stderr"])
p("C24","Wall-clock changes do not matter, suspends do",
  "Jumps of the wall clock in either direction never change when tokens are considered expired, when refreshes, retries and notifications happen, or which token is shown. Time spent suspended counts towards expiry, so a token that expired during a suspend is never shown as valid afterwards.",
  ["histories","schedules","fault_sequences"],"all sequences of clock jumps and suspends at any point",
  "Clocks cannot be controlled in a unit test.",
  [S+"mod.rs",S+"refresher.rs",S+"notifier.rs"],[("boot_time::Instant everywhere","src/server/*.rs")],[],["CLI replies","token endpoint requests","commands run"])
p("C25","Status is a complete, consistent, truthful snapshot",
  "`pizauth status` lists every configured account exactly once, in order of name, with the kind of state it really has at one instant (no token, pending, active with obtained and expiry times, expired) and correct times. It never changes any state.",
  ["schedules","histories","configurations"],"all concurrent activity and account sets",
  "Depends on concurrent updates and clocks.",
  [S+"mod.rs"],[("status command under the lock","src/server/mod.rs")],[],["CLI replies"])
p("C26","A failed authorisation is reported once and ends the request",
  "If an authorisation fails (provider or browser reports an error, the exchange is refused, malformed, unusable, or unreachable through all attempts), the error_notify_cmd is run (or, if unset, an error logged) exactly once with the account and the reason, the account leaves the pending state, and the next show starts a fresh request. A failure belonging to a superseded, revoked or reconfigured request is not reported and changes nothing.",
  ["schedules","fault_sequences","histories"],"all failure kinds and all interleavings with notifications, refreshes, revokes and reloads",
  "Requires provider faults and concurrency.",
  [S+"http_server.rs",S+"notifier.rs"],[("fail","src/server/http_server.rs"),("notify_error","src/server/notifier.rs")],[],["commands run","log","CLI replies"])
p("C27","Configuration text means the same whatever its layout",
  "What the server does under a configuration (commands run, notification and refresh times, listeners, authorisation URLs, token requests) is what the text says as documented in pizauth.conf(5), at start-up and on reload: whatever the order of options and accounts, white space, comments, equivalent times (90s, 1m; s/m/h/d), escapes in strings and omitted optional settings (documented defaults; account settings override global ones), and however the file's bytes arrive (short or interrupted reads). Text that is no valid configuration (syntax errors, unknown or repeated options, wrong kinds of value, missing mandatory options, invalid or non-HTTP(S) URIs, over-large times, no account, both listeners off, login_hint given twice), or a file that cannot be read completely, is rejected as a whole: a server does not start with it (its command fails) and a reload of it reports an error and changes nothing.",
  ["inputs","configurations","fault_sequences","histories"],"all configuration texts, read at start-up or by a reload at any moment, with short, interrupted and failing reads",
  "Only samples of the grammar are parsed; none is executed.",
  ["src/config.rs","src/config.l","src/config.y",S+"mod.rs"],[("Config::from_path / from_str","src/config.rs"),("reload command","src/server/mod.rs")],[],["commands run","authorisation URLs","token requests","refresh times","bound sockets","CLI replies","exit status"])
p("C28","Listeners are as configured and as reported",
  "The server listens for redirects on exactly the HTTP and HTTPS addresses configured when it was started (none for one that is turned off), and goes on doing so whatever is reloaded; `pizauth info` reports exactly these ports (or none) and the public key of the certificate the HTTPS listener shows. Every authorisation URL names a redirect URI one of the running listeners serves: a configuration with an account whose redirect needs a listener that is not running is rejected, at start-up and on reload. If a configured address cannot be bound the server does not start, and fails as a command when it was not to detach.",
  ["configurations","histories","fault_sequences"],"all combinations of listeners (defaults, fixed, off), redirect schemes in any case, reloads that change either, and bind failures",
  "No test starts a server; what a reload may change while the listeners cannot needs a running one.",
  ["src/server/mod.rs",S+"http_server.rs","src/config.rs"],[("http_server_setup / https_server_setup","src/server/http_server.rs"),("check_redirect_uris","src/config.rs"),("info command","src/server/mod.rs")],
  [("http_port, https_port","ports bound at start-up","src/server/state.rs: AuthenticatorState")],["bound sockets","info","authorisation URLs","exit status"])
p("C29","Control requests are answered, and what they promise happens",
  "Every well-formed show, refresh, revoke, reload, restore, status, info or dump request that reaches the server whole, however it is split into pieces and whatever goes on meanwhile, gets exactly one complete reply of the documented form, which agrees with the account's state at some moment while the request was handled; a request that names no configured account (names are compared exactly) gets an error and changes nothing. Authorisation URLs are in the reply exactly when they were asked for. When the reply to `refresh` is that a refresh is scheduled, or the reply to `show` that one has been initiated, an attempt is under way or is begun at once, unless the token is revoked, dropped or reloaded away first or has no refresh token.",
  ["schedules","inputs","histories","fault_sequences"],"all requests with and without -u, for existing accounts in every state and for names that come close to one, arriving one by one, together and in pieces, with short reads and writes, among reloads and in-flight refreshes",
  "No test opens the control socket; what a reply promises shows only in the refresher thread's later provider traffic.",
  [S+"mod.rs",S+"refresher.rs","src/user_sender.rs"],[("request","src/server/mod.rs"),("sched_refresh","src/server/refresher.rs"),("client side","src/user_sender.rs")],
  [],["control socket replies","token endpoint requests"])
p("C30","An idle server sleeps",
  "Whenever nothing is to be done - no request or redirect is being handled, no refresh, reminder or event command is due - every thread of the server waits without using the processor, and wakes up only now and then to look at the clock. No configuration (commands or listeners that are missing, times of any size), token lifetime, failure, clock change or history of requests makes a thread run on and on without any effect.",
  ["configurations","histories","fault_sequences","schedules"],"all settings of times and commands, lifetimes, failures, clock changes and histories",
  "No test starts a server; a thread that spins still gives right answers.",
  [S+"refresher.rs",S+"notifier.rs",S+"eventer.rs",S+"http_server.rs"],[("refresher / refresh_at / next_wakeup","src/server/refresher.rs"),("notifier / next_wakeup","src/server/notifier.rs"),("eventer","src/server/eventer.rs")],
  [("pred","'something changed' flag of each background thread","src/server/refresher.rs: Refresher")],["processor time used"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
