//! The properties: which scenarios are searched and which oracles judge them.
use crate::checks::*;
use crate::checks2::*;
use crate::checks3::*;
use crate::gen::B;
use crate::hist::*;
use crate::scen::*;
use crate::Viol;
use model::*;

pub struct Prop {
    pub id: &'static str,
    /// weight, name, generator
    pub gens: &'static [(u64, &'static str, fn(&mut B))],
    /// kinds of the reference model that concern the property ("*": all)
    pub refm: &'static [&'static str],
    pub checks: &'static [fn(&H) -> Vec<Viol>],
    /// oracles whose verdicts count only if they need what `without` takes away
    pub soft: &'static [fn(&H) -> Vec<Viol>],
    pub without: Option<fn(&Case) -> Option<Case>>,
    pub nontrivial: fn(&H) -> bool,
    pub rule: &'static str,
}

pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
pub fn props() -> &'static [Prop] {
    PROPS
}

const ALL: &[&str] = &["*"];

static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        gens: &[
            (3, "revoke-swarm", c01_swarm),
            (4, "revoke-window", c01_window),
            (2, "revoke-transient", c01_transient),
            (2, "revoke-notify", c01_notify),
        ],
        refm: ALL,
        checks: &[c01],
        soft: &[],
        without: Some(no_revokes),
        nontrivial: |h| revoked_in_flight(h),
        rule: "Non-trivial: a revocation was answered ok while a refresh, exchange, notification command or transient_error_if_cmd of the account was under way, or its authorisation was pending.",
    },
    Prop {
        id: "C02",
        gens: &[(3, "reload-swarm", c02_swarm), (4, "reload-window", c02_window), (2, "reload-there-and-back", c02_aba)],
        refm: ALL,
        checks: &[c02],
        soft: &[],
        without: Some(no_sec_reloads),
        nontrivial: |h| !reload_barriers(h).is_empty() && !h.reqs.is_empty(),
        rule: "Non-trivial: a successful reload changed or removed an account in a security-relevant way and a token request was made.",
    },
    Prop {
        id: "C03",
        gens: &[(4, "reload-kept", c03_swarm), (3, "reload-kept-window", c03_window), (2, "reload-refused", c03_bad)],
        refm: ALL,
        checks: &[c03],
        soft: &[deadlines, notify],
        without: Some(no_reloads),
        nontrivial: |h| h.ops.values().any(|o| matches!(o.cmd(), Some(Cmd::Reload)) && o.answered()) && !h.reqs.is_empty(),
        rule: "Non-trivial: a reload was answered and a token request was made.",
    },
    Prop {
        id: "C04",
        gens: &[(3, "shows", c04_swarm), (3, "expiry-instants", c04_expiry), (2, "failing-refresh", c04_failing), (1, "crowd", many_accounts)],
        refm: &["show-wrong", "expired-token", "foreign-token", "lost-token", "stale-token", "refresh-wrong"],
        checks: &[show_replies],
        soft: &[],
        without: None,
        nontrivial: |h| h.ops.values().any(|o| o.answered() && o.text().starts_with("access_token:")),
        rule: "Non-trivial: a show printed a token.",
    },
    Prop {
        id: "C05",
        gens: &[(4, "outage", c05_outage), (3, "busy", c05_busy)],
        refm: ALL,
        checks: &[exchanges],
        soft: &[],
        without: None,
        nontrivial: |h| h.tries.len() > 1 && h.reqs.iter().any(|r| r.is_code()),
        rule: "Non-trivial: a code exchange reached the provider and more than one connection was attempted.",
    },
    Prop {
        id: "C06",
        gens: &[
            (4, "bogus-redirects", c06_muts),
            (3, "superseded-redirects", c06_prev),
            (2, "junk-requests", c06_junk),
            (1, "https-redirects", c06_https),
        ],
        refm: ALL,
        checks: &[c06],
        soft: &[],
        without: Some(no_bogus),
        nontrivial: |h| h.ops.values().any(|o| bogus(&o.kind) && o.rep.is_some()) && h.reqs.iter().any(|r| r.is_code()),
        rule: "Non-trivial: a bogus redirect was answered and a code exchange was made.",
    },
    Prop {
        id: "C07",
        gens: &[(3, "urls", c07_urls), (2, "same-clock-restart", c07_restart), (1, "https-urls", c07_https), (1, "listeners", c28_listen)],
        refm: &["url-changed", "url-reused"],
        checks: &[urls],
        soft: &[],
        without: None,
        nontrivial: |h| h.urls.len() > 1,
        rule: "Non-trivial: more than one authorisation URL was made.",
    },
    Prop {
        id: "C08",
        gens: &[
            (3, "hours", c08_hours),
            (2, "many-accounts", c08_many),
            (2, "settings-reloaded", c08_reload),
            (2, "restored", c08_restored),
            (2, "suspended", c08_suspend),
            (2, "retries", c08_retries),
            (1, "lone-token", c08_lone),
            (1, "crowd", many_accounts),
        ],
        refm: &["overdue"],
        checks: &[deadlines],
        soft: &[],
        without: None,
        nontrivial: |h| h.reqs.iter().any(|r| r.is_refresh()),
        rule: "Non-trivial: a refresh request reached the provider.",
    },
    Prop {
        id: "C09",
        gens: &[
            (2, "hours", c08_hours),
            (3, "short-lifetimes", c09_short),
            (3, "failing-provider", c09_failing),
            (2, "wakeups", c09_wakeups),
            (1, "restored", c08_restored),
        ],
        refm: &["refresh-unexpected"],
        checks: &[no_hammering],
        soft: &[],
        without: None,
        nontrivial: |h| h.reqs.iter().any(|r| r.is_refresh()) || h.tries.len() > 3,
        rule: "Non-trivial: a refresh was attempted.",
    },
    Prop {
        id: "C10",
        gens: &[(4, "refresh-storm", c10_storm), (3, "slow-refresh", c10_slow), (2, "rotating-tokens", c10_rotate)],
        refm: &["refresh-wrong-rt", "refresh-wrong", "refresh-unexpected", "show-wrong", "lost-token", "event-invalidated"],
        checks: &[one_at_a_time],
        soft: &[],
        without: None,
        nontrivial: |h| h.reqs.iter().filter(|r| r.is_refresh()).count() > 1,
        rule: "Non-trivial: at least two refresh requests reached the provider.",
    },
    Prop {
        id: "C11",
        gens: &[(4, "transient", c11_plain), (4, "transient-cmd", c11_cmd), (2, "outage-ends", c11_outage)],
        refm: ALL,
        checks: &[transient],
        soft: &[deadlines],
        without: Some(no_trans),
        nontrivial: |h| h.tries.iter().filter(|t| t.req.map_or(true, |r| h.class(&h.reqs[r]) == Class::Trans)).count() > 1,
        rule: "Non-trivial: more than one attempt failed transiently.",
    },
    Prop {
        id: "C12",
        gens: &[(3, "refused", c12_refused), (3, "no-refresh-token", c12_nort), (3, "refused-races", c12_races), (1, "far-expiries", far_expiries)],
        refm: ALL,
        checks: &[refused],
        soft: &[],
        without: Some(no_refusals),
        nontrivial: |h| h.spawns.iter().any(|p| p.event == "token_invalidated") || h.reqs.iter().any(|r| r.is_refresh() && h.class(r) == Class::Perm),
        rule: "Non-trivial: a refresh was refused or a token was invalidated.",
    },
    Prop {
        id: "C13",
        gens: &[(3, "events", c13_events), (3, "event-cmd-outcomes", c13_outcomes), (2, "event-order", c13_order), (2, "hanging-event-cmd", c13_hang), (1, "event-backlog", c13_backlog), (2, "close-events", c13_close), (2, "event-cmd-unset", c13_unset), (1, "crowd", many_accounts)],
        refm: &["event-wrong", "event-invalidated", "event-missing"],
        checks: &[events, event_unset],
        soft: &[],
        without: None,
        nontrivial: |h| h.spawns.iter().filter(|p| p.kind == "N3").count() > 1,
        rule: "Non-trivial: at least two token events were announced.",
    },
    Prop {
        id: "C14",
        gens: &[(4, "crash", c14_crash), (2, "event-dumps", c14_dumps), (2, "dump-rounds", c14_rounds), (1, "crowd", many_accounts)],
        refm: &["dump-wrong", "restore-wrong", "event-wrong", "event-missing"],
        checks: &[crash_recovery, event_dumps, torn_dump],
        soft: &[],
        without: None,
        nontrivial: |h| h.spawns.iter().any(|p| p.kind == "N3") && !h.dumps.is_empty(),
        rule: "Non-trivial: an event command ran and a dump was stored.",
    },
    Prop {
        id: "C15",
        gens: &[(3, "bad-dumps", c15_bad), (4, "restores", c15_restores), (2, "crafted-dumps", c15_crafted), (2, "restore-window", c15_window)],
        refm: ALL,
        checks: &[restores],
        soft: &[],
        without: Some(no_restores),
        nontrivial: |h| h.ops.values().any(|o| matches!(o.cmd(), Some(Cmd::Restore(_))) && o.answered()),
        rule: "Non-trivial: a restore was answered.",
    },
    Prop {
        id: "C16",
        gens: &[(4, "restart", c16_restart), (2, "many-states", c16_states)],
        refm: &["restore-wrong", "dump-wrong", "event-missing", "event-wrong", "lost-token", "status-wrong", "show-wrong"],
        checks: &[roundtrip, dumps_clean],
        soft: &[deadlines],
        without: None,
        nontrivial: |h| h.starts.len() > 1 && h.ops.values().any(|o| matches!(o.cmd(), Some(Cmd::Restore(_))) && o.ok()),
        rule: "Non-trivial: a dump was restored in a later life of the server.",
    },
    Prop {
        id: "C17",
        gens: &[(4, "announcements", c17_announce), (2, "notify-outcomes", c17_outcomes), (2, "notify-suspend", c17_suspend), (1, "crowd", many_accounts)],
        refm: &[],
        checks: &[notify],
        soft: &[],
        without: None,
        nontrivial: |h| h.spawns.iter().filter(|p| p.kind == "N1").count() > 1,
        rule: "Non-trivial: auth_notify_cmd ran more than once.",
    },
    Prop {
        id: "C18",
        gens: &[
            (3, "raw-clients", c18_cli),
            (3, "raw-browsers", c18_http),
            (3, "raw-providers", c18_prov),
            (4, "system-calls", c18_calls),
            (2, "extremes", c18_extremes),
            (3, "everything", c18_all),
            (1, "no-resources", c18_resources),
        ],
        refm: &[],
        checks: &[survives, answers],
        soft: &[],
        without: None,
        nontrivial: |h| h.evs.len() > 30,
        rule: "Non-trivial: more than 30 events were recorded.",
    },
    Prop {
        id: "C19",
        gens: &[(4, "slow-parties", c19_slow), (3, "slow-commands", c19_cmds), (1, "stalled-cli", c19_cli)],
        refm: &[],
        checks: &[prompt, deadlines, notify, exchanges],
        soft: &[],
        without: None,
        nontrivial: |h| h.ops.values().filter(|o| o.answered()).count() > 3,
        rule: "Non-trivial: more than three requests were answered while some party was slow.",
    },
    Prop {
        id: "C20",
        gens: &[(4, "sizes", c20_sizes), (2, "packets", c20_packets), (1, "tls-sizes", c20_tls)],
        refm: &[],
        checks: &[http_bounds],
        soft: &[],
        without: None,
        nontrivial: |h| h.ops.values().any(|o| o.nsent > 2000),
        rule: "Non-trivial: a request of more than 2000 bytes was sent.",
    },
    Prop {
        id: "C21",
        gens: &[(4, "flows", c21_flows), (2, "failures", c21_failures), (1, "https-flows", c21_https), (1, "odd-input", c21_odd)],
        refm: &[],
        checks: &[leaks],
        soft: &[],
        without: None,
        nontrivial: |h| h.reqs.len() > 1,
        rule: "Non-trivial: more than one token request was made.",
    },
    Prop {
        id: "C22",
        gens: &[(3, "crash-restart", c22_restart), (2, "second", c22_second), (2, "long", c22_long), (2, "stops", c22_stop)],
        refm: &[],
        checks: &[instance],
        soft: &[],
        without: None,
        nontrivial: |h| h.evs.len() > 4,
        rule: "Non-trivial: more than four events were recorded.",
    },
    Prop {
        id: "C23",
        gens: &[(4, "replies", c23_replies), (3, "breaks", c23_breaks), (2, "client-faults", c23_faults), (2, "lines", c23_lines), (1, "restores", c23_restores)],
        refm: &[],
        checks: &[clients],
        soft: &[],
        without: None,
        nontrivial: |h| !h.exits.is_empty(),
        rule: "Non-trivial: the client command ended.",
    },
    Prop {
        id: "C24",
        gens: &[(4, "clock-jumps", c24_wall), (4, "suspends", c24_suspend), (2, "both", c24_both)],
        refm: ALL,
        checks: &[],
        soft: &[deadlines, no_hammering, notify, show_replies],
        without: Some(no_clocks),
        nontrivial: |h| h.evs.iter().any(|e| matches!(e.e, E::Wall { .. } | E::Suspend { .. })) && !h.reqs.is_empty(),
        rule: "Non-trivial: the clock jumped or the machine was suspended, and a token request was made.",
    },
    Prop {
        id: "C25",
        gens: &[(4, "status", c25_status), (2, "status-accounts", c25_accounts), (2, "status-window", c25_window), (3, "status-rounds", c25_rounds), (2, "expiry-instants", c25_expiry), (1, "crowd", many_accounts)],
        refm: ALL,
        checks: &[statuses, torn_status, status_times],
        soft: &[],
        without: Some(no_status),
        nontrivial: |h| h.ops.values().any(|o| matches!(o.cmd(), Some(Cmd::Status)) && o.answered()),
        rule: "Non-trivial: a status was answered.",
    },
    Prop {
        id: "C26",
        gens: &[(4, "failures", c26_failures), (3, "failure-races", c26_races), (2, "no-error-cmd", c26_log), (1, "failure-after-restore", c26_restored), (1, "far-expiries", far_expiries)],
        refm: &["error-missing", "error-unexpected", "error-ignored", "show-wrong", "event-wrong", "event-invalidated", "status-wrong", "url-reused", "url-changed", "exchange-missing"],
        checks: &[failures],
        soft: &[],
        without: Some(no_failures),
        nontrivial: |h| h.spawns.iter().any(|p| p.kind == "N2") || h.evs.iter().any(|e| matches!(&e.e, E::Log { text, .. } if text.contains("failed"))),
        rule: "Non-trivial: a failed authorisation was reported.",
    },
    Prop {
        id: "C27",
        gens: &[(3, "layouts", c27_meaning), (2, "no-configuration", c27_refused)],
        refm: &["reload-wrong", "url-changed", "url-reused", "lost-token", "refresh-unexpected", "overdue", "event-wrong", "error-missing"],
        checks: &[reload_replies, unserved, cmd_texts, urls, req_defs, listeners, answers],
        soft: &[deadlines, notify, no_hammering],
        without: None,
        nontrivial: |h| h.urls.len() > 0 || h.case.notes.contains_key("bad-listen"),
        rule: "Non-trivial: an authorisation URL was made, or the server was started with a text to refuse.",
    },
    Prop {
        id: "C28",
        gens: &[(3, "listeners", c28_listen), (1, "listeners-refused", c28_refused)],
        refm: &["reload-wrong"],
        checks: &[listeners, unserved, reload_replies, answers],
        soft: &[],
        without: None,
        nontrivial: |h| h.ops.values().any(|o| matches!(o.cmd(), Some(Cmd::Info)) && o.answered()) || h.case.notes.contains_key("bad-listen"),
        rule: "Non-trivial: the server said what it listens on, or was started with a configuration to refuse.",
    },
    Prop {
        id: "C29",
        gens: &[(4, "requests", c29_swarm), (3, "accounts", c29_accounts), (3, "refreshes", c29_refresh), (2, "pieces", c29_pieces), (1, "crowd", many_accounts)],
        refm: &["show-wrong", "refresh-wrong", "revoke-wrong", "reload-wrong", "restore-wrong", "status-wrong", "reply-wrong"],
        checks: &[requests, scheduled],
        soft: &[],
        without: None,
        nontrivial: |h| h.ops.values().filter(|o| o.cmd().is_some() && o.answered()).count() > 3,
        rule: "Non-trivial: more than three control requests were answered.",
    },
    Prop {
        id: "C30",
        gens: &[(10, "quiet", c30_quiet), (1, "c01-swarm", c01_swarm), (1, "c02-swarm", c02_swarm), (1, "c03-swarm", c03_swarm), (1, "c04-swarm", c04_swarm), (1, "c04-expiry", c04_expiry), (1, "c05-outage", c05_outage), (1, "c05-busy", c05_busy), (1, "c06-junk", c06_junk), (1, "c06-muts", c06_muts), (1, "c08-hours", c08_hours), (1, "c08-many", c08_many), (1, "c08-reload", c08_reload), (1, "c08-suspend", c08_suspend), (3, "c08-retries", c08_retries), (3, "c09-short", c09_short), (1, "c09-failing", c09_failing), (1, "c09-wakeups", c09_wakeups), (1, "c10-storm", c10_storm), (1, "c10-slow", c10_slow), (1, "c10-rotate", c10_rotate), (1, "c11-plain", c11_plain), (1, "c11-cmd", c11_cmd), (2, "c11-outage", c11_outage), (1, "c12-refused", c12_refused), (1, "c12-nort", c12_nort), (1, "c12-races", c12_races), (1, "c13-events", c13_events), (1, "c13-outcomes", c13_outcomes), (1, "c13-hang", c13_hang), (1, "c13-order", c13_order), (2, "c13-unset", c13_unset), (1, "c14-dumps", c14_dumps), (1, "c15-bad", c15_bad), (1, "c15-crafted", c15_crafted), (1, "c16-restart", c16_restart), (1, "c17-announce", c17_announce), (1, "c17-outcomes", c17_outcomes), (2, "c17-suspend", c17_suspend), (1, "c18-cli", c18_cli), (1, "c18-http", c18_http), (3, "c18-prov", c18_prov), (2, "c18-calls", c18_calls), (4, "c18-extremes", c18_extremes), (1, "c18-all", c18_all), (2, "c19-slow", c19_slow), (1, "c19-cmds", c19_cmds), (1, "c20-sizes", c20_sizes), (1, "c20-packets", c20_packets), (1, "c20-tls", c20_tls), (1, "c21-odd", c21_odd), (1, "c24-wall", c24_wall), (1, "c24-suspend", c24_suspend), (2, "c24-both", c24_both), (1, "c25-status", c25_status), (1, "c26-failures", c26_failures), (4, "far-expiries", far_expiries), (1, "c26-races", c26_races), (1, "c28-listen", c28_listen), (1, "c29-swarm", c29_swarm), (1, "c29-pieces", c29_pieces), (1, "many-accounts", many_accounts)],
        refm: &[],
        checks: &[idle],
        soft: &[],
        without: None,
        nontrivial: |h| h.ops.values().filter(|o| o.answered()).count() > 1,
        rule: "Non-trivial: more than one request was answered.",
    },
];

fn revoked_in_flight(h: &H) -> bool {
    revoke_barriers(h).iter().any(|b| {
        h.tries.iter().any(|t| t.q < b.r.0 && t.req.map_or(true, |r| h.reqs[r].acct == b.acct && h.reqs[r].done.map_or(true, |d| d.0 > b.a.0)) && t.t + 60 * SEC > b.a.1)
            || h.spawns.iter().any(|p| p.acct == b.acct && p.q < b.r.0 && p.end.map_or(true, |e| e.0 > b.a.0))
            || h.urls.iter().any(|u| u.acct == b.acct && u.q < b.a.0 && !h.reqs.iter().any(|r| r.is_code() && r.acct == b.acct && r.q > u.q && r.q < b.a.0))
    })
}
