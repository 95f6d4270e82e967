From 82f79ee27eed1493f44c33283f346230333f17de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 01/17] fix: report restore errors to the user

The error from LockedState::restore (undecodable dump, unknown dump version)
was silently dropped, so 'pizauth restore' claimed success.
---
 src/server/state.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/state.rs b/src/server/state.rs
index f0ebc24..9c0698b 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -136,8 +136,7 @@ impl AuthenticatorState {
             .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())
             .map_err(|_| "Restoring dump failed")?;
 
-        let lk = self.locked_state.lock().unwrap().restore(d);
-        drop(lk);
+        self.locked_state.lock().unwrap().restore(d)?;
         self.notifier.notify_changes();
         self.refresher.notify_changes();
         Ok(())
-- 
2.43.0


From f0a7d07dd4c2e7ef3c7ef58d9f9200b5e842f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 02/17] fix: don't discard an authentication because of a
 notification

The notifier replaced the tokenstate of each pending account, giving it a new
AccountId. If an authorisation code was being exchanged at that moment, the
token the OAuth server returned (or the error it reported) was silently
dropped and the account left pending with a code that can't be used again.
---
 src/server/notifier.rs | 10 ++++------
 src/server/state.rs    | 23 +++++++++++++++++++++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index f4b54fe..1e55b10 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -59,12 +59,11 @@ impl Notifier {
             let now = Instant::now();
             let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
             for act_id in ct_lk.act_ids().collect::<Vec<_>>() {
-                let mut ts = ct_lk.tokenstate(act_id).clone();
                 if let TokenState::Pending {
-                    ref mut last_notification,
-                    ref url,
+                    last_notification,
+                    url,
                     ..
-                } = ts
+                } = ct_lk.tokenstate(act_id)
                 {
                     if let Some(t) = last_notification {
                         if let Some(t) = t.checked_add(notify_interval) {
@@ -73,13 +72,12 @@ impl Notifier {
                             }
                         }
                     }
-                    *last_notification = Some(now);
                     let url = url.clone();
                     let act = ct_lk.account(act_id);
                     if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                         auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                     }
-                    ct_lk.tokenstate_replace(act_id, ts);
+                    ct_lk.tokenstate_set_last_notification(act_id, now);
                 }
             }
             drop(ct_lk);
diff --git a/src/server/state.rs b/src/server/state.rs
index 9c0698b..24e3555 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -379,6 +379,29 @@ impl<'a> CTGuard<'a> {
         unreachable!();
     }
 
+    /// If `act_id` is `Pending`, set `last_notification` to `now`. Notifying the user doesn't affect
+    /// whether authentication using `act_id` is still wanted, so -- unlike other changes to a
+    /// tokenstate -- `act_id` remains valid.
+    ///
+    /// # Panics
+    ///
+    /// If `act_id` is not valid or is not `Pending`.
+    pub fn tokenstate_set_last_notification(&mut self, act_id: AccountId, now: Instant) {
+        let ts = self
+            .guard
+            .details
+            .iter_mut()
+            .find(|x| x.1 == act_id)
+            .map(|x| &mut x.2)
+            .unwrap();
+        match ts {
+            TokenState::Pending {
+                last_notification, ..
+            } => *last_notification = Some(now),
+            _ => unreachable!(),
+        }
+    }
+
     /// Update the tokenstate for `act_id` to `new_tokenstate` returning a new [AccountId]
     /// valid for the new tokenstate, updating the tokenstate version.
     ///
-- 
2.43.0


From a5ee0c039d86d30f6f9b6e19edb04aeb455111a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 03/17] fix: don't report a token as invalidated if it no
 longer exists

If transient_error_if_cmd failed after the account's tokenstate had changed
(e.g. because the user revoked it or has since authenticated afresh) a
token_invalidated event was sent for a token that was not invalidated.
---
 src/server/refresher.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 00795ad..94bef9a 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -125,13 +125,13 @@ impl Refresher {
                                                                 act_id,
                                                                 TokenState::Empty,
                                                             );
+                                                            info!("Permanent refresh error for {act_name} : {e}");
+                                                            pstate.eventer.token_event(
+                                                                act_name,
+                                                                TokenEvent::Invalidated,
+                                                            );
                                                         }
                                                         drop(ct_lk);
-                                                        info!("Permanent refresh error for {act_name} : {e}");
-                                                        pstate.eventer.token_event(
-                                                            act_name,
-                                                            TokenEvent::Invalidated,
-                                                        );
                                                     }
                                                 };
                                             } else {
-- 
2.43.0


From 2be8dbcf6c57f6b63e1afdbc1f12d2bdd19d13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 04/17] fix: send token_invalidated when a token without a
 refresh token is dropped

---
 src/server/refresher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 94bef9a..4ce2235 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -71,7 +71,11 @@ impl Refresher {
                         let act_name = ct_lk.account(act_id).name.clone();
                         match refresher.inner_refresh(&pstate, ct_lk, act_id) {
                             RefreshKind::AccountOrTokenStateChanged => (),
-                            RefreshKind::NoRefreshToken => (),
+                            RefreshKind::NoRefreshToken => {
+                                pstate
+                                    .eventer
+                                    .token_event(act_name, TokenEvent::Invalidated);
+                            }
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
                                 pstate
-- 
2.43.0


From de8f9f50816e10f3b74c45d52c31d20d3d0e0570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 05/17] fix: send token events in the order the tokens changed

Events were queued after the lock protecting the tokenstate was released, so
that e.g. a token_refreshed event for a token could follow the token_revoked
event of the 'pizauth revoke' which removed that token.
---
 src/server/http_server.rs |  2 +-
 src/server/mod.rs         |  4 ++--
 src/server/refresher.rs   | 23 ++++++++++++++---------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index c232e0e..e166bc3 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -233,9 +233,9 @@ fn request<T: Read + Write>(
                     refresh_token: refresh_token.map(|x| x.to_owned()),
                 },
             );
+            pstate.eventer.token_event(act_name, TokenEvent::New);
             drop(ct_lk);
             pstate.refresher.notify_changes();
-            pstate.eventer.token_event(act_name, TokenEvent::New);
         }
         _ => {
             drop(ct_lk);
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 331bd7b..bad6ac5 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -175,11 +175,11 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
             match ct_lk.validate_act_name(act_name) {
                 Some(act_id) => {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                    drop(ct_lk);
-
                     pstate
                         .eventer
                         .token_event(act_name.to_owned(), TokenEvent::Revoked);
+                    drop(ct_lk);
+
                     stream.write_all(b"ok:")?;
                     return Ok(());
                 }
diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 4ce2235..76a5261 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -71,20 +71,12 @@ impl Refresher {
                         let act_name = ct_lk.account(act_id).name.clone();
                         match refresher.inner_refresh(&pstate, ct_lk, act_id) {
                             RefreshKind::AccountOrTokenStateChanged => (),
-                            RefreshKind::NoRefreshToken => {
-                                pstate
-                                    .eventer
-                                    .token_event(act_name, TokenEvent::Invalidated);
-                            }
+                            RefreshKind::NoRefreshToken => (),
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
-                                pstate
-                                    .eventer
-                                    .token_event(act_name, TokenEvent::Invalidated);
                             }
                             RefreshKind::Refreshed => {
                                 refresher.notify_changes();
-                                pstate.eventer.token_event(act_name, TokenEvent::Refresh);
                             }
                             RefreshKind::TransitoryError(act_id, msg) => {
                                 ct_lk = pstate.ct_lock();
@@ -218,6 +210,11 @@ impl Refresher {
         mut ct_lk: CTGuard,
         mut act_id: AccountId,
     ) -> RefreshKind {
+        // To ensure that the order of events matches the order of changes to the tokenstate, this
+        // must be called before the lock under which the tokenstate was changed is dropped.
+        let act_name = ct_lk.account(act_id).name.clone();
+        let token_event = |event| pstate.eventer.token_event(act_name.clone(), event);
+
         let mut new_ts = ct_lk.tokenstate(act_id).clone();
         let refresh_token = match new_ts {
             TokenState::Active {
@@ -233,6 +230,7 @@ impl Refresher {
                 }
                 None => {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     return RefreshKind::NoRefreshToken;
                 }
             },
@@ -273,6 +271,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     return RefreshKind::PermanentError(reason);
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
@@ -289,6 +288,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     return RefreshKind::PermanentError(e.to_string());
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
@@ -302,6 +302,7 @@ impl Refresher {
                     let mut ct_lk = pstate.ct_lock();
                     if ct_lk.is_act_id_valid(act_id) {
                         let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                        token_event(TokenEvent::Invalidated);
                         let msg =
                             format!("Refreshing {} failed: {}", ct_lk.account(act_id).name, e);
                         return RefreshKind::PermanentError(msg);
@@ -315,6 +316,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     let msg = format!("Refreshing {} failed: {e}", ct_lk.account(act_id).name);
                     return RefreshKind::PermanentError(msg);
                 } else {
@@ -341,6 +343,7 @@ impl Refresher {
                         Ok(x) => x,
                         Err(e) => {
                             ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                            token_event(TokenEvent::Invalidated);
                             return RefreshKind::PermanentError(format!("{e}"));
                         }
                     };
@@ -356,6 +359,7 @@ impl Refresher {
                             refresh_token,
                         },
                     );
+                    token_event(TokenEvent::Refresh);
                     drop(ct_lk);
                     RefreshKind::Refreshed
                 } else {
@@ -366,6 +370,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     RefreshKind::PermanentError("Received JSON in unexpected format".to_string())
                 } else {
                     RefreshKind::AccountOrTokenStateChanged
-- 
2.43.0


From 129f96376aa0ba218c0d6c95c9784c06f8544a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 06/17] fix: don't panic when displaying far-future times

'pizauth status' panicked (which aborts the server) if an account's token had
an expiry beyond year 9999 or beyond what chrono can represent.
---
 src/server/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index bad6ac5..7c376f0 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -16,7 +16,7 @@ use std::{
 };
 
 use boot_time::Instant;
-use chrono::{DateTime, Local};
+use chrono::{DateTime, Datelike, Local};
 use log::warn;
 use nix::sys::signal::{raise, Signal};
 #[cfg(target_os = "openbsd")]
@@ -308,19 +308,31 @@ fn instant_fmt(i: Instant) -> String {
     if i < now {
         if let Some(d) = now.checked_duration_since(i) {
             if let Some(st) = SystemTime::now().checked_sub(d) {
-                let dt: DateTime<Local> = st.into();
-                return dt.to_rfc2822();
+                return system_time_fmt(st);
             }
         }
     } else if let Some(d) = i.checked_duration_since(now) {
         if let Some(st) = SystemTime::now().checked_add(d) {
-            let dt: DateTime<Local> = st.into();
-            return dt.to_rfc2822();
+            return system_time_fmt(st);
         }
     }
     "<unknown time>".into()
 }
 
+/// Attempt to print a [SystemTime] as a user-readable string. Note that `expires_in` values from
+/// OAuth servers can lead to [SystemTime]s beyond what chrono (or RFC2822) can represent.
+fn system_time_fmt(st: SystemTime) -> String {
+    let secs = match st.duration_since(SystemTime::UNIX_EPOCH) {
+        Ok(d) => i64::try_from(d.as_secs()).ok(),
+        Err(e) => i64::try_from(e.duration().as_secs()).ok().map(|x| -x),
+    };
+    match secs.and_then(|x| DateTime::from_timestamp(x, 0)) {
+        // RFC2822 only allows 4 digit years: leave some leeway for timezones.
+        Some(dt) if (1..9999).contains(&dt.year()) => dt.with_timezone(&Local).to_rfc2822(),
+        _ => "<unknown time>".into(),
+    }
+}
+
 pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(), Box<dyn Error>> {
     let sock_path = sock_path(cache_path);
 
-- 
2.43.0


From b8dc148dbc10e039d9111635886f51425fb4b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 07/17] fix: bound the memory a single line of an HTTP request
 can use

MAX_HTTP_REQUEST_SIZE was only checked after a whole line had been read, so a
client that never sent a newline could make the server use unbounded memory.
---
 src/server/http_server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index e166bc3..46bdf4e 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -280,7 +280,9 @@ fn fail(
 /// A very literal, and rather unforgiving, implementation of RFC2616 (HTTP/1.1), returning the URL
 /// of GET requests: returns `Err` for anything else.
 fn parse_get<T: Read + Write>(stream: &mut T, is_https: bool) -> Result<Url, Box<dyn Error>> {
-    let mut rdr = BufReader::new(stream);
+    // `read_line` would otherwise read an arbitrarily long line into memory. If this limit is
+    // reached, the check on `http_req_size` below will fail.
+    let mut rdr = BufReader::new(stream).take(MAX_HTTP_REQUEST_SIZE as u64);
     let mut req_line = String::new();
     rdr.read_line(&mut req_line)?;
     let mut http_req_size = req_line.len();
-- 
2.43.0


From b6a15a7220b99e106d3d6bd3c815ad55cafce36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 08/17] fix: keep the socket's timestamps up to date when
 daemonised

The thread that touches the socket file was created before daemonisation:
since threads don't survive 'fork', a daemonised server never did so.
---
 src/main.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5cae972..1e95bf4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -302,22 +302,6 @@ fn main() {
                 fs::remove_file(&sock_path).ok();
             }
 
-            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
-            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
-            //   are not removed, they should have their access time timestamp modified at least once every
-            //   6 hours of monotonic time
-            let sock_path_cl = sock_path.clone();
-            thread::spawn(move || loop {
-                thread::sleep(Duration::from_secs(6 * 60 * 60));
-                let _ = utimensat(
-                    None,
-                    &sock_path_cl,
-                    &TimeSpec::UTIME_NOW,
-                    &TimeSpec::UTIME_NOW,
-                    UtimensatFlags::NoFollowSymlink,
-                );
-            });
-
             let conf_path = conf_path(&matches);
             let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));
 
@@ -347,6 +331,25 @@ fn main() {
                     .init()
                     .unwrap();
             }
+
+            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
+            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
+            //   are not removed, they should have their access time timestamp modified at least once every
+            //   6 hours of monotonic time
+            // Note that this thread must be created after daemonisation, as threads don't survive
+            // `fork`.
+            let sock_path_cl = sock_path.clone();
+            thread::spawn(move || loop {
+                thread::sleep(Duration::from_secs(6 * 60 * 60));
+                let _ = utimensat(
+                    None,
+                    &sock_path_cl,
+                    &TimeSpec::UTIME_NOW,
+                    &TimeSpec::UTIME_NOW,
+                    UtimensatFlags::NoFollowSymlink,
+                );
+            });
+
             if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
                 error!("{e:}");
                 process::exit(1);
-- 
2.43.0


From 3a0004ce56edf770379b67f312ffadc445ae41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 09/17] fix: 'pizauth dump' must fail if the server's reply is
 empty

If the server couldn't create a dump, or died, the client output nothing and
exited successfully.
---
 src/user_sender.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/user_sender.rs b/src/user_sender.rs
index 22d0ab7..40269e6 100644
--- a/src/user_sender.rs
+++ b/src/user_sender.rs
@@ -19,6 +19,10 @@ pub fn dump(cache_path: &Path) -> Result<Vec<u8>, Box<dyn Error>> {
 
     let mut buf = Vec::new();
     stream.read_to_end(&mut buf)?;
+    if buf.is_empty() {
+        // Even with no accounts, a dump has a nonce, version number etc.
+        return Err("Malformed response ''".into());
+    }
     Ok(buf)
 }
 
-- 
2.43.0


From ea40fda051a87662d0ce097b1bf4be90d1489731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 10/17] fix: don't continually refresh tokens with short
 lifetimes

If a token's lifetime was no more than refresh_before_expiry (default: 90s) it
was due for a refresh the moment it was obtained, so pizauth refreshed it in an
endless loop as fast as the OAuth server would answer.
---
 src/server/refresher.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 76a5261..ed0f4f4 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -412,6 +412,17 @@ impl Refresher {
                     .checked_sub(act.refresh_before_expiry(ct_lk.config()))
                     .unwrap_or_else(|| cmp::min(Instant::now(), *access_token_expiry));
 
+                // If an OAuth server hands out tokens which are valid for no longer than
+                // `refresh_before_expiry`, we would otherwise continually refresh them as fast as
+                // the server lets us.
+                if expiry <= *access_token_obtained {
+                    if let Some(t) =
+                        access_token_obtained.checked_add(act.refresh_retry(ct_lk.config()))
+                    {
+                        expiry = t;
+                    }
+                }
+
                 // There is no concept of Instant::MAX, so if `access_token_obtained + d` exceeds
                 // Instant's bounds, there's nothing we can fall back on.
                 if let Some(t) =
-- 
2.43.0


From f1c2801cc15e6c3d888e203d0758f82034c56b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 11/17] fix: send login_hint to the authorisation server

The deprecated login_hint attribute was parsed but had no effect: it wasn't, as
documented, treated as the equivalent auth_uri_fields field.
---
 src/config.rs               | 17 +++++++++++++++--
 src/server/request_token.rs |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac01eb8..7587e4b 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -348,6 +348,7 @@ pub struct Account {
     pub auth_uri_fields: Vec<(String, String)>,
     pub client_id: String,
     pub client_secret: Option<String>,
+    login_hint: Option<String>,
     redirect_uri: String,
     refresh_at_least: Option<Duration>,
     refresh_before_expiry: Option<Duration>,
@@ -488,6 +489,7 @@ impl Account {
             auth_uri_fields: auth_uri_fields.unwrap_or_default(),
             client_id,
             client_secret,
+            login_hint,
             redirect_uri: redirect_uri.unwrap_or_else(|| "http://localhost/".to_owned()),
             refresh_at_least,
             refresh_before_expiry,
@@ -497,6 +499,16 @@ impl Account {
         })
     }
 
+    /// All the fields to be added to the authorisation URI: `auth_uri_fields` and, if specified, the
+    /// deprecated `login_hint`.
+    pub fn all_auth_uri_fields(&self) -> Vec<(String, String)> {
+        let mut fields = self.auth_uri_fields.clone();
+        if let Some(x) = &self.login_hint {
+            fields.push(("login_hint".to_owned(), x.clone()));
+        }
+        fields
+    }
+
     /// Are the security relevant parts of this `Account` the same as `other`?
     ///
     /// Note that this is a weaker condition than "is `self` equal to `other`" because there are
@@ -513,6 +525,7 @@ impl Account {
             && self.auth_uri_fields == other.auth_uri_fields
             && self.client_id == other.client_id
             && self.client_secret == other.client_secret
+            && self.login_hint == other.login_hint
             && self.redirect_uri == other.redirect_uri
             && self.scopes == other.scopes
             && self.token_uri == other.token_uri
@@ -521,7 +534,7 @@ impl Account {
     pub fn dump(&self) -> AccountDump {
         AccountDump {
             auth_uri: self.auth_uri.clone(),
-            auth_uri_fields: self.auth_uri_fields.clone(),
+            auth_uri_fields: self.all_auth_uri_fields(),
             client_id: self.client_id.clone(),
             client_secret: self.client_secret.clone(),
             redirect_uri: self.redirect_uri.clone(),
@@ -536,7 +549,7 @@ impl Account {
     /// `Account`'s tokenstate from a dump.
     pub fn secure_restorable(&self, act_dump: &AccountDump) -> bool {
         self.auth_uri == act_dump.auth_uri
-            && self.auth_uri_fields == act_dump.auth_uri_fields
+            && self.all_auth_uri_fields() == act_dump.auth_uri_fields
             && self.client_id == act_dump.client_id
             && self.client_secret == act_dump.client_secret
             && self.redirect_uri == act_dump.redirect_uri
diff --git a/src/server/request_token.rs b/src/server/request_token.rs
index 7d524af..ac22c75 100644
--- a/src/server/request_token.rs
+++ b/src/server/request_token.rs
@@ -47,7 +47,8 @@ pub fn request_token(
     if !act.scopes.is_empty() {
         params.push(("scope", scopes_join.as_str()));
     }
-    for (k, v) in &act.auth_uri_fields {
+    let auth_uri_fields = act.all_auth_uri_fields();
+    for (k, v) in &auth_uri_fields {
         params.push((k.as_str(), v.as_str()));
     }
     let url = Url::parse_with_params(ct_lk.account(act_id).auth_uri.as_str(), &params)?;
-- 
2.43.0


From d54abf16fdb75ea356706df135749529d2e0f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 12/17] fix: report a dump that could not be written to stdout

'pizauth dump > file' on a full disk exited with 0 and an incomplete file.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1e95bf4..f70aa1c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -159,7 +159,11 @@ fn main() {
                 .unwrap();
             match user_sender::dump(&cache_path) {
                 Ok(d) => {
-                    stdout().write_all(&d).ok();
+                    let mut out = stdout();
+                    if let Err(e) = out.write_all(&d).and_then(|()| out.flush()) {
+                        error!("Couldn't write dump: {e:}");
+                        process::exit(1);
+                    }
                 }
                 Err(e) => {
                     error!("{e:}");
-- 
2.43.0


From f5be516a6122050575e51fa895067a6788480264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 13/17] fix: reject configurations whose redirects no running
 listener serves

---
 src/config.rs     | 24 ++++++++++++++++++++++--
 src/server/mod.rs |  8 +++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 7587e4b..cf703de 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -55,6 +55,25 @@ impl Config {
         Config::from_str(&input)
     }
 
+    /// Check that every account has a redirect URI that can be served by the HTTP and HTTPS servers
+    /// running on `http_port` and `https_port`.
+    pub fn check_redirect_uris(
+        &self,
+        http_port: Option<u16>,
+        https_port: Option<u16>,
+    ) -> Result<(), String> {
+        for (act_name, act) in &self.accounts {
+            if act.redirect_uri.to_lowercase().starts_with("https") {
+                if https_port.is_none() {
+                    return Err(format!("Account {act_name} has an 'https' redirect but pizauth was started without the HTTPS server"));
+                }
+            } else if http_port.is_none() {
+                return Err(format!("Account {act_name} has an 'http' redirect but pizauth was started without the HTTP server"));
+            }
+        }
+        Ok(())
+    }
+
     pub fn from_str(input: &str) -> Result<Self, String> {
         let lexerdef = config_l::lexerdef();
         let lexer = lexerdef.lexer(input);
@@ -206,14 +225,15 @@ impl Config {
         }
 
         for (act_name, act) in &accounts {
-            if act.redirect_uri.starts_with("https") {
+            let redirect_uri = act.redirect_uri.to_lowercase();
+            if redirect_uri.starts_with("https") {
                 match https_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
                         return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
                     }
                 }
-            } else if act.redirect_uri.starts_with("http") {
+            } else if redirect_uri.starts_with("http") {
                 match http_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 7c376f0..dec839c 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -123,7 +123,13 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
             return Ok(());
         }
         "reload" if rest.is_empty() => {
-            match Config::from_path(&pstate.conf_path) {
+            // The HTTP and HTTPS servers are started only once, so the new configuration has to make
+            // do with those which are running.
+            let new_conf = Config::from_path(&pstate.conf_path).and_then(|x| {
+                x.check_redirect_uris(pstate.http_port, pstate.https_port)?;
+                Ok(x)
+            });
+            match new_conf {
                 Ok(new_conf) => {
                     pstate.update_conf(new_conf);
                     stream.write_all(b"ok:")?
-- 
2.43.0


From 9d72be323a63ed05e77a87032aeb4ce7df849878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:08 +0000
Subject: [PATCH 14/17] fix: run error_notify_cmd however long or odd the error
 message is

---
 src/server/notifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 1e55b10..b7324d8 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -14,6 +14,10 @@ use log::error;
 
 use super::{AccountId, AuthenticatorState, CTGuard, TokenState, MAX_WAIT_SECS};
 
+/// The maximum length in bytes of an error message. Messages can contain arbitrary text from a
+/// remote server but e.g. Linux doesn't allow an environment variable to exceed 128KiB.
+const MAX_ERROR_MSG_LEN: usize = 16384;
+
 pub struct Notifier {
     pred: Mutex<bool>,
     condvar: Condvar,
@@ -137,6 +141,12 @@ impl Notifier {
         act_name: String,
         msg: String,
     ) -> Result<(), Box<dyn std::error::Error>> {
+        let mut end = cmp::min(msg.len(), MAX_ERROR_MSG_LEN);
+        while !msg.is_char_boundary(end) {
+            end -= 1;
+        }
+        // Environment variables can't contain NULs.
+        let msg = msg[..end].replace('\0', "\u{FFFD}");
         match pstate.ct_lock().config().error_notify_cmd.clone() {
             Some(cmd) => {
                 thread::spawn(move || match env::var("SHELL") {
-- 
2.43.0


From 5915aa775ee2c7d7ecebbdbfa57e47761b7bb033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:13 +0000
Subject: [PATCH 15/17] fix: drop token events if there is no token_event_cmd

Events which queued up while there was no token_event_cmd were run when a
later reload brought one, however long after the event.
---
 src/server/eventer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/eventer.rs b/src/server/eventer.rs
index 0be2e67..490fe2b 100644
--- a/src/server/eventer.rs
+++ b/src/server/eventer.rs
@@ -71,7 +71,7 @@ impl Eventer {
                 {
                     token_event_cmd
                 } else {
-                    break;
+                    continue;
                 };
                 match env::var("SHELL") {
                     Ok(s) => {
-- 
2.43.0


From d248c3ef058eebdcf5710b3839155db76c547f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 16/17] fix: report an authentication whose expiry can't be
 represented

Such a failure was only logged as a warning, and the account was left
pending on an authentication request whose code had been used up.
---
 src/server/http_server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index 46bdf4e..0bee289 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -219,7 +219,14 @@ fn request<T: Read + Write>(
     ) {
         (Some("Bearer"), Some(expires_in), Some(access_token), refresh_token) => {
             let now = Instant::now();
-            let expiry = expiry_instant(&ct_lk, act_id, now, expires_in)?;
+            let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
+                Ok(x) => x,
+                Err(e) => {
+                    drop(ct_lk);
+                    fail(pstate, act_id, &e.to_string())?;
+                    return Ok(());
+                }
+            };
             let act_name = ct_lk.account(act_id).name.to_owned();
             ct_lk.tokenstate_replace(
                 act_id,
-- 
2.43.0


From 8dfe84e7243c4e174723fd9d384e35d3718b055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:46 +0000
Subject: [PATCH 17/17] fix: don't spin if refresh_before_expiry can't be
 subtracted from the expiry

---
 src/server/refresher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index ed0f4f4..e29f3c5 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -410,7 +410,7 @@ impl Refresher {
 
                 let mut expiry = access_token_expiry
                     .checked_sub(act.refresh_before_expiry(ct_lk.config()))
-                    .unwrap_or_else(|| cmp::min(Instant::now(), *access_token_expiry));
+                    .unwrap_or(*access_token_obtained);
 
                 // If an OAuth server hands out tokens which are valid for no longer than
                 // `refresh_before_expiry`, we would otherwise continually refresh them as fast as
-- 
2.43.0

