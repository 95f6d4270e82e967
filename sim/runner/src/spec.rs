//! Structured configurations: generated as data, rendered to text, kept for the oracles.
use serde::{Deserialize, Serialize};
use std::fmt::Write;

/// null is not the same as absent
fn twice<'a, D: serde::Deserializer<'a>>(d: D) -> Result<Option<Option<String>>, D::Error> {
    Option::<String>::deserialize(d).map(Some)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ConfSpec {
    pub notify: Option<String>,
    pub notify_interval: Option<u64>,
    pub error: Option<String>,
    pub event: Option<String>,
    pub transient: Option<String>,
    /// None: default, Some(None): none
    #[serde(default, skip_serializing_if = "Option::is_none", deserialize_with = "twice")]
    pub http: Option<Option<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none", deserialize_with = "twice")]
    pub https: Option<Option<String>>,
    pub t: Times,
    pub accts: Vec<AcctSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Times {
    pub at_least: Option<u64>,
    pub before: Option<u64>,
    pub retry: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct AcctSpec {
    pub name: String,
    pub auth_uri: String,
    pub fields: Option<Vec<(String, String)>>,
    pub client_id: String,
    pub secret: Option<String>,
    pub hint: Option<String>,
    pub redirect: Option<String>,
    pub scopes: Option<Vec<String>>,
    pub token_uri: String,
    pub t: Times,
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}

fn time(x: u64) -> String {
    if x >= 86400 && x % 86400 == 0 {
        format!("{}d", x / 86400)
    } else if x >= 3600 && x % 3600 == 0 {
        format!("{}h", x / 3600)
    } else if x >= 60 && x % 60 == 0 {
        format!("{}m", x / 60)
    } else {
        format!("{x}s")
    }
}

impl Times {
    fn text(&self, o: &mut String, ind: &str) {
        for (k, v) in [
            ("refresh_at_least", self.at_least),
            ("refresh_before_expiry", self.before),
            ("refresh_retry", self.retry),
        ] {
            if let Some(x) = v {
                writeln!(o, "{ind}{k} = {};", time(x)).unwrap();
            }
        }
    }
}

/// an account's name as it can be part of a host name, or of a token
pub fn slug(name: &str) -> String {
    name.chars().map(|c| if c.is_ascii_lowercase() || c.is_ascii_digit() { c.to_string() } else { format!("x{:x}", c as u32) }).collect()
}

impl AcctSpec {
    pub fn basic(name: &str) -> AcctSpec {
        let n = slug(name);
        AcctSpec {
            name: name.into(),
            auth_uri: format!("http://auth-{n}.test/auth"),
            client_id: format!("cl_{n}"),
            secret: Some(format!("CSEC_{n}_zq")),
            token_uri: format!("http://tok-{n}.test/token"),
            scopes: Some(vec!["s1".into(), "s2".into()]),
            ..Default::default()
        }
    }
    /// Equal in everything that must tie credentials to a definition
    pub fn sec_eq(&self, o: &AcctSpec) -> bool {
        self.name == o.name
            && self.auth_uri == o.auth_uri
            && self.fields.clone().unwrap_or_default() == o.fields.clone().unwrap_or_default()
            && self.client_id == o.client_id
            && self.secret == o.secret
            && self.hint == o.hint
            && self.redir() == o.redir()
            && self.scopes.clone().unwrap_or_default() == o.scopes.clone().unwrap_or_default()
            && self.token_uri == o.token_uri
    }
    pub fn redir(&self) -> String {
        self.redirect.clone().unwrap_or_else(|| "http://localhost/".into())
    }
    /// auth_uri_fields with the deprecated login_hint
    pub fn all_fields(&self) -> Vec<(String, String)> {
        let mut f = self.fields.clone().unwrap_or_default();
        if let Some(x) = &self.hint {
            f.push(("login_hint".into(), x.clone()));
        }
        f
    }
    pub fn tok_host(&self) -> String {
        url::Url::parse(&self.token_uri)
            .ok()
            .and_then(|u| u.host_str().map(|x| x.to_string()))
            .unwrap_or_default()
    }
}

impl ConfSpec {
    /// is there a listener for redirects of this scheme (or URI)?
    pub fn serves(&self, uri: &str) -> bool {
        if uri.to_lowercase().starts_with("https") {
            self.https != Some(None)
        } else {
            self.http != Some(None)
        }
    }
    pub fn acct(&self, n: &str) -> Option<&AcctSpec> {
        self.accts.iter().find(|a| a.name == n)
    }
    pub fn at_least(&self, a: &AcctSpec) -> u64 {
        a.t.at_least.or(self.t.at_least).unwrap_or(90 * 60)
    }
    pub fn before(&self, a: &AcctSpec) -> u64 {
        a.t.before.or(self.t.before).unwrap_or(90)
    }
    pub fn retry(&self, a: &AcctSpec) -> u64 {
        a.t.retry.or(self.t.retry).unwrap_or(40)
    }
    pub fn interval(&self) -> u64 {
        self.notify_interval.unwrap_or(15 * 60)
    }
    pub fn text(&self) -> String {
        let mut o = String::from("\n");
        for (k, v) in [
            ("auth_notify_cmd", &self.notify),
            ("error_notify_cmd", &self.error),
            ("token_event_cmd", &self.event),
            ("transient_error_if_cmd", &self.transient),
        ] {
            if let Some(x) = v {
                writeln!(o, "{k} = {};", q(x)).unwrap();
            }
        }
        if let Some(x) = self.notify_interval {
            writeln!(o, "auth_notify_interval = {};", time(x)).unwrap();
        }
        for (k, v) in [("http_listen", &self.http), ("https_listen", &self.https)] {
            match v {
                None => (),
                Some(None) => writeln!(o, "{k} = none;").unwrap(),
                Some(Some(x)) => writeln!(o, "{k} = {};", q(x)).unwrap(),
            }
        }
        self.t.text(&mut o, "");
        for a in &self.accts {
            writeln!(o, "account {} {{", q(&a.name)).unwrap();
            writeln!(o, "  auth_uri = {};", q(&a.auth_uri)).unwrap();
            if let Some(f) = &a.fields {
                let v: Vec<String> = f.iter().map(|(k, v)| format!("{}: {}", q(k), q(v))).collect();
                writeln!(o, "  auth_uri_fields = {{ {} }};", v.join(", ")).unwrap();
            }
            writeln!(o, "  client_id = {};", q(&a.client_id)).unwrap();
            if let Some(x) = &a.secret {
                writeln!(o, "  client_secret = {};", q(x)).unwrap();
            }
            if let Some(x) = &a.hint {
                writeln!(o, "  login_hint = {};", q(x)).unwrap();
            }
            if let Some(x) = &a.redirect {
                writeln!(o, "  redirect_uri = {};", q(x)).unwrap();
            }
            if let Some(x) = &a.scopes {
                let v: Vec<String> = x.iter().map(|v| q(v)).collect();
                writeln!(o, "  scopes = [{}];", v.join(", ")).unwrap();
            }
            writeln!(o, "  token_uri = {};", q(&a.token_uri)).unwrap();
            a.t.text(&mut o, "  ");
            writeln!(o, "}}").unwrap();
        }
        o
    }
}
