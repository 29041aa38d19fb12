use {
    crate::{
        explore::{self, Report, Space, Tier, Verdict},
        Meta,
    },
    serde_json::Value,
};

pub mod accounts;
pub mod auth;
pub mod builders;
pub mod client;
pub mod common;
pub mod confirmed;
pub mod conflict;
pub mod decode;
pub mod errors;
pub mod history;
pub mod lives;
pub mod options;
pub mod proofbuf;
pub mod record;
pub mod shared;

fn spaces(id: &str, tier: Tier) -> Option<(Vec<Space>, Meta)> {
    Some(match id {
        "C01" => (auth::spaces(tier), auth::META),
        "C02" => (conflict::spaces(tier, conflict::Judge::Sound), conflict::META_C02),
        "C03" => (conflict::spaces(tier, conflict::Judge::Complete), conflict::META_C03),
        "C04" => {
            let mut s = decode::spaces(tier);
            // the header fields, through the conflict decision
            s.extend(conflict::fields(tier));
            (s, decode::META)
        }
        "C05" => (record::c05(tier), record::META_C05),
        "C08" => (record::c08(tier), record::META_C08),
        "C10" => (record::c10(tier), record::META_C10),
        "C11" => (accounts::c11(tier), accounts::META_C11),
        "C12" => (accounts::c12(tier), accounts::META_C12),
        "C13" => (proofbuf::spaces(tier), proofbuf::META),
        "C14" => (builders::spaces(tier), builders::META),
        "C15" => (errors::spaces(tier), errors::META),
        "C16" => (client::c16(tier), client::META_C16),
        "C17" => (client::c17(tier), client::META_C17),
        "C18" => (client::c18(tier), client::META_C18),
        "C19" => (client::c19(tier), client::META_C19),
        "C20" => (client::c20(tier), client::META_C20),
        "C21" => (client::c21(tier), client::META_C21),
        "C22" => (options::c22(tier), options::META_C22),
        "C24" => (shared::spaces(tier), shared::META),
        "C25" => (confirmed::spaces(tier), confirmed::META),
        "C23" => (options::c23(tier), options::META_C23),
        _ => return None,
    })
}

fn histories(id: &str) -> Option<&'static str> {
    ["C06", "C07", "C09"].into_iter().find(|h| *h == id)
}

pub fn run(id: &str, tier: Tier, rep: &mut Report) -> Option<Meta> {
    if let Some(h) = histories(id) {
        history::run(h, tier, rep);
        return Some(history::META);
    }
    if id == "C26" {
        lives::run(tier, rep);
        return Some(lives::META);
    }
    let (s, meta) = spaces(id, tier)?;
    rep.explore(&s);
    Some(meta)
}

pub fn replay(id: &str, tier: Tier, case: &Value) -> Option<Verdict> {
    if let Some(h) = histories(id) {
        return history::replay(h, tier, case);
    }
    if id == "C26" {
        return lives::replay(tier, case);
    }
    let (s, _) = spaces(id, tier)?;
    let coords: Vec<usize> =
        case["coords"].as_array()?.iter().map(|v| v.as_u64().unwrap_or(0) as usize).collect();
    explore::replay(&s, case["space"].as_str()?, &coords)
}
