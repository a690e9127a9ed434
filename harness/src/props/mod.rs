pub mod apart;
pub mod buflist;
pub mod conn;
pub mod decode;
pub mod frames;
pub mod history;
pub mod misc;
pub mod monitor;
pub mod payload;
pub mod requester;
pub mod threads;
pub mod values;

use crate::engine::Sub;

pub fn subs(property: &str) -> Option<Vec<Sub>> {
    Some(match property {
        "C01" => frames::c01(),
        "C02" => frames::c02(),
        "C03" => decode::c03(),
        "C04" => decode::c04(),
        "C05" => decode::c05(),
        "C06" => frames::c06(),
        "C07" => decode::c07(),
        "C08" => frames::c08(),
        "C09" => payload::c09(),
        "C10" => payload::c10(),
        "C11" => buflist::c11(),
        "C12" => conn::c12(),
        "C13" => threads::c13(),
        "C14" => conn::c14(),
        "C15" => threads::c15(),
        "C16" => requester::c16(),
        "C17" => requester::c17(),
        "C18" => monitor::c18(),
        "C19" => monitor::c19(),
        "C20" => misc::c20(),
        "C21" => misc::c21(),
        "C22" => frames::c22(),
        "C23" => frames::c23(),
        "C24" => misc::c24(),
        "C25" => misc::c25(),
        "C26" => payload::c26(),
        "C27" => requester::c27(),
        "C28" => values::c28(),
        "C29" => history::c29(),
        "C30" => apart::c30(),
        _ => return None,
    })
}

pub const ALL: [&str; 30] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
    "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
    "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30",
];
