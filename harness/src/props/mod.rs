use crate::campaign::Campaign;

mod c01;
mod c02;
mod c03;
mod c05;
mod c06;
mod c09;
mod c16;
mod c19;
mod c20;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod client;
mod ending;
mod hist;
mod slot;

pub use c26::isolated;

pub fn ids() -> Vec<&'static str> {
    vec!["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"]
}

pub fn campaigns(id: &str) -> Option<Vec<Box<dyn Campaign>>> {
    Some(match id {
        "C01" => c01::campaigns(),
        "C02" => c02::campaigns(),
        "C03" => c03::campaigns(),
        "C04" => vec![hist::c04(), hist::c04_threads()],
        "C05" => c05::campaigns(),
        "C06" => c06::campaigns(),
        "C07" => vec![hist::c07(), hist::c08_threads()],
        "C08" => vec![hist::c08(), hist::c08_threads()],
        "C09" => vec![hist::c09(), hist::c09_threads(), hist::c09_exit_threads(), client::exit_threads(), c09::stream()],
        "C10" => vec![hist::c10(), hist::c10_threads()],
        "C11" => vec![hist::c11(), hist::c11_threads()],
        "C12" => slot::c12(),
        "C13" => client::c13(),
        "C14" => {
            let mut c = client::c14();
            c.push(client::exit_threads());
            c
        }
        "C15" => client::c15(),
        "C16" => c16::campaigns(),
        "C17" => ending::c17(),
        "C18" => ending::c18(),
        "C19" => c19::campaigns(),
        "C20" => vec![hist::c20(), c20::registrations()],
        "C21" => client::c21(),
        "C22" => slot::c22(),
        "C23" => c23::campaigns(),
        "C24" => c24::campaigns(),
        "C25" => c25::campaigns(),
        "C26" => c26::campaigns(),
        "C27" => c27::campaigns(),
        "C28" => c28::campaigns(),
        "C29" => c29::campaigns(),
        _ => return None,
    })
}
