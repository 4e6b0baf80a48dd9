//! Replays recorded inputs against the real code. stdin: lines "<harness> <hex input>"; one answer
//! line per case: "<outcome>\t<message>\t<hex out>\t<reach>\t<known>".
#[macro_use]
mod macros;
mod model;
mod props;
mod sym;
mod any;
mod lay;
mod menu;
mod tree;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let list = props::list();
    if std::env::args().nth(1).as_deref() == Some("--list") {
        for (n, _) in &list {
            println!("{n}");
        }
        return;
    }
    let so = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split(' ');
        let name = it.next().unwrap();
        let input = unhex(it.next().unwrap_or(""));
        let f = list.iter().find(|(n, _)| *n == name).expect("harness").1;
        sym::REC.with(|r| *r.borrow_mut() = sym::native::Rec { input, ..Default::default() });
        let res = std::panic::catch_unwind(|| f());
        let (o, m) = match res {
            Ok(()) => ("done", String::new()),
            Err(e) => match e.downcast::<sym::Abort>() {
                Ok(a) => (a.0, a.1),
                Err(e) => {
                    let m = if let Some(s) = e.downcast_ref::<String>() {
                        s.clone()
                    } else if let Some(s) = e.downcast_ref::<&str>() {
                        s.to_string()
                    } else {
                        "?".into()
                    };
                    ("panic", m)
                }
            },
        };
        let m: String = m.chars().map(|c| if (c as u32) < 32 { ' ' } else { c }).collect();
        let (out, reach, known) = sym::REC.with(|r| {
            let r = r.borrow();
            (r.out.iter().map(|b| format!("{:02x}", b)).collect::<String>(), r.reach, r.known)
        });
        let mut so = so.lock();
        writeln!(so, "{o}\t{m}\t{out}\t{reach}\t{known}").unwrap();
        so.flush().unwrap();
    }
}
