/// A value of the library with these fields, whatever other fields it may have
macro_rules! make {
    (@ $f:ident) => { $f };
    (@ $f:ident, $e:expr) => { $e };
    ($t:ident { $($f:ident $(: $e:expr)?),* $(,)? }) => { {
        #[allow(clippy::field_reassign_with_default)]
        let mut made = $t::default();
        $(made.$f = make!(@ $f $(, $e)?);)*
        made
    } };
}

mod carousel;
mod codes;
mod core;
mod crc;
mod desc;
mod hostile;
mod io;
mod lists;
mod mux;
mod own;
mod path;
mod relay;
mod simple;
mod small;
mod tables;
mod text;
mod threads;

use crate::core::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 {
        eprintln!("usage: harness <property> quick|thorough <seed> <output>");
        std::process::exit(2);
    }
    let ctx = Ctx { seed: a[3].parse().unwrap(), thorough: a[2] == "thorough" };
    start(&a[4]);
    guarded(|| match a[1].as_str() {
        "C01" => mux::c01(&ctx),
        "C02" => mux::c02(&ctx),
        "C03" => hostile::c03(&ctx),
        "C04" => crc::c04(&ctx),
        "C05" => crc::c05(&ctx),
        "C06" => tables::c06(&ctx),
        "C07" => tables::c07(&ctx),
        "C08" => tables::c08(&ctx),
        "C09" => tables::c09(&ctx),
        "C10" => tables::c10(&ctx),
        "C11" => tables::c11(&ctx),
        "C12" => tables::c12(&ctx),
        "C13" => tables::c13(&ctx),
        "C14" => tables::c14(&ctx),
        "C15" => desc::c15(&ctx),
        "C16" => desc::c16(&ctx),
        "C17" => desc::c17(&ctx),
        "C18" => text::c18(&ctx),
        "C19" => text::c19(&ctx),
        "C20" => simple::c20(&ctx),
        "C21" => simple::c21(&ctx),
        "C22" => simple::c22(&ctx),
        "C23" => simple::c23(&ctx),
        "C24" => io::c24(&ctx),
        "C25" => io::c25(&ctx),
        "C26" => simple::c26(&ctx),
        "C27" => simple::c27(&ctx),
        "C28" => path::c28(&ctx),
        "C29" => codes::c29(&ctx),
        "C30" => lists::c30(&ctx),
        "C31" => small::c31(&ctx),
        "C32" => small::c32(&ctx),
        "C33" => own::c33(&ctx),
        "C34" => relay::c34(&ctx),
        "C35" => carousel::c35(&ctx),
        "C36" => threads::c36(&ctx),
        x => { eprintln!("no recorder for {}", x); std::process::exit(2); },
    });
    finish();
}
