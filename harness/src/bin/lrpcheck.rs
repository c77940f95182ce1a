use harness::{demo, lrpc::*, run, sym};

macro_rules! specs {
    ($id:expr, $f:ident $(, $a:expr)*) => {
        match $id {
            "C01" => run::$f(&C01 $(, $a)*), "C02" => run::$f(&C02 $(, $a)*), "C03" => run::$f(&C03 $(, $a)*),
            "C04" => run::$f(&C04 $(, $a)*), "C05" => run::$f(&C05 $(, $a)*), "C06" => run::$f(&C06 $(, $a)*),
            "C07" => run::$f(&C07 $(, $a)*), "C08" => run::$f(&C08 $(, $a)*), "C09" => run::$f(&C09 $(, $a)*),
            "C10" => run::$f(&C10 $(, $a)*), "C11" => run::$f(&C11 $(, $a)*), "C12" => run::$f(&C12 $(, $a)*),
            "C13" => run::$f(&C13 $(, $a)*), "C22" => run::$f(&C22 $(, $a)*),
            "C23" => run::$f(&C23 $(, $a)*),
            #[cfg(feature = "deep")]
            "C14" => run::$f(&C14 $(, $a)*), 
            #[cfg(feature = "deep")]
            "C15" => run::$f(&C15 $(, $a)*),
            #[cfg(feature = "deep")]
            "C16" => run::$f(&C16 $(, $a)*),
            #[cfg(feature = "deep")]
            "C17" => run::$f(&C17 $(, $a)*),
            #[cfg(feature = "deep")]
            "C18" => run::$f(&C18 $(, $a)*),
            #[cfg(feature = "deep")]
            "C21" => run::$f(&C21 $(, $a)*),
            x => { eprintln!("unknown property {x}"); 2 }
        }
    };
}

fn work() -> i32 {
    sym::install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("check") if a[2] == "C19" => demo::check(),
        Some("check") if a[2] == "C20" => prog::check(),
        Some("check") => specs!(a[2].as_str(), check),
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file"))
                    .expect("replay file");
            let id = v["property"].as_str().expect("property").to_string();
            match id.as_str() {
                "C19" => demo::replay(&v),
                "C20" => prog::replay(&v),
                id => specs!(id, replay, &v),
            }
        }
        _ => {
            eprintln!("usage: lrpcheck check ID | replay FILE");
            2
        }
    }
}

fn died(noted: Vec<serde_json::Value>, how: &str) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        println!("{how}");
        return 1;
    }
    let id = a[2].as_str();
    match id {
        "C19" | "C20" => run::died_at(id, noted, how, |_| Vec::new()),
        _ => specs!(id, died, noted, how),
    }
}

fn main() {
    run::supervise(work, died)
}
