use harness::{run, sym, we2e, wopc::*};

macro_rules! specs {
    ($id:expr, $f:ident $(, $a:expr)*) => {
        match $id {
            "W01" => run::$f(&W01 $(, $a)*), "W02" => run::$f(&W02 $(, $a)*), "W03" => run::$f(&W03 $(, $a)*),
            "W04" => run::$f(&W04 $(, $a)*), "W05" => run::$f(&W05 $(, $a)*), "W06" => run::$f(&W06 $(, $a)*),
            "W11" => run::$f(&harness::wcode::W11 $(, $a)*),
            x => { eprintln!("unknown property {x}"); 2 }
        }
    };
}

fn work() -> i32 {
    sym::install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("check") if a[2] == "W07" => we2e::w07_check(),
        Some("check") if a[2] == "W08" => we2e::w08_check(),
        Some("check") if matches!(a[2].as_str(), "W09" | "W10") => we2e::tool_check(&a[2]),
        Some("check") => specs!(a[2].as_str(), check),
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file"))
                    .expect("replay file");
            let id = v["property"].as_str().expect("property").to_string();
            match id.as_str() {
                "W07" => we2e::w07_replay(&v),
                id @ ("W09" | "W10") => we2e::tool_replay(id, &v),
                "W08" => we2e::w08_replay(&v),
                _ => specs!(id.as_str(), replay, &v),
            }
        }
        _ => {
            eprintln!("usage: wopcheck check ID | replay FILE");
            2
        }
    }
}

fn died(noted: Vec<serde_json::Value>, how: &str) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        println!("{how}");
        return 1;
    }
    let id = a[2].as_str();
    match id {
        "W07" | "W08" | "W09" | "W10" => run::died_at(id, noted, how, |_| Vec::new()),
        _ => specs!(id, died, noted, how),
    }
}

fn main() {
    run::supervise(work, died)
}
