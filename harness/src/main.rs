mod alloc;
mod dict;
mod drv;
mod fmtref;
mod guide;
mod model;
mod props;
mod refparse;
mod resolver;
mod run;
mod src;
mod ty;
mod val;

#[global_allocator]
static A: alloc::Meter = alloc::Meter;

fn main() {
    // keep threads off the process-wide lock of the memory map
    unsafe {
        libc::mallopt(libc::M_MMAP_THRESHOLD, 64 << 20);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 256 << 20);
        libc::mallopt(libc::M_TOP_PAD, 1 << 20);
    }
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check" | "check-inner") => {
            let id = args.get(2).expect("property id");
            let p = all.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
            if args[1] == "check" {
                run::supervise(p)
            } else {
                run::check(p)
            }
        }
        Some("guided") => {
            let p = all.iter().find(|p| Some(&p.id.to_string()) == args.get(2)).expect("property id");
            let n = |i: usize| args.get(i).and_then(|n| n.parse().ok()).expect("number");
            guide::search(p, n(3), n(4), &args[5])
        }
        Some("found") => {
            let p = all.iter().find(|p| Some(&p.id.to_string()) == args.get(2)).expect("property id");
            run::found(p, &args[3])
        }
        Some("replay") => {
            let f = args.get(2).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
            let id = v["property"].as_str().unwrap_or("");
            let p = all.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
            if let Some(d) = v["dictionary"].as_str() {
                dict::restore(d);
            }
            run::replay(p, &v)
        }
        Some("deep") => props::deep(args.get(2).map(|s| s.as_str()).unwrap_or(""), args.get(3).and_then(|n| n.parse().ok()).unwrap_or(1)),
        Some("dict") => {
            dict::dump();
            0
        }
        Some("list") => {
            all.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("usage: vp check ID | vp replay FILE | vp list");
            2
        }
    };
    std::process::exit(code);
}
