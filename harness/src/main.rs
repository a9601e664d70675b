mod alloc;
mod cache;
mod conf;
mod h01;
mod pool;
mod mock;
mod res;
mod run;
mod s01;
mod s03;
mod serv;
mod sim;
mod util;
mod w;
mod wire;
mod world;
mod zone;

use run::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const MB: isize = 1 << 20;

static SPECS: &[Spec] = &[
    Spec { name: "W01", f: w::w01, stack: 2 << 20, mem: Some(256 * MB), cpu: 10, wall: 120 },
    Spec { name: "W02", f: w::w02, stack: 2 << 20, mem: Some(256 * MB), cpu: 10, wall: 120 },
    Spec { name: "W03", f: w::w03, stack: 2 << 20, mem: Some(256 * MB), cpu: 10, wall: 120 },
    Spec { name: "W04", f: w::w04, stack: 2 << 20, mem: Some(256 * MB), cpu: 10, wall: 120 },
    Spec { name: "W05", f: w::w05, stack: 2 << 20, mem: Some(256 * MB), cpu: 10, wall: 120 },
    Spec { name: "W06", f: w::w06, stack: 2 << 20, mem: Some(256 * MB), cpu: 10, wall: 120 },
    // The programs load zone files on the main thread, whose stack has 8 MiB.
    Spec { name: "N01", f: zone::n01, stack: 8 << 20, mem: Some(512 * MB), cpu: 20, wall: 120 },
    Spec { name: "N02", f: zone::n02, stack: 8 << 20, mem: Some(1024 * MB), cpu: 30, wall: 180 },
    Spec { name: "N03", f: zone::n03, stack: 8 << 20, mem: Some(512 * MB), cpu: 20, wall: 120 },
    Spec { name: "R01", f: res::r01, stack: 2 << 20, mem: Some(512 * MB), cpu: 30, wall: 180 },
    Spec { name: "R02", f: res::r02, stack: 2 << 20, mem: Some(512 * MB), cpu: 30, wall: 180 },
    Spec { name: "R03", f: res::r03, stack: 2 << 20, mem: Some(512 * MB), cpu: 30, wall: 180 },
    Spec { name: "R04", f: res::r04, stack: 2 << 20, mem: Some(512 * MB), cpu: 30, wall: 180 },
    Spec { name: "R05", f: res::r05, stack: 2 << 20, mem: Some(512 * MB), cpu: 30, wall: 180 },
    Spec { name: "R06", f: res::r06, stack: 2 << 20, mem: Some(512 * MB), cpu: 30, wall: 180 },
    Spec { name: "R08", f: res::r08, stack: 2 << 20, mem: Some(512 * MB), cpu: 30, wall: 180 },
    Spec { name: "R09", f: res::r09, stack: 2 << 20, mem: Some(512 * MB), cpu: 30, wall: 180 },
    Spec { name: "H01", f: h01::h01, stack: 8 << 20, mem: Some(512 * MB), cpu: 30, wall: 240 },
    Spec { name: "S01", f: s01::s01, stack: 8 << 20, mem: Some(1024 * MB), cpu: 30, wall: 300 },
    Spec { name: "S02", f: s01::s02, stack: 8 << 20, mem: Some(1024 * MB), cpu: 30, wall: 300 },
    Spec { name: "S03", f: s03::s03, stack: 8 << 20, mem: Some(2048 * MB), cpu: 120, wall: 400 },
    Spec { name: "S05", f: conf::s05, stack: 8 << 20, mem: Some(1024 * MB), cpu: 30, wall: 400 },
    Spec { name: "R07", f: cache::r07, stack: 2 << 20, mem: Some(512 * MB), cpu: 60, wall: 240 },
    Spec { name: "S04", f: pool::s04, stack: 2 << 20, mem: Some(512 * MB), cpu: 60, wall: 300 },
    Spec { name: "N04", f: zone::n04, stack: 8 << 20, mem: Some(512 * MB), cpu: 20, wall: 120 },
];

/// Formats everything and keeps nothing.
struct Sink;
static SINK: Sink = Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{} {}", r.target(), r.args()));
    }
    fn flush(&self) {}
}

fn main() {
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Off);
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        let k = format!("--{}", k);
        a.iter().position(|x| *x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string())
    };
    if a.len() < 2 {
        eprintln!("usage: mon <property> --dir D [--seed S --shard I --shards N --start K --count N --secs T --tier quick|thorough --replay INDEX]");
        std::process::exit(2);
    }
    let spec = match SPECS.iter().find(|s| s.name == a[1]) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", a[1]);
            std::process::exit(2)
        }
    };
    let n = |k: &str, d: &str| get(k, d).parse::<u64>().unwrap();
    let replay = get("replay", "");
    let args = Args {
        tier: get("tier", "quick"),
        seed: n("seed", "1"),
        shard: n("shard", "0"),
        shards: n("shards", "1"),
        start: n("start", "0"),
        count: n("count", "1000"),
        secs: n("secs", "60"),
        dir: get("dir", "/tmp"),
        replay: if replay.is_empty() { None } else { Some(replay.parse().unwrap()) },
    };
    std::process::exit(run::run(spec, args));
}
