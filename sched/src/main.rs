#![allow(dead_code)]
mod c08;
#[path = "../../mc/src/dictkit.rs"]
mod dictkit;
#[path = "../../mc/src/fw.rs"]
mod fw;
mod objects;
#[path = "../../mc/src/rich.rs"]
mod rich;
mod threads;
mod tree;
#[path = "../../mc/src/worlds.rs"]
mod worlds;

fn dispatch(run: &mut fw::Run) -> bool {
    match run.prop.as_str() {
        "C08" => c08::c08(run),
        _ => return false,
    }
    true
}

extern "C" {
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Some(c) = std::env::var("SCHED_CPU").ok().and_then(|c| c.parse::<usize>().ok()).filter(|c| *c < 64) {
        let mask = [1u64 << c; 1];
        // where it is not allowed, the processors are shared
        unsafe { sched_setaffinity(0, 8, mask.as_ptr()) };
    }
    match a.get(1).map(|s| s.as_str()) {
        Some("tree") => tree::serve(&a[2..]),
        Some("world") => {
            std::fs::create_dir_all(&a[2]).unwrap();
            objects::write_world(std::path::Path::new(&a[2])).unwrap();
        }
        Some("long") => tree::long(&a[2..]),
        Some("schedules") => threads::serve(&a[2..]),
        _ => fw::main_with(dispatch),
    }
}
