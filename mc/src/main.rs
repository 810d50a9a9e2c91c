mod cfgs;
mod cli;
mod compare;
mod engine;
mod gen;
mod json;
mod layout;
mod wide;
mod lexical;
mod lua;
mod props;
mod sched;
mod space;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

extern "C" {
    fn umask(mask: u32) -> u32;
}

fn main() {
    // scratch directories are open to the unprivileged runs
    unsafe { umask(0o022) };
    engine::install_panic_hook();
    engine::install_crash_handler();
    props::main();
}
