fn main() {
    // The simulator's own definitions of these symbols must win over libc's in the shared objects it loads.
    for s in ["syscall", "pthread_create", "pthread_join", "sched_yield", "clock_gettime", "getrandom", "nanosleep", "clock_nanosleep"] {
        println!("cargo:rustc-link-arg=-Wl,--export-dynamic-symbol={s}");
    }
}
