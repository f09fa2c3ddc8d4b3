//! The scenarios, the properties they decide, and the reporting.
use crate::engine::*;
use crate::{adapt, block, conn, io_conc, io_hist, leak, life, special, stream, timer};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

/// deep: scenarios of the thorough tier only.
pub struct Prop { pub id: &'static str, pub scens: &'static [&'static str], pub deep: &'static [&'static str] }
pub fn all() -> &'static [Prop] { PROPS }
pub fn scens() -> &'static [Scen] { SCENS }
pub fn find(name: &str) -> Option<&'static Scen> { SCENS.iter().find(|s| s.name == name) }

/// t: deviations of time, f: injected errors, total: all deviations, within the quick tier.
const fn s(name: &'static str, f: fn(), t: u8, faults: u8, total: u8, about: &'static str) -> Scen {
    Scen { name, about, f, por: true,
        quick: Bounds { p: total, s: total, t, f: faults, total },
        thorough: Bounds { p: 9, s: 9, t: if t > 0 { 4 } else { 0 }, f: if faults > 0 { 3 } else { 0 }, total: 9 } }
}

static SCENS: &[Scen] = &[
    s("io_one", io_hist::io_one, 0, 0, 2, "operation histories: one reader; waits, events, cancellation"),
    s("io_dirs", io_hist::io_dirs, 0, 0, 1, "operation histories: both directions of one handle"),
    s("io_multi", io_hist::io_multi, 0, 0, 1, "operation histories: several waits for one direction, with changing wakers and cancellation"),
    s("io_meth", io_hist::io_meth, 0, 0, 1, "operation histories: poll_readable, displaced by another task, mixed with a readiness future"),
    s("io_methw", io_hist::io_methw, 0, 0, 1, "operation histories: poll_writable, displaced by another task, mixed with a readiness future"),
    s("io_cross", io_hist::io_cross, 0, 0, 1, "operation histories: poll methods and futures of both directions"),
    s("io_renew", io_hist::io_renew, 0, 0, 1, "operation histories: the handle is replaced by a new one in the same slot, with the same descriptor number"),
    s("io_close", io_hist::io_close, 0, 0, 1, "operation histories: the peer hangs up"),
    s("io_owned", io_hist::io_owned, 0, 0, 1, "operation histories: owned futures, which may be the last owners of the handle"),
    s("io_owned_multi", io_hist::io_owned_multi, 0, 0, 1, "operation histories: several owned futures for one direction"),
    s("io_all", io_hist::io_all, 0, 0, 1, "operation histories: all operations, shorter"),
    s("io_driven", io_hist::io_driven, 0, 0, 1, "operation histories with a thread inside block_on that may drive the reactor"),
    s("io_driven_meth", io_hist::io_driven_meth, 0, 0, 1, "the same with poll methods"),
    s("fault_arm", io_hist::fault_arm, 0, 2, 2, "operation histories; arming or re-arming interest fails at any point"),
    s("fault_arm_owned", io_hist::fault_arm_owned, 0, 2, 2, "the same with owned futures, which may be the last owners of the handle"),
    s("fault_adapt", adapt::fault_adapt, 0, 1, 1, "all 16 adapter forms on a scripted object; arming the wait may fail at any attempt"),
    s("fault_real", adapt::fault_real, 0, 1, 3, "all 23 socket operations; arming the wait may fail at any attempt"),
    s("fault_arm_meth", io_hist::fault_arm_meth, 0, 2, 2, "the same with poll methods"),
    s("timer_poll", timer::timer_poll, 0, 0, 0, "timer histories against a reference model: polls with changing wakers, time just before, at and after the deadline"),
    s("timer_set", timer::timer_set, 0, 0, 0, "timer histories against a reference model: setters, among them never, past and interval settings"),
    s("timer_set2", timer::timer_set2, 0, 0, 0, "timer histories against a reference model: more setters"),
    s("timer_interval", timer::timer_interval, 0, 0, 0, "interval histories against a reference model, polled early, on time and late"),
    s("timer_extreme", timer::timer_extreme, 0, 0, 1, "deadlines and periods up to the last representable instant, and from the first one, beside near ones"),
    s("timer_many", timer::timer_many, 0, 0, 1, "3 to 250 timers at once, in five orders; some are dropped, moved or handed on"),
    s("timer_set_deep", timer::timer_set_deep, 0, 0, 0, "timer histories against a reference model: all operations, longer"),
    s("timer_race", timer::timer_race, 0, 0, 2, "two threads start timers while the helper thread computes its timeout and goes to sleep; the sooner one last"),
    s("timer_race_equal", timer::timer_race_equal, 0, 0, 2, "the same with equal deadlines"),
    s("timer_race_time", timer::timer_race_time, 2, 0, 2, "the same, time passing at any clock read"),
    s("timer_reset_race", timer::timer_reset_race, 2, 0, 2, "one timer is moved or dropped while the other one is pending and the helper thread runs"),
    s("timer_chain", timer::timer_chain, 0, 0, 2, "a timer is started while another thread is woken by an earlier one"),
    s("timer_full", timer::timer_full, 0, 0, 1, "more timer operations than the internal queue holds, the last ones racing with the helper thread"),
    s("timer_block_on_later", timer::timer_block_on_later, 0, 0, 2, "a timer outside and one inside block_on"),
    s("timer_block_on_sooner", timer::timer_block_on_sooner, 0, 0, 2, "the same, the outer one later"),
    s("timer_block_on_far", timer::timer_block_on_far, 0, 0, 2, "the same, far apart"),
    s("timer_block_on_time", timer::timer_block_on_time, 2, 0, 2, "the same, time passing at any clock read"),
    s("interval_two", timer::interval_two, 0, 0, 2, "two interval streams, in block_on and outside it"),
    s("interval_two_same", timer::interval_two_same, 0, 0, 2, "the same with equal instants"),
    s("interval_two_time", timer::interval_two_time, 2, 0, 2, "the same, time passing at any clock read"),
    s("bo_wake", block::bo_wake, 2, 0, 3, "one thread in block_on, one that wakes it"),
    s("bo_wake_twice", block::bo_wake_twice, 2, 0, 3, "two waits and wakes in succession"),
    s("bo_two_wakers", block::bo_two_wakers, 2, 0, 3, "two threads wake one block_on for two events it needs both of"),
    s("bo_self", block::bo_self, 2, 0, 3, "the future is woken from its own poll"),
    s("bo_io", block::bo_io, 2, 0, 3, "block_on waits for I/O that another thread causes"),
    s("bo_io_and_wake", block::bo_io_and_wake, 2, 0, 2, "I/O and a wake from another thread for one block_on"),
    s("bo_ping", block::bo_ping, 2, 0, 3, "two block_on threads wake each other in turn"),
    s("bo_two_io", block::bo_two_io, 2, 0, 2, "two block_on threads wait for I/O, a third one causes both events"),
    s("bo_timer_mix", block::bo_timer_mix, 2, 0, 2, "block_on with timers on two threads and a wake"),
    s("dr_wake", block::dr_wake, 2, 0, 4, "one thread in block_on that drives the reactor, one that wakes it"),
    s("dr_wake_twice", block::dr_wake_twice, 2, 0, 4, "two waits and wakes in succession"),
    s("dr_two_wakers", block::dr_two_wakers, 2, 0, 3, "two threads wake the one that drives"),
    s("dr_io_and_wake", block::dr_io_and_wake, 2, 0, 3, "I/O and a wake for the thread that drives"),
    s("dr_chain", block::dr_chain, 2, 0, 3, "the driving thread is woken by a waker the reactor calls"),
    s("dr_self", block::dr_self, 2, 0, 3, "the future wakes itself while its thread is the one to drive"),
    s("dr_after", block::dr_after, 2, 0, 2, "a thread with a past inside block_on wakes the one that drives"),
    s("dr_ping", block::dr_ping, 2, 0, 3, "two block_on threads wake each other, either drives"),
    s("dr_nested", block::dr_nested, 2, 0, 3, "nested calls of a thread that drives"),
    s("bo_nested", block::bo_nested, 2, 0, 3, "nested block_on calls with wakes of either future at every position"),
    s("bo_nested_cross", block::bo_nested_cross, 2, 0, 3, "a nested call waits while the outer future is woken by another thread"),
    s("bo_consecutive", block::bo_consecutive, 2, 0, 3, "consecutive calls on one thread, with wakes left over"),
    s("bo_separate", block::bo_separate, 2, 0, 3, "two concurrent calls, one of them is woken"),
    s("drive_leave", block::drive_leave, 2, 0, 2, "a block_on thread that drives the reactor finishes"),
    s("drive_left", block::drive_left, 2, 0, 2, "the driving thread leaves long before the event"),
    s("drive_busy", block::drive_busy, 2, 0, 2, "one block_on thread computes, another sleeps"),
    s("drive_handover", block::drive_handover, 2, 0, 3, "one block_on thread drives and leaves, the other one sleeps"),
    s("drive_hog", block::drive_hog, 2, 0, 3, "the driving block_on thread stops hogging the reactor"),
    s("drive_succession", block::drive_succession, 2, 0, 2, "block_on calls in quick succession while a task outside waits"),
    s("drive_time", block::drive_time, 2, 0, 2, "time passes at any clock read"),
    s("drive_active", block::drive_active, 2, 0, 1, "the driving thread is busy with events for long and then computes or sleeps"),
    s("drive_hog_driver", block::drive_hog_driver, 2, 0, 2, "the driving thread stops hogging the reactor and sleeps"),
    s("drive_second", block::drive_second, 2, 0, 2, "I/O of a block_on call whose thread does not drive the reactor"),
    s("conc_same", io_conc::conc_same, 0, 0, 3, "two tasks wait on one handle, same or different direction, either kind of wait"),
    s("conc_other", io_conc::conc_other, 0, 0, 3, "one event; the wait in the other direction stays armed"),
    s("conc_two", io_conc::conc_two, 0, 0, 3, "two handles, two tasks, two events"),
    s("conc_churn", io_conc::conc_churn, 0, 0, 2, "handles come and go while an event for another handle is delivered"),
    s("conc_reuse", io_conc::conc_reuse, 0, 0, 3, "a handle with an event in flight is replaced by one with the same number and slot"),
    s("conc_remove", io_conc::conc_remove, 0, 0, 3, "a handle goes away while another one is made and waited for, and an event for the first comes"),
    s("conc_owned", io_conc::conc_owned, 0, 0, 3, "owned futures: event, last owner and drop race"),
    s("conc_cancel", io_conc::conc_cancel, 0, 0, 3, "one of two waits is cancelled while the event for both is delivered"),
    s("conc_waker", io_conc::conc_waker, 0, 0, 4, "a wait is polled again with another waker while its event is delivered"),
    s("conc_displace", io_conc::conc_displace, 0, 0, 3, "two tasks wait by the poll method of one handle"),
    s("conc_drive", io_conc::conc_drive, 0, 0, 2, "a thread in block_on does I/O while other tasks wait outside"),
    s("conc_three", io_conc::conc_three, 0, 0, 2, "three threads in block_on with handles of their own or the same one"),
    s("conc_consume", io_conc::conc_consume, 0, 0, 2, "several waits for one direction; the first task woken uses the readiness up"),
    s("many_waits", io_conc::many_waits, 0, 0, 1, "2 to 130 waits for one direction; some are cancelled, replaced or polled again before the event"),
    s("conc_drop", io_conc::conc_drop, 0, 0, 3, "a handle is dropped while another one's wait is delivered and a third one registers"),
    s("life_two", life::life_two, 0, 0, 1, "histories of creating, waiting, dropping and unwrapping two handles"),
    s("life_dup", life::life_dup, 0, 0, 1, "histories with a second handle for the same descriptor, and duplicates of it"),
    s("life_fail", life::life_fail, 0, 1, 1, "histories with failing registrations and deregistrations"),
    s("life_race", life::life_race, 0, 0, 3, "two threads create, use and drop handles"),
    s("leak_handles", leak::leak_handles, 0, 0, 0, "12 histories of handles and waits, each repeated 130 times: nothing piles up"),
    s("leak_timers", leak::leak_timers, 0, 0, 0, "9 histories of timers and block_on calls, each repeated 130 times: nothing piles up"),
    s("mode_new", life::mode_new, 0, 0, 2, "every constructor, from blocking and non-blocking originals"),
    s("mode_keep", life::mode_keep, 0, 0, 2, "the non-blocking constructor, unwrapping and dropping"),
    s("mode_refused", life::mode_refused, 0, 1, 2, "the OS refuses to change the mode"),
    s("mode_poll", life::mode_poll, 0, 0, 3, "no operation blocks the polling thread, possible or not"),
    s("fd_export", life::fd_export, 0, 0, 2, "the exported descriptor against the events of handles"),
    s("fd_first", life::fd_first, 0, 0, 3, "the exported descriptor as the first use, on several threads"),
    s("first_two", life::first_two, 0, 0, 2, "the first use of the library, by two threads"),
    s("first_three", life::first_three, 0, 0, 1, "the first use of the library, by three threads"),
    s("adapt_poll", adapt::adapt_poll, 0, 0, 2, "poll adapters by value on a scripted object: every answer, every order of events, cancellation"),
    s("adapt_poll_ref", adapt::adapt_poll_ref, 0, 0, 2, "the same by reference"),
    s("adapt_with", adapt::adapt_with, 0, 0, 2, "closure adapters on a scripted object"),
    s("adapt_real", adapt::adapt_real, 0, 2, 3, "every socket operation on real sockets, with errors of the OS and cancellation"),
    s("conn_tcp", conn::conn_tcp, 0, 0, 2, "TCP: every answer of the OS and every order of events while the attempt is in progress"),
    s("conn_unix", conn::conn_unix, 0, 0, 2, "Unix: the same"),
    s("conn_fault", conn::conn_fault, 0, 1, 3, "errors of the OS on the way"),
    s("conn_race", conn::conn_race, 0, 0, 3, "the attempt ends on another thread at any moment"),
    s("conn_real", conn::conn_real, 0, 0, 2, "real sockets of the loopback network"),
    s("stream_one_way", stream::stream_one_way, 0, 0, 2, "one writer and one reader, all patterns of lengths"),
    s("stream_again", stream::stream_again, 0, 1, 2, "the same with spurious would-block results"),
    s("stream_duplex", stream::stream_duplex, 0, 0, 1, "both directions of both handles at once"),
    s("stream_cancel", stream::stream_cancel, 0, 0, 2, "a writer that gives up in the middle"),
    s("stream_tcp", stream::stream_tcp, 0, 0, 2, "TCP connections made by the library"),
    s("dgram_unix", stream::dgram_unix, 0, 0, 2, "Unix datagrams"),
    s("dgram_udp", stream::dgram_udp, 0, 0, 2, "UDP datagrams"),
    s("share_dgram", stream::share_dgram, 0, 0, 2, "two tasks receive from one datagram socket, two others send"),
    s("share_stream", stream::share_stream, 0, 0, 2, "two tasks read from one stream, two others write to it"),
    s("share_accept", stream::share_accept, 0, 0, 1, "two tasks accept the connections of one listener"),
    s("panic_wakers", special::panic_wakers, 0, 0, 2, "several waits fall due in one delivery; the wakers of any subset panic"),
    s("panic_displaced", special::panic_displaced, 0, 0, 2, "a displaced waker panics"),
    s("panic_future", special::panic_future, 0, 0, 2, "a future panics inside block_on, alone, nested, beside others"),
    s("panic_race", special::panic_race, 0, 0, 2, "a waker panics while another thread waits for its turn to deliver"),
    s("reent_helper", special::reent_helper, 0, 0, 1, "two wakers each do one of 16 things with the library, called by the helper thread"),
    s("reent_block_on", special::reent_block_on, 0, 0, 0, "the same, called by a thread in block_on"),
    s("reent_race", special::reent_race, 0, 0, 2, "the same beside another thread that uses the library"),
    s("reent_displaced", special::reent_displaced, 0, 0, 1, "a displaced poll-method waiter whose waker uses the library, also the same handle, x 19 operations"),
    s("reent_release", special::reent_release, 0, 0, 1, "the library gives back the last reference to a task in 9 ways, and with it the task's timers, handles and waits go, also those of the same handle, x 20 operations"),
    s("idle", special::idle, 0, 0, 2, "18 situations in which nothing is to be done, with 0 to 2 threads in block_on"),
    s("starve_timers", special::starve_timers, 0, 0, 2, "a handle that is always ready beside timers"),
    s("starve_self", special::starve_self, 0, 0, 1, "a future inside block_on that never pauses, beside timers and I/O"),
    s("starve_io", special::starve_io, 0, 0, 1, "timers that fall due without a pause beside I/O"),
    s("starve_many", special::starve_many, 0, 0, 1, "many handles ready in one round"),
    s("fault_wait", special::fault_wait, 0, 2, 2, "the OS fails while the library waits for events"),
    s("fault_rearm", special::fault_rearm, 0, 2, 3, "interest cannot be registered again during delivery"),
    s("fault_delete", special::fault_delete, 0, 2, 3, "a handle cannot be deregistered"),
];
static PROPS: &[Prop] = &[
    Prop { id: "C01", scens: &["many_waits", "io_one", "io_dirs", "io_multi", "io_meth", "io_methw", "io_cross", "io_renew", "io_close", "io_all", "io_driven", "io_driven_meth", "conc_same", "conc_other", "conc_two", "conc_churn", "conc_drive", "conc_three", "conc_consume"], deep: &[] },
    Prop { id: "C02", scens: &["io_dirs", "io_meth", "io_methw", "io_cross", "io_renew", "io_close", "io_all", "conc_other", "conc_reuse", "conc_remove", "conc_churn", "conc_cancel"], deep: &[] },
    Prop { id: "C03", scens: &["many_waits", "io_dirs", "io_multi", "io_cross", "io_all", "conc_same", "conc_other", "conc_two", "conc_cancel", "conc_churn", "conc_three", "conc_drop", "conc_consume"], deep: &[] },
    Prop { id: "C04", scens: &["timer_many", "many_waits", "io_one", "io_multi", "io_meth", "io_methw", "conc_waker", "conc_displace", "conc_drop", "conc_cancel", "timer_poll", "timer_set", "timer_reset_race", "timer_full", "leak_timers"], deep: &[] },
    Prop { id: "C05", scens: &["timer_many", "timer_extreme", "timer_poll", "timer_set", "timer_set2", "timer_interval", "timer_race_time", "timer_reset_race"], deep: &["timer_set_deep"] },
    Prop { id: "C06", scens: &["timer_many", "timer_extreme", "timer_poll", "timer_race", "timer_race_equal", "timer_race_time", "timer_reset_race", "timer_chain", "timer_full", "timer_block_on_later", "timer_block_on_sooner", "timer_block_on_far", "timer_block_on_time"], deep: &[] },
    Prop { id: "C07", scens: &["timer_extreme", "timer_interval", "timer_set2", "interval_two", "interval_two_same", "interval_two_time"], deep: &["timer_set_deep"] },
    Prop { id: "C08", scens: &["timer_many", "timer_set", "timer_set2", "timer_poll", "timer_interval", "timer_reset_race"], deep: &["timer_set_deep"] },
    Prop { id: "C09", scens: &["bo_wake", "bo_wake_twice", "bo_two_wakers", "bo_self", "bo_io", "bo_io_and_wake", "bo_ping", "bo_two_io", "bo_timer_mix", "dr_wake", "dr_wake_twice", "dr_two_wakers", "dr_io_and_wake", "dr_chain", "dr_self", "dr_after", "dr_ping", "dr_nested"], deep: &[] },
    Prop { id: "C10", scens: &["drive_leave", "drive_left", "drive_busy", "drive_handover", "drive_hog", "drive_succession", "drive_time", "drive_second", "drive_active", "drive_hog_driver", "timer_block_on_far", "io_driven", "conc_three"], deep: &[] },
    Prop { id: "C11", scens: &["bo_nested", "bo_nested_cross", "bo_consecutive", "bo_separate", "dr_nested"], deep: &[] },
    Prop { id: "C12", scens: &["panic_wakers", "panic_displaced", "panic_future", "panic_race"], deep: &[] },
    Prop { id: "C13", scens: &["life_two", "life_dup", "life_fail", "life_race", "conc_reuse", "conc_remove", "conc_drop", "io_owned", "conc_owned", "leak_handles"], deep: &[] },
    Prop { id: "C14", scens: &["adapt_poll", "adapt_poll_ref", "adapt_with", "adapt_real", "fault_adapt", "fault_real"], deep: &[] },
    Prop { id: "C15", scens: &["mode_new", "mode_keep", "mode_refused", "mode_poll"], deep: &[] },
    Prop { id: "C16", scens: &["conn_tcp", "conn_unix", "conn_fault", "conn_race", "conn_real"], deep: &[] },
    Prop { id: "C17", scens: &["stream_one_way", "stream_again", "stream_duplex", "stream_cancel", "stream_tcp", "dgram_unix", "dgram_udp", "share_dgram", "share_stream", "share_accept"], deep: &[] },
    Prop { id: "C18", scens: &["fault_arm", "fault_arm_meth", "fault_arm_owned", "fault_adapt", "fault_real", "fault_wait", "fault_rearm", "fault_delete"], deep: &[] },
    Prop { id: "C19", scens: &["first_two", "first_three", "fd_first"], deep: &[] },
    Prop { id: "C20", scens: &["reent_helper", "reent_block_on", "reent_race", "reent_displaced", "reent_release"], deep: &[] },
    Prop { id: "C21", scens: &["idle"], deep: &[] },
    Prop { id: "C22", scens: &["starve_timers", "starve_io", "starve_many", "starve_self"], deep: &[] },
    Prop { id: "C23", scens: &["io_owned", "io_owned_multi", "conc_owned", "fault_arm_owned"], deep: &[] },
    Prop { id: "C24", scens: &["fd_export", "fd_first"], deep: &[] },
];

pub fn line(r: &Report) -> String {
    format!("{}: {} execs {:.1}s ({:.0}/s) levels {:?} completed {} exhausted {} outcomes {} maxpts {} threads {} diverged {} unstable {} dropped {} trunc {} kinds {:?}",
        r.name, r.execs, r.wall, r.execs as f64 / r.wall, r.level_execs, r.completed, r.exhausted, r.outcomes, r.maxpoints, r.maxthreads, r.diverged, r.unstable, r.dropped, r.truncated, &r.kinds[1..6])
}

fn root() -> std::path::PathBuf { std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o + "\""
}
/// Lines `finding: property=<id> scenario=<name> message=<substring>` of the committed file.
fn findings(id: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) else { return vec![] };
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: property=")?;
        let (p, l) = l.split_once(" scenario=")?;
        let (s, m) = l.split_once(" message=")?;
        (p == id).then(|| (s.to_string(), m.to_string()))
    }).collect()
}

/// Runs the check of one property; the return value is the exit status.
pub fn check(id: &str, tier: Option<&str>) -> i32 {
    let Some(p) = PROPS.iter().find(|p| p.id == id) else { eprintln!("no property {id}"); return 2 };
    let tier = tier.map(|t| t.to_string()).or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let deep = tier == "thorough";
    if !deep && tier != "quick" { eprintln!("no tier {tier}"); return 2 }
    std::env::set_var("VERIF_TIER", &tier); // the scenarios look at it
    let t0 = Instant::now();
    // the quick tier ends by itself long before this
    let budget = Duration::from_secs(std::env::var("MC_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(if deep { 720 } else { 600 }));
    let known = findings(id);
    let names: Vec<&str> = p.scens.iter().chain(if deep { p.deep } else { &[] }).copied().collect();
    let mut reps: Vec<Report> = vec![];
    let mut violated = 0;
    for (i, n) in names.iter().enumerate() {
        let sc = find(n).expect("scenario");
        let left = budget.saturating_sub(t0.elapsed());
        let cap = if deep { left / (names.len() - i) as u32 } else { left.min(Duration::from_secs(120)) };
        let ks: Vec<String> = known.iter().filter(|k| k.0 == *n).map(|k| k.1.clone()).collect();
        let r = explore(sc, if deep { sc.thorough } else { sc.quick }, cap, &ks);
        println!("{}", line(&r));
        if r.known > 0 { for k in &ks { println!("KNOWN-FINDING: property={id} {n}: {k}") } }
        if let Some(v) = &r.violation {
            let dir = root().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let f = dir.join(format!("{id}-{n}.replay"));
            let devs: Vec<String> = v.devs.iter().map(|d| format!("{}:{}", d.0, d.1)).collect();
            let t = format!("property {id}\nscenario {n}\ntier {tier}\ndevs {}\nstatus {}\nmessage {}\nlog\n{}", devs.join(" "), status_name(v.status), v.msg.replace('\n', " "), v.log);
            if let Err(e) = std::fs::write(&f, t) { eprintln!("{}: {e}", f.display()) }
            println!("{}{} in {n} ({}) after {} deviations: {}", tail(&v.log, 60), status_name(v.status), sc.about, v.level, v.msg);
            println!("VIOLATION property={id} replay={}", f.display());
            violated += 1;
        }
        reps.push(r);
        if violated > 0 { break }
    }
    if let Err(e) = evidence(id, &tier, &names, &reps, t0.elapsed().as_secs_f64(), violated) { eprintln!("evidence: {e}"); return 2 }
    if violated > 0 { 1 } else { 0 }
}
fn tail(s: &str, n: usize) -> String { let l: Vec<&str> = s.lines().collect(); l[l.len().saturating_sub(n)..].iter().map(|x| format!("  {x}\n")).collect() }

fn evidence(id: &str, tier: &str, names: &[&str], reps: &[Report], wall: f64, violated: i64) -> std::io::Result<()> {
    let sum = |f: fn(&Report) -> u64| reps.iter().map(f).sum::<u64>();
    let mut o = String::new();
    let all = reps.len() == names.len() && violated == 0 && reps.iter().all(|r| r.exhausted);
    let _ = write!(o, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"wall_s\": {wall:.2}, \"violations\": {violated},\n \"coverage\": {{\n", js(id), js(tier),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(0));
    let _ = write!(o, "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"exhaustive\": {all},\n", sum(|r| r.nodes), sum(|r| r.transitions), sum(|r| r.execs));
    let _ = write!(o, "  \"rule\": {},\n", js("states: distinct nodes of the tree of choices (schedule, time, injected error, operation) reached; transitions: steps of controlled threads; traces: complete executions of the real library (every execution runs the compiled code of /repo, there is no separate model). exhaustive: every execution within the bounds of every scenario was run, after partial-order reduction"));
    let _ = write!(o, "  \"context_switches\": {}, \"system_calls\": {}, \"distinct_outcomes\": {}, \"diverged\": {}, \"unstable\": {},\n  \"scenarios\": [\n", sum(|r| r.switches), sum(|r| r.syscalls), sum(|r| r.outcomes), sum(|r| r.diverged), sum(|r| r.unstable));
    for (i, r) in reps.iter().enumerate() {
        let b = r.bounds;
        let _ = write!(o, "   {{\"name\": {}, \"about\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"outcomes\": {}, \"executions_by_deviations\": {:?}, \"bounds\": {{\"deviations\": {}, \"preemptions\": {}, \"switches_at_blocking\": {}, \"time\": {}, \"errors\": {}}}, \"complete_up_to\": {}, \"exhausted\": {}, \"capped\": {}, \"longest\": {}, \"threads\": {}, \"diverged\": {}, \"cut\": {}, \"known\": {}, \"wall_s\": {:.2}}}{}\n",
            js(r.name), js(find(r.name).map(|s| s.about).unwrap_or("")), r.execs, r.nodes, r.transitions, r.outcomes, r.level_execs, b.total, b.p, b.s, b.t, b.f, r.completed, r.exhausted, r.capped, r.maxpoints, r.maxthreads, r.diverged, r.cuts, r.known, r.wall, if i + 1 < reps.len() { "," } else { "" });
    }
    let _ = write!(o, "  ],\n  \"samples\": [");
    let mut first = true;
    for r in reps.iter().take(3) { let _ = write!(o, "{}\n   {{\"scenario\": {}, \"default_execution\": {}}}", if first { "" } else { "," }, js(r.name), js(&tail(&r.sample, 40))); first = false; }
    for r in reps { if let Some(v) = &r.violation { let _ = write!(o, ",\n   {{\"scenario\": {}, \"violation\": {}, \"devs\": {}}}", js(r.name), js(&v.msg), js(&format!("{:?}", v.devs))); } }
    let _ = write!(o, "\n  ]\n }},\n \"assumptions\": [{}]\n}}\n", ["sequentially consistent memory (the reorderings of weak memory are not explored)",
        "Linux, epoll back end; the kernel's behaviour on the descriptors of the scenarios is the real one, observed between scheduling points",
        "accesses of the precompiled standard library that are not lock, atomic-in-generic-code or system call operations are not scheduling points",
        "bounded: the scenarios' threads and histories, and the number of deviations given per scenario"].map(js).join(", "));
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir)?;
    std::fs::write(dir.join(format!("{id}.json")), o)
}

/// Runs the execution of a replay file again: 1 if it fails again, 0 if it does not.
pub fn replay_file(f: &str) -> i32 {
    let t = match std::fs::read_to_string(f) { Ok(t) => t, Err(e) => { eprintln!("{f}: {e}"); return 2 } };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string())).unwrap_or_default();
    std::env::set_var("VERIF_TIER", get("tier "));
    let Some(sc) = find(&get("scenario ")) else { eprintln!("{f}: no scenario"); return 2 };
    let devs: Vec<(u32, u16)> = get("devs ").split_whitespace().filter_map(|x| { let (a, b) = x.split_once(':')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect();
    let (st, msg, log, n) = replay(sc, &devs);
    println!("{log}{} {msg} ({n} points)", status_name(st));
    if matches!(st, crate::rt::ST_OK | crate::rt::ST_CUT) { 0 } else if matches!(st, crate::rt::ST_DIVERGE | crate::rt::ST_INTERNAL) { 2 } else { println!("VIOLATION property={} replay={f}", get("property ")); 1 }
}
