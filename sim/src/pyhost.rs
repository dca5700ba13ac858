//! Calls of simulated clients that go through the Python wrapper (only when hosted by py/host.py).
use crate::alloc::tracked;
use crate::rt::quiet;
use std::ffi::CString;
use std::os::raw::c_char;
use std::process::Command;
use std::sync::OnceLock;

pub type Callback = extern "C" fn(*const c_char);
struct Host { call: Callback, command: Vec<String> }
static HOST: OnceLock<Host> = OnceLock::new();
thread_local! { static ANSWER: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }

#[allow(dead_code)] pub fn install(call: Callback, command: &str) { let _ = HOST.set(Host { call, command: serde_json::from_str(command).expect("command") }); }
#[allow(dead_code)] pub fn put(b: &[u8]) { quiet(|| ANSWER.with(|a| *a.borrow_mut() = Some(String::from_utf8_lossy(b).into_owned()))); }
pub fn hosted() -> bool { HOST.get().is_some() }
/// a further process of the same kind as this one
pub fn this_program() -> Command {
    match HOST.get() { Some(h) => { let mut c = Command::new(&h.command[0]); c.args(&h.command[1..]); c } None => Command::new(std::env::current_exe().expect("exe")) }
}
pub fn this_program_text() -> String { match HOST.get() { Some(h) => h.command.join(" "), None => std::env::current_exe().expect("exe").display().to_string() } }
pub fn call(op: &serde_json::Value) -> String {
    let Some(h) = HOST.get() else { return "NOPYTHON".into() };
    let text = quiet(|| { ANSWER.with(|a| a.borrow_mut().take()); CString::new(op.to_string()).expect("json") });
    tracked(|| (h.call)(text.as_ptr()));
    quiet(|| { drop(text); ANSWER.with(|a| a.borrow_mut().take()).unwrap_or_else(|| "BAD the Python side did not answer".into()) })
}
