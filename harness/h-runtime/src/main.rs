//! The repository's whole runtime on the stand-in crates: maintenance mode, futurepass, fee proxy, doughnuts, XRPL
//! envelopes, id allocation and the precompiles (C06, C22, C23, C25, C26, C27, C33, C37-C40)
#![allow(clippy::all)]
use vkit::{self as vk, ensure, Rng};
mod env;
mod fees;
mod gas;
mod gates;
mod grants;
mod ids;
mod maint;
mod pass;
mod rt;
mod sessions;
mod tokens; mod trade;
mod upgrade;
mod wallet;
mod wiring;
fn main() { if std::env::var("VLOG").is_ok() { let _ = log::set_logger(&Log); log::set_max_level(log::LevelFilter::Info); } vk::main(&[vk::Spec { pid: "C25", run: maint::run, required: maint::REQUIRED }, vk::Spec { pid: "C26", run: grants::run, required: grants::REQUIRED }, vk::Spec { pid: "C27", run: wallet::run, required: wallet::REQUIRED }, vk::Spec { pid: "C22", run: pass::run, required: pass::REQUIRED }, vk::Spec { pid: "C23", run: fees::run, required: fees::REQUIRED }, vk::Spec { pid: "C06", run: ids::run, required: ids::REQUIRED }, vk::Spec { pid: "C33", run: tokens::run, required: tokens::REQUIRED }, vk::Spec { pid: "C38", run: gates::run, required: gates::REQUIRED }, vk::Spec { pid: "C40", run: gas::run, required: gas::REQUIRED }, vk::Spec { pid: "C34", run: gas::run, required: gas::REQUIRED }, vk::Spec { pid: "C14", run: wiring::vault_run, required: wiring::REQUIRED_VAULT }, vk::Spec { pid: "C17", run: wiring::events_run, required: wiring::REQUIRED_EVENTS }, vk::Spec { pid: "C19", run: sessions::run, required: sessions::REQUIRED }, vk::Spec { pid: "C11", run: sessions::approvals, required: sessions::REQUIRED_APPROVALS }, vk::Spec { pid: "C39", run: upgrade::run, required: upgrade::REQUIRED }, vk::Spec { pid: "C37", run: trade::run, required: trade::REQUIRED }]) }
/// `VLOG=1` prints what the pallets log
struct Log;
impl log::Log for Log { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { eprintln!("[{}] {}", r.target(), r.args()) } fn flush(&self) {} }
