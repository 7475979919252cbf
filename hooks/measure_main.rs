// Access to the stop flags and to the out-of-memory killer, included in cmakeperf::measure::main
// under --cfg crofiler_verif_measure. Nothing here decides anything.
use super::super::{Monitor, StopFlags};
use super::*;
use crate::measure::worker::StopClient;
use std::sync::RwLock;
use sysinfo::System;

/// Stop flags with both of their interfaces
pub struct Flags(&'static StopFlags, Vec<StopClient<'static>>);
impl Flags {
    pub fn new(len: usize) -> Self {
        let f: &'static StopFlags = Box::leak(Box::new(StopFlags::new(len)));
        let clients = f.clients().collect();
        Flags(f, clients)
    }
    pub fn num_active(&self) -> usize { self.0.server().num_active() }
    pub fn active(&self) -> Vec<usize> { self.0.server().enumerate_active().collect() }
    pub fn stop(&self, i: usize) { self.0.server().stop(i) }
    pub fn stop_all(&self) { self.0.server().stop_all() }
    pub fn seen(&self) -> Vec<bool> { self.1.iter().map(|c| c.must_stop()).collect() }
}

/// Out-of-memory killer in a given state
pub struct Killer(&'static Monitor, MonitorServer<'static>);
impl Killer {
    pub fn new(elapsed: &[usize], bkg: usize, margin: u64, last: u64) -> Self {
        let m: &'static Monitor = Box::leak(Box::new(Monitor {
            system: RwLock::new(System::new()),
            elapsed: Monitor::new(elapsed.len()).elapsed,
            stop: StopFlags::new(elapsed.len()),
        }));
        for (c, e) in m.elapsed.iter().zip(elapsed) { c.store(*e, Ordering::Relaxed); }
        Killer(m, MonitorServer { monitor: m, stop_server: m.stop.server(), assumed_bkg_threads: bkg, oom_margin: margin, refresh_kind: Monitor::refresh_kind(), last_available_memory: Some(last) })
    }
    /// a killer as the measurement makes it
    pub fn real(concurrency: usize) -> Self {
        let m: &'static Monitor = Box::leak(Box::new(Monitor::new(concurrency)));
        Killer(m, m.server())
    }
    pub fn work(&self, i: usize, e: usize) { self.0.elapsed[i].store(e, Ordering::Relaxed) }
    pub fn active(&self) -> Vec<usize> { self.1.stop_server.enumerate_active().collect() }
    pub fn margin(&self) -> u64 { self.1.oom_margin }
    pub fn last(&self) -> Option<u64> { self.1.last_available_memory }
    pub fn bkg(&self) -> usize { self.1.assumed_bkg_threads }
    pub fn set(&mut self, margin: u64, last: u64) { self.1.oom_margin = margin; self.1.last_available_memory = Some(last); }
    pub fn stop_all(&mut self) { self.1.stop_all() }
    /// an update that finds this much memory available; true if everyone has been killed
    pub fn update_with(&mut self, available: u64) -> bool {
        self.1.update_oom_threshold(available);
        self.1.handle_oom_and_termination(available) == MonitorStatus::KilledEveryone
    }
    /// an update that looks at the system
    pub fn update(&mut self) -> bool { self.1.update() == MonitorStatus::KilledEveryone }
}
