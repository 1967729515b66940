//! Memory shared between a worker and the forked process of one run: how a run
//! reports even when it dies.
use crate::sys;

pub const NCOUNT: usize = 96;
pub const COVMAX: usize = 1 << 16;

#[repr(C)]
pub struct Shared {
    /// 0 = still running, 1 = finished without violation, 2 = violation recorded.
    pub status: u32,
    pub class_len: u32,
    pub class: [u8; 64],
    pub detail_len: u32,
    pub detail: [u8; 8192],
    /// What the run was doing: used when it dies.
    pub doing_len: u32,
    pub doing: [u8; 512],
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub counters: [u64; NCOUNT],
    pub cov: [u8; COVMAX],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();

pub fn init() {
    unsafe { SHARED = sys::map_shared(std::mem::size_of::<Shared>()) as *mut Shared };
}

#[allow(clippy::mut_from_ref)]
pub fn get() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

/// Forgets the previous run, keeping the coverage map (which accumulates).
pub fn reset() {
    let s = get();
    s.status = 0;
    s.class_len = 0;
    s.detail_len = 0;
    s.doing_len = 0;
    s.trace_hash = 0;
    s.sched_hash = 0;
    s.steps = 0;
    s.sim_ns = 0;
    s.switches = 0;
    s.counters = [0; NCOUNT];
}

pub fn put(dst: &mut [u8], len: &mut u32, s: &str) {
    let mut n = s.len().min(dst.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u32;
}

pub fn doing(s: &str) {
    let sh = get();
    put(&mut sh.doing, &mut sh.doing_len, s);
}

pub fn violation(class: &str, detail: &str) {
    let sh = get();
    if sh.status == 2 {
        return;
    }
    put(&mut sh.class, &mut sh.class_len, class);
    put(&mut sh.detail, &mut sh.detail_len, detail);
    sh.status = 2;
}

/// What a process that finds things out for the run must not change.
pub struct Saved([u64; 5], [u64; NCOUNT]);
impl Saved {
    pub fn take() -> Self {
        let s = get();
        Saved([s.trace_hash, s.sched_hash, s.steps, s.sim_ns, s.switches], s.counters)
    }
    pub fn put(self) {
        let s = get();
        [s.trace_hash, s.sched_hash, s.steps, s.sim_ns, s.switches] = self.0;
        s.counters = self.1;
    }
}

/// The harness itself went wrong: no verdict.
pub fn harness(detail: &str) {
    let sh = get();
    if sh.status == 0 {
        put(&mut sh.detail, &mut sh.detail_len, detail);
        sh.status = 3;
    }
}

macro_rules! counters {
    ($($id:ident => $name:expr),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        pub enum C { $($id),* }
        pub const NAMES: &[&str] = &[$($name),*];
    };
}
counters! {
    // fault kinds (prefix F:) and probes (prefix P:)
    PreemptPoint => "F:preemption_at_basic_block",
    PreemptHot => "F:preemption_at_shared_memory_access",
    PreemptAlloc => "F:preemption_at_allocation",
    FutexBlock => "F:thread_blocked_on_lock",
    AllocFailOnce => "F:allocation_failure_single",
    AllocFailBurst => "F:allocation_failure_persistent",
    LogPanic => "F:logger_panic",
    LogStall => "F:logger_stall",
    LogReenter => "F:logger_reentrant_load",
    LogLevel => "F:logger_level_change",
    LogOff => "F:logger_filtered",
    ClockJump => "F:clock_jump",
    ClockTick => "F:clock_advanced_while_reading",
    LogHang => "F:logger_stalled_for_good",
    Respawn => "F:threads_replaced",
    FileGrew => "F:file_grew_while_followed",
    FileRewritten => "F:file_rewritten_while_followed",
    FileReplaced => "F:file_replaced_while_followed",
    Fork => "F:process_forked",
    ForkMid => "F:process_forked_during_loads",
    ForkInLoad => "F:process_forked_by_logger_within_load",
    AmidUnwind => "F:load_while_another_is_unwound",
    Ending => "F:load_while_thread_ends",
    DeepReenter => "F:logger_reentrant_load_nested",

    HashSeed => "F:hash_seed_drawn",
    EnvLie => "F:environment_varied",
    BufReuse => "F:input_buffer_reused",
    BufCommon => "F:input_shared_by_all_tasks",
    BufShift => "F:input_address_shifted",
    Scribble => "F:input_overwritten_after_load",
    Handoff => "F:result_handed_to_other_thread",
    StackBound => "F:bounded_stack",
    BitFlip => "F:bit_flip",
    ZeroRange => "F:lost_sector_zeroed",
    StaleRange => "F:stale_sector",
    Truncate => "F:truncated_file",
    DupRange => "F:duplicated_range",
    DropRange => "F:dropped_range",
    SwapRange => "F:swapped_sectors",
    TornOverwrite => "F:torn_overwrite",
    InsertBytes => "F:foreign_bytes",
    LineLoss => "F:newline_lost",
    UnknownLine => "F:unsupported_statement",
    Crash => "F:writer_crash",
    TailLoss => "F:unsynced_tail_lost",
    PartialFlush => "F:partial_flush",
    WriterSwitch => "F:writer_preempted",
    WriterRetry => "F:writer_retry_duplicate",
    WriterCrash => "F:writer_died_mid_block",
    LogsCompared => "P:diagnostics_compared",
    SawPrefix => "P:reader_saw_one_version",
    SawMixture => "P:reader_saw_mixture",
    LoadOk => "P:loads_ok",
    LoadErr => "P:loads_err",
    LoadPanic => "P:loads_unwound",
    OkJunk => "P:ok_with_damaged_lines",
    ErrJunk => "P:error_with_damaged_lines",
    TornEffect => "P:torn_tail_took_effect",
    TornNone => "P:torn_tail_without_effect",
    TornErr => "P:torn_tail_rejected",
    CutAtBoundary => "P:cut_at_statement_boundary",
    EmptyPrefix => "P:nothing_survived",
    GroupReselect => "P:group_selected_again",
    HotAccess => "P:accesses_to_static_memory",
    CrossAccess => "P:accesses_to_other_threads_heap",
    LogCalls => "P:log_calls",
    ReentrantLoads => "P:reentrant_loads",
    EnvAccess => "P:environment_accesses",
    ClockReads => "P:clock_reads",
    ThreadsRun => "P:caller_threads",
    LibThreads => "P:threads_started_by_loads",
    OpsRun => "P:operations",
    Overlaps => "P:loads_overlapping_another",
    AfterUnwind => "P:loads_after_an_unwound_load",
    LeakSamples => "P:memory_samples",
    Allocs => "P:allocations",
    WriterBlocks => "P:writer_blocks",
    MixedVersions => "P:mixed_version_reads",
    AckedLines => "P:statements_acknowledged_durable",
    Generations => "P:writer_generations",
    StmtKinds => "P:statements_written",
    OomLoud => "P:allocation_failure_reported",
    OomSurvived => "P:allocation_failure_survived",
    BigDoc => "P:large_documents",
}
pub fn count(c: C, n: u64) {
    get().counters[c as usize] += n;
}
