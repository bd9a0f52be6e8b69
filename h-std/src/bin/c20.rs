//! C20: timestamps convert exactly or not at all.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, SystemTime};
use tinymist_std::time::{ToUtcDateTime, UtcDateTime};
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

/// Seconds since 1970 with nanoseconds into that second.
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, PartialOrd)]
struct Instant {
    secs: i64,
    nanos: u32,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    at: Vec<Instant>,
}

/// (year, month, day, hour, minute, second) of a Unix timestamp, counted by
/// 400-year cycles and then year by year and month by month.
fn civil(t: i64) -> (i64, u8, u8, u8, u8, u8) {
    let days = t.div_euclid(86400);
    let sod = t.rem_euclid(86400);
    // 2000-01-01 is day 10957 and starts a cycle of 146097 days.
    let cycle = (days - 10957).div_euclid(146097);
    let mut rest = (days - 10957).rem_euclid(146097);
    let leap = |y: i64| y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0);
    let mut year = 2000 + 400 * cycle;
    loop {
        let len = if leap(year) { 366 } else { 365 };
        if rest < len {
            break;
        }
        rest -= len;
        year += 1;
    }
    let lens = [31, if leap(year) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut month = 0;
    while rest >= lens[month] {
        rest -= lens[month];
        month += 1;
    }
    (year, month as u8 + 1, rest as u8 + 1, (sod / 3600) as u8, (sod / 60 % 60) as u8, (sod % 60) as u8)
}

fn supported(year: i64) -> bool {
    year >= UtcDateTime::MIN.year() as i64 && year <= UtcDateTime::MAX.year() as i64
}

fn instant() -> BoxedStrategy<Instant> {
    let year = 31_556_952i64;
    let edge = prop::sample::select(vec![
        0i64,
        86_400,
        -86_400,
        951_782_400,      // 2000-02-29
        4_107_542_400,    // 2100-03-01
        -2_203_891_200,   // 1900-03-01
        253_402_300_800,  // 10000-01-01
        -62_167_219_200,  // year 0
        -62_135_596_800,  // year 1
        -377_705_116_800, // -9999-01-01
        32_535_215_999,
        i32::MAX as i64,
        i32::MIN as i64,
        u32::MAX as i64,
    ]);
    let secs = prop_oneof![
        4 => (edge, -3i64..=3).prop_map(|(e, d)| e + d),
        4 => -2 * 366 * 86_400i64..=2 * 366 * 86_400,
        4 => (-12_500i64..12_500, 0i64..year).prop_map(move |(y, s)| y * year + s),
        2 => (-12_500i64..12_500, -2i64..=2).prop_map(move |(y, s)| y * year + s),
        1 => -400_000_000_000i64..=400_000_000_000,
        1 => any::<i64>(),
        1 => prop::sample::select(vec![i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i64::MAX / 1000, i64::MIN / 1000]),
    ];
    let nanos = prop_oneof![2 => Just(0u32), 1 => Just(999_999_999u32), 1 => Just(1u32), 2 => 0u32..1_000_000_000];
    (secs, nanos).prop_map(|(secs, nanos)| Instant { secs, nanos }).boxed()
}

fn system_time(i: Instant) -> Option<SystemTime> {
    let t = if i.secs >= 0 {
        SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(i.secs as u64))?
    } else {
        SystemTime::UNIX_EPOCH.checked_sub(Duration::from_secs(i.secs.unsigned_abs()))?
    };
    t.checked_add(Duration::new(0, i.nanos))
}

fn exact(what: &str, i: Instant, nanos: u32, got: Option<UtcDateTime>) -> Result<(), Fail> {
    let (y, mo, d, h, mi, s) = if i.secs.unsigned_abs() > 1 << 50 { (i64::MAX, 0, 0, 0, 0, 0) } else { civil(i.secs) };
    match got {
        None => ensure!(!supported(y), "{what} of {i:?} (year {y}) gives no value"),
        Some(g) => {
            ensure!(supported(y), "{what} of {i:?}, outside the supported years, gives {g}");
            ensure_eq!(
                (g.year() as i64, u8::from(g.month()), g.day(), g.hour(), g.minute(), g.second(), g.nanosecond()),
                (y, mo, d, h, mi, s, nanos),
                "{what} of {i:?}"
            );
        }
    }
    Ok(())
}

fn judge(c: &Case) -> Verdict {
    let mut last: Option<(Instant, Option<UtcDateTime>, Option<UtcDateTime>)> = None;
    let mut nontrivial = false;
    let mut at = c.at.clone();
    at.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for i in at {
        let stamp = no_panic(|| i.secs.to_utc_datetime()).map_err(|p| format!("converting the timestamp {} panicked: {p}", i.secs))?;
        exact("the conversion of the timestamp", i, 0, stamp)?;
        let mut sys = None;
        if let Some(t) = system_time(i) {
            sys = no_panic(|| t.to_utc_datetime()).map_err(|p| format!("converting the system time {t:?} panicked: {p}"))?;
            exact("the conversion of the system time", i, i.nanos, sys)?;
            nontrivial |= i.secs < 0 || sys.is_none();
        }
        if let Some((j, a, b)) = last {
            if let (Some(a), Some(s)) = (a, stamp) {
                ensure!(a <= s, "{j:?} is not later than {i:?} but converts to a later date: {a} > {s}");
            }
            if let (Some(b), Some(s)) = (b, sys) {
                ensure!((b < s) == (j < i) && b <= s, "order of {j:?} and {i:?} is not that of {b} and {s}");
            }
        }
        last = Some((i, stamp, sys));
    }
    Ok(nontrivial)
}

fn main() {
    Check::main("C20", "a case converts some instants (seconds and nanoseconds), sorted; it counts as non-trivial if one lies before 1970 or outside the supported years and is representable as a system time", |c| {
        c.assume("dates are in the proleptic Gregorian calendar; the supported years are those of the date-time type (its MIN and MAX)");
        c.assume("the current date is taken from the real clock and only compared with it");
        c.prop("instants", Opts::new(200_000), || bx(prop::collection::vec(instant(), 1..5).prop_map(|at| Case { at })), judge);
        // Every day of eight centuries around the leap rules, noon and midnight.
        let days: Vec<i64> = (-200_000i64..200_000).step_by(1).collect();
        c.each("every day from 1422 to 2517", days.chunks(2000).map(|d| Case { at: d.iter().flat_map(|d| [Instant { secs: d * 86_400, nanos: 0 }, Instant { secs: d * 86_400 + 86_399, nanos: 999_999_999 }]).collect() }).collect::<Vec<_>>(), judge);
        c.each("now", std::iter::once(0u8), |_| {
            let mut seen = vec![];
            // A clock step within one of these moments would not be the code's.
            for _ in 0..50 {
                let a = SystemTime::now();
                let n = tinymist_std::time::utc_now();
                let b = SystemTime::now();
                let (a, b) = (a.to_utc_datetime().unwrap(), b.to_utc_datetime().unwrap());
                if a <= n && n <= b {
                    return Ok(true);
                }
                seen.push((a, n, b));
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
            Err(format!("now, and just before and after it: {:?}", &seen[..5]).into())
        });
    });
}
