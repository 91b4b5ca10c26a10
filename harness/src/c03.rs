//! C03: timestamps are milliseconds since the epoch, before and after it.
//!
//! The calendar arithmetic of a DateTime is far outside linear reasoning when
//! the day is unknown, so days are enumerated (and in `c03_year` a whole year
//! is left symbolic); second, millisecond and nanosecond are symbolic.
use crate::spec::{enc, whole, R};
use crate::sym;
use amqp_codec::types::Variant;
use amqp_codec::{AmqpParseError, Decode};
use chrono::{DateTime, TimeZone, Timelike, Utc};

type T = DateTime<Utc>;
/// Days of 400 years.
const CYCLE: i64 = 146_097;
/// First and last day of chrono's range.
const FIRST: i64 = -96_465_292;
const LAST: i64 = 95_026_236;

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
/// Days from 1 January 1970 to 1 January of `y`, `y` within 1600..2800.
fn new_year(y: i64) -> i64 {
    let mut d = 10_957 - CYCLE;
    for i in 1600..y {
        d += if leap(i) { 366 } else { 365 };
    }
    d
}
/// A millisecond below 1000: none, or another.
fn milli() -> i64 {
    if sym::pick(2) == 0 {
        0
    } else {
        1 + sym::term(10, 999)
    }
}
/// A second of a day: its first, or another.
fn second(day: i64) -> i64 {
    day * 86_400 + if sym::pick(2) == 0 { 0 } else { 1 + sym::term(17, 86_399) }
}
fn out_of_range(ms: i64) {
    let w = wire(ms);
    match T::decode(&w) {
        Ok(_) => panic!("instant outside the range of the calendar decoded"),
        Err(AmqpParseError::InvalidTimestamp(v)) => assert!(v == ms, "reported value"),
        Err(_) => panic!("another error"),
    }
    match Variant::decode(&w) {
        Ok(_) => panic!("instant outside the range of the calendar decoded as a variant"),
        Err(AmqpParseError::InvalidTimestamp(v)) => assert!(v == ms, "reported value"),
        Err(_) => panic!("another error"),
    }
}
fn wire(ms: i64) -> Vec<u8> {
    let mut b = vec![0x83];
    for i in 0..8 {
        b.push((ms >> (56 - 8 * i)) as u8)
    }
    b
}
fn decodes(s: i64, ms: i64) {
    let w = wire(s * 1000 + ms);
    let d: T = whole(T::decode(&w));
    assert!(d.timestamp() == s, "decoded second");
    assert!(d.nanosecond() as i64 == ms * 1_000_000, "decoded fraction of the second");
    match whole(Variant::decode(&w)) {
        Variant::Timestamp(v) => assert!(v.timestamp() == s && v.nanosecond() as i64 == ms * 1_000_000, "decoded variant"),
        _ => panic!("decoded as another type"),
    }
    let e = enc(&d);
    let mut r = R::new(&e);
    assert!(r.timestamp() == s * 1000 + ms, "encoding of the decoded timestamp");
    r.end();
}
/// `nano`: what is below the millisecond, dropped by the format.
fn encodes(s: i64, ms: i64, nano: u32) {
    let d = match Utc.timestamp_opt(s, ms as u32 * 1_000_000 + nano) {
        chrono::LocalResult::Single(d) => d,
        _ => panic!("not an instant"),
    };
    let e = enc(&d);
    assert!(e.len() == 9, "encoding of a timestamp takes 9 octets");
    let mut r = R::new(&e);
    assert!(r.timestamp() == s * 1000 + ms, "milliseconds since the epoch");
    r.end();
    let b: T = whole(T::decode(&e));
    assert!(b.timestamp() == s && b.nanosecond() as i64 == ms * 1_000_000, "round trip to the millisecond");
}
/// An enumerated day: around the epoch, around every new year and end of
/// February of 1600 to 2800, and around the ends of the range.
fn day(k: usize) -> i64 {
    match k {
        0 => sym::pick(64) as i64 - 32,
        1 => FIRST + sym::pick(8) as i64,
        2 => LAST - sym::pick(8) as i64,
        3 => (sym::pick(1311) as i64 - 660) * CYCLE + sym::pick(3) as i64 - 1,
        _ => {
            let y = 1600 + (k as i64 - 4) * 100 + sym::pick(100) as i64;
            new_year(y) + [-1, 0, 58, 59, 60, 364][sym::pick(6)]
        }
    }
}

harnesses! {
    // @bound every millisecond of the days around the epoch (32 each way), of the first and last days chrono can hold, of the days around every 400-year boundary it can hold, and of 6 days of each year 1600 to 2799
    // @opts {"shards":16,"weight":6,"keep":100000}
    c03_decode {
        let s = second(day(sym::pick(16)));
        decodes(s, milli())
    }
    // @bound the same instants, with every nanosecond below the millisecond
    // @opts {"shards":16,"weight":6,"keep":100000}
    c03_encode {
        let s = second(day(sym::pick(16)));
        let m = milli();
        let nano = sym::term(20, 1_000_000) as u32;
        encodes(s, m, nano)
    }
    // @bound every millisecond of the years 1971, 1972, 1999, 2000, 2001, 2026, 2038 and 2100
    // @opts {"shards":8,"weight":8,"keep":100000}
    c03_year {
        let y = [1971, 1972, 1999, 2000, 2001, 2026, 2038, 2100][sym::pick(8)];
        let d = new_year(y) + sym::term(9, if leap(y) { 366 } else { 365 });
        let s = second(d);
        decodes(s, milli())
    }
    // @bound millisecond counts outside the range of the calendar: the 4 days next to it on either side, every millisecond of 6 days of each of the 1.4 million 400-year cycles that 64 bits hold beyond it (all but 60 next to the 32-bit day count), and the extreme counts
    // @opts {"shards":6,"weight":6,"keep":100000}
    c03_range {
        let d = [0, 59, 60, 365, 73_048, 146_096];
        let ms = match sym::pick(6) {
            0 => second(FIRST - 1 - sym::pick(4) as i64) * 1000 + milli(),
            1 => second(LAST + 1 + sym::pick(4) as i64) * 1000 + milli(),
            2 => second((651 + sym::term(14, 14_000)) * CYCLE + d[sym::pick(6)]) * 1000 + milli(),
            3 => second((14_701 + sym::term(20, 715_000)) * CYCLE + d[sym::pick(6)]) * 1000 + milli(),
            4 => second((-662 - sym::term(14, 14_000)) * CYCLE + d[sym::pick(6)]) * 1000 + milli(),
            _ => match sym::pick(5) {
                0 => i64::min_value(),
                1 => i64::min_value() + 1,
                2 => i64::max_value() - 1,
                3 => i64::max_value(),
                _ => second((-14_702 - sym::term(20, 715_000)) * CYCLE + d[sym::pick(6)]) * 1000 + milli(),
            },
        };
        out_of_range(ms)
    }
    // @bound 0 to 7 of the 8 octets of a millisecond count
    c03_truncated {
        let n = sym::pick(8);
        let mut w = vec![0x83];
        w.extend_from_slice(&sym::octets(n));
        match T::decode(&w) {
            Err(AmqpParseError::Incomplete(_)) => {}
            _ => panic!("truncated timestamp"),
        }
    }
}
