//! `mod time` of verus/libs.rs: what days there are and what an instant is. Those named deep_ take minutes each (thorough tier).
//! Instants from seconds and sums of instants and durations are beyond the SAT solver: they stay assumed, and are searched.
use time::{Date, OffsetDateTime, PrimitiveDateTime, Time};

fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

fn day(y: i32, o: u16) -> bool {
    let last = Date::MAX.year();
    -last <= y && y <= last && 1 <= o && o <= if leap(y) { 366 } else { 365 }
}

#[kani::proof]
fn assumed_time_dates() {
    let (y, o): (i32, u16) = (kani::any(), kani::any());
    assert!(9999 <= Date::MAX.year() && Date::MAX.year() <= 999_999);
    match Date::from_ordinal_date(y, o) {
        Ok(d) => {
            assert!(day(y, o));
            assert!(d.year() == y && d.ordinal() == o && d.to_ordinal_date() == (y, o));
        }
        Err(_) => assert!(!day(y, o)),
    }
}

#[kani::proof]
fn deep_time_unix_timestamp() {
    let d = Date::from_ordinal_date(kani::any(), kani::any());
    kani::assume(d.is_ok());
    let d = d.ok().unwrap();
    let t = any_time();
    let x = PrimitiveDateTime::new(d, t).assume_utc();
    assert!(x.unix_timestamp() == (d.to_julian_day() - 2_440_588) as i64 * 86400 + t.hour() as i64 * 3600 + t.minute() as i64 * 60 + t.second() as i64);
}

fn any_time() -> Time {
    let (h, m, s, n): (u8, u8, u8, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    kani::assume(h < 24 && m < 60 && s < 60 && n < 1_000_000_000);
    Time::from_hms_nano(h, m, s, n).ok().unwrap()
}

fn any_date_time() -> OffsetDateTime {
    let d = Date::from_ordinal_date(kani::any(), kani::any());
    kani::assume(d.is_ok());
    PrimitiveDateTime::new(d.ok().unwrap(), any_time()).assume_utc()
}

#[kani::proof]
fn assumed_time_time() {
    let t = any_time();
    let n = t.nanosecond();
    assert!(n < 1_000_000_000 && t.microsecond() == n / 1000 && t.millisecond() as u32 == n / 1_000_000);
}

#[kani::proof]
fn deep_time_parts() {
    let d = any_date_time();
    let n = d.nanosecond();
    assert!(n < 1_000_000_000 && d.microsecond() == n / 1000 && d.millisecond() as u32 == n / 1_000_000);
    let t = d.time();
    assert!(t.nanosecond() == n && t.microsecond() == d.microsecond() && t.millisecond() == d.millisecond());
}

#[kani::proof]
fn assumed_time_replace_nanosecond() {
    let d = any_date_time();
    let n: u32 = kani::any();
    match d.replace_nanosecond(n) {
        Ok(x) => assert!(n < 1_000_000_000 && x.nanosecond() == n && x.unix_timestamp() == d.unix_timestamp()),
        Err(_) => assert!(n >= 1_000_000_000),
    }
}

#[kani::proof]
fn deep_time_nanos() {
    let d = any_date_time();
    assert!(d.unix_timestamp_nanos() == d.unix_timestamp() as i128 * 1_000_000_000 + d.nanosecond() as i128);
}

