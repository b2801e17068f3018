//! C08: dates and times become the right serial numbers.
use crate::util::*;
use chrono::{NaiveDate, NaiveDateTime, NaiveTime};

const DAY_MS: i64 = 86_400_000;

/// Days since 1970-01-01 of a date of the Gregorian calendar, by counting.
fn civil(y: i64, m: i64, d: i64) -> i64 {
    let (y, m) = if m <= 2 { (y - 1, m + 9) } else { (y, m - 3) };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * m + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

/// The day number of Excel, which has a 29th of February 1900.
fn day_number(y: i64, m: i64, d: i64) -> i64 {
    if (y, m, d) == (1900, 2, 29) {
        return 60;
    }
    let n = civil(y, m, d) + 25_568;
    if n >= 60 { n + 1 } else { n }
}

fn month_days(y: i64, m: i64) -> i64 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn serial(day: i64, ms: i64) -> f64 {
    day as f64 + ms as f64 / DAY_MS as f64
}

fn close(what: &str, got: f64, day: i64, ms: i64) -> R {
    let w = serial(day, ms);
    // A tenth of a millisecond.
    ensure!((got - w).abs() <= 1.2e-9, "serial", "{what}: serial {got} where {w} expected");
    if ms == 0 {
        ensure!(got == w, "serial", "{what}: serial {got} where {w} expected");
    }
    Ok(())
}

/// All days of 100 years.
fn days(s: &mut Src, c: &mut Ctx) -> R {
    let cent = s.below(81) as i64;
    let (from, to) = (1900 + cent * 100, (1900 + cent * 100 + 100).min(10000));
    c.d(|| format!("all days of {from} to {}", to - 1));
    c.hit();
    let mut last = -1;
    for y in from..to {
        for m in 1..=12i64 {
            for d in 1..=month_days(y, m) + i64::from((y, m) == (1900, 2)) {
                let w = day_number(y, m, d);
                ensure!(w == last + 1 || last < 0, "oracle", "day {y}-{m}-{d} is {w} after {last}");
                last = w;
                let at = format!("{y:04}-{m:02}-{d:02}");
                let e = must(&at, ExcelDateTime::from_ymd(y as u16, m as u8, d as u8))?;
                close(&at, e.to_excel(), w, 0)?;
                let p = must(&at, ExcelDateTime::parse_from_str(&at))?;
                close(&at, p.to_excel(), w, 0)?;
                if (y, m, d) != (1900, 2, 29) {
                    let t = must(&at, ExcelDateTime::from_timestamp(civil(y, m, d) * 86_400))?;
                    close(&at, t.to_excel(), w, 0)?;
                    let t = must(&at, ExcelDateTime::from_timestamp(civil(y, m, d) * 86_400 + 86_399))?;
                    close(&at, t.to_excel(), w, 86_399_000)?;
                    let n = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
                    close(&at, n.to_excel_serial_date(), w, 0)?;
                }
            }
            // The day after the last one.
            let d = month_days(y, m) + 1 + i64::from((y, m) == (1900, 2));
            ensure!(ExcelDateTime::from_ymd(y as u16, m as u8, d as u8).is_err(), "accepted", "{y}-{m}-{d} was accepted");
            ensure!(ExcelDateTime::parse_from_str(&format!("{y:04}-{m:02}-{d:02}")).is_err(), "accepted", "{y}-{m}-{d} was accepted as text");
        }
    }
    Ok(())
}

/// All seconds of an hour, with a millisecond for each.
fn seconds(s: &mut Src, c: &mut Ctx) -> R {
    let h = s.below(24) as i64;
    c.d(|| format!("all seconds of hour {h}"));
    c.hit();
    let mut prev = f64::MIN;
    for m in 0..60i64 {
        for sec in 0..60i64 {
            let ms = ((h * 60 + m) * 60 + sec) * 1000;
            let milli = (sec * 17 + m * 7 + h) * 31 % 1000;
            let at = format!("{h:02}:{m:02}:{sec:02}");
            let a = must(&at, ExcelDateTime::from_hms(h as u16, m as u8, sec as f64))?.to_excel();
            close(&at, a, 0, ms)?;
            let b = must(&at, ExcelDateTime::from_hms_milli(h as u16, m as u8, sec as u8, milli as u16))?.to_excel();
            close(&at, b, 0, ms + milli)?;
            close(&at, must(&at, ExcelDateTime::parse_from_str(&at))?.to_excel(), 0, ms)?;
            let t = format!("{at}.{milli:03}");
            close(&t, must(&t, ExcelDateTime::parse_from_str(&t))?.to_excel(), 0, ms + milli)?;
            let n = NaiveTime::from_hms_milli_opt(h as u32, m as u32, sec as u32, milli as u32).unwrap();
            close(&t, n.to_excel_serial_date(), 0, ms + milli)?;
            ensure!(a > prev, "order", "{at}: serial {a} not after {prev}");
            prev = a;
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct At {
    y: i64,
    m: i64,
    d: i64,
    ms: i64,
}

fn gen_at(s: &mut Src) -> At {
    let y = match s.below(4) {
        0 => *s.pick(&[1900i64, 1901, 1903, 1904, 1999, 2000, 2024, 2038, 2100, 2400, 9999]),
        _ => s.int(1900, 9999),
    };
    let m = if s.chance(1, 3) { *s.pick(&[1i64, 2, 3, 12]) } else { s.int(1, 12) };
    let n = month_days(y, m);
    let d = match s.below(4) {
        0 => 1,
        1 => n,
        _ => s.int(1, n),
    };
    let ms = match s.below(5) {
        0 => 0,
        1 => DAY_MS - 1,
        2 => s.int(0, 86_399) * 1000,
        3 => s.int(0, 23) * 3_600_000,
        _ => s.int(0, DAY_MS - 1),
    };
    At { y, m, d, ms }
}

/// Instants in all the ways they can be supplied, as values and as cells.
fn instants(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let f = Format::new().set_num_format("yyyy hh:mm");
    let mut want: BTreeMap<(u32, u16), (f64, String)> = BTreeMap::new();
    let mut known: Vec<(i64, f64, String)> = vec![];
    for row in 0..s.small(1, 20) as u32 {
        let a = gen_at(s);
        let day = day_number(a.y, a.m, a.d);
        let (h, mi, sec, milli) = (a.ms / 3_600_000, a.ms / 60_000 % 60, a.ms / 1000 % 60, a.ms % 1000);
        let (y16, m8, d8) = (a.y as u16, a.m as u8, a.d as u8);
        let fsec = sec as f64 + milli as f64 / 1000.0;
        let iso = format!("{:04}-{:02}-{:02}", a.y, a.m, a.d);
        let way = s.below(10);
        let nd = NaiveDate::from_ymd_opt(a.y as i32, a.m as u32, a.d as u32).unwrap();
        let nt = NaiveTime::from_hms_milli_opt(h as u32, mi as u32, sec as u32, milli as u32).unwrap();
        let sep = *s.pick(&["T", " "]);
        let hms = if milli == 0 && sec == 0 && s.bool() {
            format!("{h:02}:{mi:02}")
        } else if milli == 0 {
            format!("{h:02}:{mi:02}:{sec:02}")
        } else {
            format!("{h:02}:{mi:02}:{sec:02}.{milli:03}")
        };
        let tail = *s.pick(&["", "", "Z", " ", "+01:00", "-05:30", "+0100", " UTC"]);
        let lead = *s.pick(&["", "", "", " ", "\n"]);
        let at = format!("{iso} {hms}");
        let (e, day, ms): (ExcelDateTime, i64, i64) = match way {
            0 => (must(&at, must(&at, ExcelDateTime::from_ymd(y16, m8, d8))?.and_hms(h as u16, mi as u8, fsec))?, day, a.ms),
            1 => (must(&at, must(&at, ExcelDateTime::from_ymd(y16, m8, d8))?.and_hms_milli(h as u16, mi as u8, sec as u8, milli as u16))?, day, a.ms),
            2 => {
                let ts = civil(a.y, a.m, a.d) * 86_400 + a.ms / 1000;
                (must(&at, ExcelDateTime::from_timestamp(ts))?, day, a.ms / 1000 * 1000)
            }
            3 => (must(&at, ExcelDateTime::from_serial_datetime(serial(day, a.ms)))?, day, a.ms),
            4 => {
                let t = format!("{lead}{iso}{sep}{hms}{tail}");
                c.d(|| format!("text {t:?}"));
                (must(&t, ExcelDateTime::parse_from_str(&t))?, day, a.ms)
            }
            5 => {
                let t = format!("{lead}{hms}{tail}");
                c.d(|| format!("text {t:?}"));
                (must(&t, ExcelDateTime::parse_from_str(&t))?, 0, a.ms)
            }
            6 => {
                // Durations of more than a day.
                let h = h + s.int(0, 4) * 24 + s.int(0, 100) * s.int(0, 100);
                let h = h.min(65_535);
                let ms = h * 3_600_000 + a.ms % 3_600_000;
                c.d(|| format!("duration {h}:{mi}:{fsec}"));
                let e = if s.bool() {
                    must("duration", ExcelDateTime::from_hms(h as u16, mi as u8, fsec))?
                } else {
                    must("duration", ExcelDateTime::parse_from_str(&format!("{h}:{mi:02}:{fsec}")))?
                };
                (e, 0, ms)
            }
            _ => {
                // The chrono types are written as they are.
                let v = (row, (way - 7) as u16);
                c.d(|| format!("chrono {} {at}", way - 7));
                let (day, ms) = match way {
                    7 => (day, a.ms),
                    8 => (day, 0),
                    _ => (0, a.ms),
                };
                let ndt = NaiveDateTime::new(nd, nt);
                let res = match (way, s.below(3)) {
                    (7, 0) => ws.write(v.0, v.1, &ndt),
                    (7, 1) => ws.write_datetime_with_format(v.0, v.1, ndt, &f),
                    (7, _) => ws.write_datetime(v.0, v.1, &ndt),
                    (8, 0) => ws.write_datetime(v.0, v.1, nd),
                    (8, 1) => ws.write_datetime_with_format(v.0, v.1, nd, &f),
                    (8, _) => ws.write(v.0, v.1, &nd),
                    (_, 0) => ws.write_datetime(v.0, v.1, nt),
                    (_, 1) => ws.write_datetime_with_format(v.0, v.1, nt, &f),
                    (_, _) => ws.write(v.0, v.1, &nt),
                };
                must("write", res)?;
                want.insert(v, (serial(day, ms), at));
                continue;
            }
        };
        c.d(|| format!("way {way}: {at}"));
        let got = e.to_excel();
        close(&at, got, day, ms)?;
        // Instants keep their order.
        let key = day * DAY_MS + ms;
        for (k, g, w) in &known {
            ensure!((*k < key) == (*g < got) || *k == key, "order", "{at} is {got} but {w} is {g}");
            ensure!(*k != key || (*g - got).abs() < 1.2e-9, "order", "{at} is {got} but the same instant {w} is {g}");
        }
        known.push((key, got, at.clone()));
        let v = (row, 5 + way as u16);
        let res = match s.below(5) {
            0 => ws.write(v.0, v.1, &e),
            1 => ws.write(v.0, v.1, e),
            2 => ws.write_datetime(v.0, v.1, &e),
            3 => ws.write_with_format(v.0, v.1, &e, &f),
            _ => ws.write_datetime_with_format(v.0, v.1, e, &f),
        };
        must("write", res)?;
        want.insert(v, (serial(day, ms), at));
    }
    if want.len() > 3 {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    let cells = b.cells(0)?;
    for ((r, k), (w, at)) in &want {
        match cells.get(&(*r, u32::from(*k))).map(|x| x.v.clone()) {
            Some(V::Num(g)) => ensure!((g - w).abs() <= 1.2e-9, "cell", "{at}: cell holds {g} where {w} expected"),
            o => fail!("cell", "{at}: cell holds {o:?}"),
        }
    }
    ensure_eq!(cells.len(), want.len(), "cell", "number of cells");
    Ok(())
}

/// Values that are not dates or times.
fn invalid(s: &mut Src, c: &mut Ctx) -> R {
    let a = gen_at(s);
    let (y, m, d) = (a.y as u16, a.m as u8, a.d as u8);
    let (h, mi, sec) = (s.u16(0, 23), s.u8(0, 59), s.u8(0, 59));
    let bad_year = || -> u16 { 0 };
    let _ = bad_year;
    let (what, res) = match s.below(14) {
        0 => {
            let y = if s.bool() { s.u16(0, 1898) } else { s.u16(10_000, 65_535) };
            (format!("year {y}"), guard("from_ymd", || ExcelDateTime::from_ymd(y, m, d.min(28)))?)
        }
        1 => {
            let (m, d) = if s.bool() { (12, s.u8(1, 30)) } else { (s.u8(1, 11), s.u8(1, 28)) };
            (format!("1899-{m}-{d}"), guard("from_ymd", || ExcelDateTime::from_ymd(1899, m, d))?)
        }
        2 => {
            let m = if s.bool() { 0 } else { s.u8(13, 255) };
            (format!("month {m}"), guard("from_ymd", || ExcelDateTime::from_ymd(y, m, d.min(28)))?)
        }
        3 => {
            let n = month_days(a.y, a.m) as u8 + u8::from((y, m) == (1900, 2));
            let d = if s.bool() { 0 } else { s.u8(n + 1, 255) };
            (format!("{y}-{m} day {d}"), guard("from_ymd", || ExcelDateTime::from_ymd(y, m, d))?)
        }
        4 => {
            let mi = s.u8(61, 255);
            (format!("minute {mi}"), guard("from_hms", || ExcelDateTime::from_hms(h, mi, sec))?)
        }
        5 => {
            let x = *s.pick(&[60.0, 60.5, 61.0, 1e9, -1.0, -0.001, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            (format!("seconds {x}"), guard("from_hms", || ExcelDateTime::from_hms(h, mi, x))?)
        }
        6 => {
            let (mi, sec, ms) = match s.below(3) {
                0 => (s.u8(61, 255), sec, 0),
                1 => (mi, s.u8(61, 255), 0),
                _ => (mi, sec, s.u16(1000, 65_535)),
            };
            (format!("{h}:{mi}:{sec} ms {ms}"), guard("from_hms_milli", || ExcelDateTime::from_hms_milli(h, mi, sec, ms))?)
        }
        7 => {
            let x = match s.below(3) {
                0 => *s.pick(&[-1e-9, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2_958_466.0]),
                1 => -s.int(1, 100_000) as f64,
                _ => 2_958_466.0 + s.int(0, 1_000_000) as f64,
            };
            (format!("serial {x}"), guard("from_serial_datetime", || ExcelDateTime::from_serial_datetime(x))?)
        }
        8 => {
            let x = match s.below(4) {
                0 => civil(10_000, 1, 1) * 86_400,
                1 => civil(1899, 12, 31) * 86_400 - 1,
                2 => *s.pick(&[i64::MIN, i64::MAX, -(1 << 53)]),
                _ => if s.bool() { s.int(i64::MIN, civil(1899, 12, 30) * 86_400) } else { s.int(civil(10_000, 1, 1) * 86_400, i64::MAX) },
            };
            (format!("timestamp {x}"), guard("from_timestamp", || ExcelDateTime::from_timestamp(x))?)
        }
        9 => {
            let t = *s.pick(&["", "foo", "20240101", "T", "2024", "12.30", " ", "2024/01/02", "\u{0}", "é"]);
            (format!("text {t:?}"), guard("parse_from_str", || ExcelDateTime::parse_from_str(t))?)
        }
        10 => {
            let t = match s.below(6) {
                0 => format!("{y:04}-13-01"),
                1 => format!("{y:04}-{m:02}-00"),
                2 => format!("{y:04}-{m:02}-{}", month_days(a.y, a.m) + 2),
                3 => format!("1800-{m:02}-01"),
                4 => format!("10000-{m:02}-01"),
                _ => format!("{y:04}-{m:02}"),
            };
            (format!("text {t:?}"), guard("parse_from_str", || ExcelDateTime::parse_from_str(&t))?)
        }
        11 => {
            let n = *s.pick(&[61u64, 100, 255, 256, 300, 65_536, 99_999_999_999]);
            let t = match s.below(4) {
                0 => format!("{h:02}:{n}"),
                1 => format!("{h:02}:{mi:02}:{n}"),
                2 => format!("{y:04}-{m:02}-{:02} {h:02}:{n}:00", d.min(28)),
                _ => format!("{y:04}-{m:02}-{:02}T{h:02}:{mi:02}:{n}", d.min(28)),
            };
            (format!("text {t:?}"), guard("parse_from_str", || ExcelDateTime::parse_from_str(&t))?)
        }
        12 => {
            let n = *s.pick(&[256u64, 257, 300, 65_537, 65_536, 67_560, 99_999_999_999]);
            let t = match s.below(4) {
                0 => format!("{n}-{m:02}-01"),
                1 => format!("{y:04}-{n}-01"),
                2 => format!("{y:04}-{m:02}-{n}"),
                _ => format!("{}:00:00", n.max(65_536)),
            };
            (format!("text {t:?}"), guard("parse_from_str", || ExcelDateTime::parse_from_str(&t))?)
        }
        _ => {
            // Any text: no panic, and never an instant outside the calendar.
            let t = match s.below(3) {
                0 => gen::text(s, 20),
                1 => (0..s.small(0, 24)).map(|_| *s.pick(&['0', '1', '2', '9', '-', ':', 'T', ' ', '.', 'Z', '+', 'é'])).collect(),
                _ => {
                    let mut v: Vec<char> = format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{sec:02}.5Z").chars().collect();
                    for _ in 0..s.small(1, 4) {
                        let i = s.idx(v.len());
                        match s.below(3) {
                            0 => { v.remove(i); if v.is_empty() { v.push('1') } }
                            1 => v[i] = *s.pick(&['0', '9', '-', ':', ' ', 'x', '.']),
                            _ => v.insert(i, *s.pick(&['0', '9', '-', ':', ' ', 'x', '.'])),
                        }
                    }
                    v.into_iter().collect()
                }
            };
            c.d(|| format!("text {t:?}"));
            c.label("any text");
            if let Ok(e) = guard("parse_from_str", || ExcelDateTime::parse_from_str(&t))? {
                let v = e.to_excel();
                ensure!(v.is_finite() && (0.0..2_958_466.0 + 2731.0).contains(&v), "range", "{t:?} became {v}");
            }
            return Ok(());
        }
    };
    c.d(|| what.clone());
    c.hit();
    match res {
        Ok(e) => fail!("accepted", "{what} was accepted as {}", e.to_excel()),
        Err(e) => ensure!(matches!(e, XlsxError::DateTimeRangeError(_) | XlsxError::DateTimeParseError(_)), "error", "{what}: error {e:?}"),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "instants: more than three cells; invalid: a value that is not a date or time; blocks of all days and seconds",
        level: "all days of 1900 to 9999 and all seconds of a day enumerated; randomised exploration of instants, suppliers and malformed values against an independent calendar",
        assumptions: &["the sixtieth minute and second of the millisecond form are left open", "chrono values outside 1900 to 9999 are left open", "text after the date and time is ignored as documented"],
        known: vec![],
        families: vec![famx("days", 81, days), famx("seconds", 24, seconds), fam("instants", 20_000, 2_000_000, instants), fam("invalid", 40_000, 4_000_000, invalid)],
    }
}
