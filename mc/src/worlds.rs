//! Enumerated dictionary sources used by the tokenization checks.
use crate::dictkit::*;

fn cat(name: &'static str, invoke: bool, group: bool) -> Cat {
    Cat { name, invoke, group }
}
pub fn u(cat: &'static str, left: u16, right: u16, cost: i16) -> Unk {
    Unk { cat, left, right, cost }
}

/// Connection tables: `k` selects a pattern, rows = right ids of the left word, columns = left ids.
pub fn conn_pattern(k: usize, nf: usize, nb: usize) -> Vec<Vec<i16>> {
    (0..nf)
        .map(|f| {
            (0..nb)
                .map(|b| match k {
                    0 => 0,
                    1 => ((f * 7 + b * 13 + f * b * 5) % 11) as i16 * 100 - 400,
                    2 => if f < b { 900 } else { -700 + (f * 31) as i16 },
                    3 => [32767, -32768, 1, -1, 0, 12345][(f * nb + b) % 6],
                    _ => ((f * 3 + b * 17 + k * 29) % 23) as i16 * 50 - 300,
                })
                .collect()
        })
        .collect()
}

/// The characters that the "mixed" dictionaries talk about.
pub const MIX: [&str; 10] = ["a", "b", "é", "あ", "漢", "一", "𠮷", "。", "\n", " "];

pub const NMIXED: usize = 12;
/// Dictionaries over an alphabet with characters of every width, several categories
/// (including characters with two), overlapping words, homographs and user words.
pub fn mixed(k: usize) -> Src {
    let cats = vec![
        cat("DEFAULT", false, k % 2 == 0),
        cat("SPACE", false, true),
        cat("ALPHA", k % 3 == 0, true),
        cat("HIRA", false, k % 2 == 1),
        cat("KANJI", k % 4 == 1, k % 4 == 3),
        cat("KNUM", true, true),
        cat("SYM", true, k % 3 == 1),
    ];
    let mut ranges: Vec<(u32, u32, Vec<&'static str>)> = vec![
        (0x20, 0x20, vec!["SPACE"]),
        (0x61, 0x7a, vec!["ALPHA"]),
        (0x3041, 0x3096, vec!["HIRA"]),
        (0x4e00, 0x9fff, vec!["KANJI"]),
        (0x3001, 0x3002, vec!["SYM"]),
    ];
    match k % 3 {
        0 => ranges.push((0x4e00, 0x4e00, vec!["KNUM", "KANJI"])),
        1 => ranges.insert(0, (0x4e00, 0x4e00, vec!["KNUM", "KANJI"])),
        _ => ranges.push((0x62, 0x62, vec!["SYM", "ALPHA"])),
    }
    let unks = vec![
        u("DEFAULT", 0, 0, 4000),
        u("SPACE", 1, 1, 500),
        u("ALPHA", 1, 2, 2000),
        u("ALPHA", 2, 1, 1900 + 100 * k as i16),
        u("HIRA", 0, 1, 3000),
        u("KANJI", 2, 2, 3500),
        u("KNUM", 1, 1, 900),
        u("KNUM", 2, 0, 1000),
        u("SYM", 0, 2, 300),
    ];
    let c = |x: i32| -> i16 {
        // cost pattern: positive, negative, tied, extreme
        match k % 4 {
            0 => x as i16,
            1 => (x - 2500) as i16,
            2 => (x / 1000 * 1000) as i16,
            _ => (x * 9 % 32767 - if x % 2 == 0 { 32000 } else { 0 }) as i16,
        }
    };
    let mut rows = vec![
        row("a", 0, 1, c(1200), "S0"),
        row("ab", 1, 1, c(1500), "S1"),
        row("ba", 2, 2, c(1600), "S2"),
        row("あ", 0, 2, c(2100), "S3"),
        row("あ", 1, 0, c(1900), "S4"),
        row("ああ", 1, 1, c(3600), "S5"),
        row("漢", 2, 1, c(2500), "S6"),
        row("漢漢", 0, 0, c(3100), "S7"),
        row("漢一", 1, 2, c(2600), "S8"),
        row("一", 0, 1, c(800), "S9"),
        row("é", 1, 1, c(700), "S10"),
        row("éa", 2, 0, c(1100), "S11"),
        row("𠮷", 0, 0, c(1300), "S12"),
        row("𠮷あ", 1, 1, c(1350), "S13"),
        row("あ漢", 2, 2, c(3300), "S14"),
        row("あ漢一", 0, 0, c(3900), "S15"),
        row("。", 1, 1, c(100), "S16"),
        row("a。", 1, 1, c(-500), "S17"),
        row(" ", 1, 1, c(50), "S18"),
        row("\n", 1, 1, c(60), "S19"),
        row("あ あ", 0, 1, c(2000), "S20"),
    ];
    match k {
        0 => {}
        1 => rows.truncate(9),
        2 => {
            rows.remove(0);
            rows.remove(2);
        }
        3 => rows.retain(|r| r.surface.chars().count() > 1),
        4 => rows.retain(|r| r.surface.chars().count() == 1),
        5 => rows.drain(3..9).for_each(drop),
        6 => rows = vec![row("一", 0, 0, 10, "S0")],
        _ => {}
    }
    let mut user = vec![];
    if k >= 7 {
        let mk = |s: &str, l, r, cost, id: &str, simple| UserRow { row: row(s, l, r, cost, id), simple };
        user = match k {
            7 => vec![mk("ab漢", 0, 0, 0, "U0", true)],
            8 => vec![mk("あ", 1, 2, 1800, "U0", false), mk("漢a", 0, 0, 0, "U1", true), mk("ああ", 2, 2, 30000, "U2", false)],
            9 => vec![mk("a", 0, 0, 0, "U0", true), mk("a", 1, 1, -9000, "U1", false), mk("aa", 2, 0, -32768, "U2", false)],
            10 => vec![mk("é", 2, 2, 5, "U0", false), mk("𠮷𠮷", 0, 1, 1200, "U1", false), mk("b", 0, 0, 32767, "U2", false)],
            _ => vec![mk("一漢", 0, 0, 0, "U0", true), mk("あ。", 0, 0, 0, "U1", true), mk("\na", 1, 1, -5000, "U2", false)],
        };
    }
    Src { rows, cats, ranges, unks, conn: conn_pattern([1, 2, 4, 3, 0, 5][k % 6], 3, 3), user }
}

/// Tiny two-character world: the dictionary is any subset of eight surfaces over {あ,い}.
pub const TINY_SURF: [&str; 8] = ["あ", "い", "ああ", "あい", "いあ", "いい", "あいあ", "ああい"];
pub fn tiny(mask: usize, costs: usize, conn: usize, with_user: bool) -> Src {
    let cats = vec![cat("DEFAULT", false, true), cat("HIRA", costs == 1, conn % 2 == 0)];
    let ranges = vec![(0x3041, 0x3096, vec!["HIRA"])];
    let mut rows = vec![];
    let mut user = vec![];
    for (i, s) in TINY_SURF.iter().enumerate() {
        if mask >> i & 1 == 1 {
            let n = s.chars().count() as i32;
            let c = match costs {
                0 => 1000 * n + [0, 150, -300, 420, -80, 310, -500, 77][i],
                1 => -400 * n + 130 * i as i32,
                2 => 700,
                _ => [30000, -30000, 32767, -32768, 0, 1, -1, 9][i],
            };
            let r = row(s, (i % 3) as u16, (i % 2) as u16, c as i16, &format!("S{i}"));
            if with_user && i % 3 == 2 {
                let mut r2 = r.clone();
                r2.details[0] = format!("U{i}");
                r2.cost = (c / 2) as i16;
                user.push(UserRow { row: r2, simple: i == 5 });
                if i == 2 {
                    continue; // only in the user dictionary
                }
            }
            rows.push(r);
        }
    }
    if rows.is_empty() {
        rows.push(row("z", 0, 0, 0, "S99"));
    }
    Src {
        rows,
        cats,
        ranges,
        unks: vec![u("DEFAULT", 0, 0, 5000), u("HIRA", 2, 1, 1300), u("HIRA", 1, 0, 1250)],
        // rectangular: 2 right ids, 3 left ids
        conn: conn_pattern(conn, 2, 3),
        user,
    }
}

/// Category worlds for unknown-word formation. Characters: a:{A} b:{B} c:{A,B} d:{B,A} x:{} (default)
pub const CATS_ALPHA: [&str; 6] = ["a", "b", "c", "d", "x", "。"];
pub fn cats_world(flags: usize, words: usize, two_unks: bool) -> Src {
    let f = |i: usize| flags >> i & 1 == 1;
    let cats = vec![cat("A", f(0), f(1)), cat("DEFAULT", f(4), f(5)), cat("B", f(2), f(3))];
    let ranges = vec![
        (0x61, 0x61, vec!["A"]),
        (0x62, 0x62, vec!["B"]),
        (0x63, 0x64, if flags % 2 == 0 { vec!["A"] } else { vec![] }),
        (0x63, 0x63, vec!["A", "B"]),
        (0x64, 0x64, vec!["B", "A"]),
    ];
    // with the extra range on, "d" is {A,B} too: ranks then come from line order
    let ranges: Vec<_> = ranges.into_iter().filter(|r| !r.2.is_empty()).collect();
    let mut unks = vec![u("DEFAULT", 0, 0, 900), u("A", 0, 1, 1000), u("B", 1, 0, 1100)];
    if two_unks {
        unks.push(u("A", 1, 1, 990));
        unks.push(u("B", 0, 0, -200));
        unks.push(u("DEFAULT", 1, 1, 905));
    }
    let w = |v: Vec<(&str, i16)>| -> Vec<Row> {
        v.into_iter().enumerate().map(|(i, (s, c))| row(s, (i % 2) as u16, ((i / 2) % 2) as u16, c, &format!("S{i}"))).collect()
    };
    let rows = match words {
        0 => w(vec![("z", 0)]),
        1 => w(vec![("a", 700), ("b", 1500), ("ab", 1400), ("x", 20)]),
        2 => w(vec![("aa", 1500), ("ca", 300), ("d", -300), ("xa", 10)]),
        _ => w(vec![("b", 2000), ("c", 2000), ("cd", -100), ("bb", 1900), ("ax", 100), ("dx。", -50)]),
    };
    Src { rows, cats, ranges, unks, conn: conn_pattern(1 + words, 2, 2), user: vec![] }
}

/// Compound worlds for decompose mode: all words over {漢,か,a} up to a length, plus long runs.
pub fn compounds(k: usize) -> Src {
    let cats = vec![cat("DEFAULT", false, true), cat("HIRA", k % 2 == 0, true), cat("KANJI", false, k % 3 == 0), cat("ALPHA", true, true)];
    let ranges = vec![
        (0x3041, 0x3096, vec!["HIRA"]),
        (0x4e00, 0x9faf, vec!["KANJI"]),
        (0x4dff, 0x4dff, vec!["KANJI"]),
        (0x9fb0, 0x9fb0, vec!["KANJI"]),
        (0x61, 0x7a, vec!["ALPHA"]),
    ];
    let mut surf: Vec<String> = vec![];
    let mut add = |s: String| {
        if !surf.contains(&s) {
            surf.push(s)
        }
    };
    let base = ["漢", "か", "a"];
    for i in 1..crate::fw::strings_upto(3, 3) {
        add(crate::fw::nth_text(i, &base));
    }
    for n in 4..=10 {
        add("か".repeat(n));
        add("漢".repeat(n));
        add("漢".to_string() + &"か".repeat(n - 1));
    }
    for n in [4, 6, 7, 8, 9, 21, 22, 23, 24, 25, 30] {
        add("a".repeat(n));
    }
    for s in ["\u{4e00}\u{9faf}漢", "\u{4dff}漢漢", "\u{9fb0}漢漢", "\u{4e00}", "\u{9faf}", "\u{4dff}", "\u{9fb0}"] {
        add(s.to_string());
    }
    if k == 2 {
        surf.retain(|s| s.chars().count() != 2);
    }
    let rows = surf
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let n = s.chars().count() as i32;
            let c = match k {
                0 => 4000 + n * 100 + (i as i32 * 37 % 50),
                1 => 2000 * n - (n * n * 40) + (i as i32 * 53 % 90),
                _ => 3000 + 900 * n,
            };
            row(s, (i % 2) as u16, (i % 3) as u16, c.clamp(-32768, 32767) as i16, &format!("S{i}"))
        })
        .collect();
    Src {
        rows,
        cats,
        ranges,
        unks: vec![u("DEFAULT", 0, 0, 9000), u("HIRA", 1, 1, 9100), u("KANJI", 0, 1, 9200), u("ALPHA", 0, 2, 4500)],
        conn: conn_pattern([0, 4, 1][k % 3], 3, 2),
        user: if k == 1 {
            vec![UserRow { row: row("漢かか漢", 0, 0, -3000, "U0"), simple: false }, UserRow { row: row("かかか", 1, 2, 3900, "U1"), simple: false }]
        } else {
            vec![]
        },
    }
}
