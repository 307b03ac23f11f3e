//! The embedded dictionaries. The dictionary crates embed what their build scripts made; the
//! check script replaces that by dictionaries built from `emb_src` with the real builders, so
//! that each kind has its own recognisable, usable dictionary.
use crate::dictkit::{self, Src};
use crate::worlds;
use lindera_dictionary::DictionaryKind;

/// One source per kind: the same surfaces with other costs, details and some words of its own.
pub fn emb_src(kind: &DictionaryKind) -> Src {
    let k = dictkit::KINDS.iter().position(|x| x == kind).unwrap();
    let mut s = crate::rich::rich_src();
    for r in s.rows.iter_mut() {
        for d in r.details.iter_mut() {
            if d.chars().any(|c| ('\u{ac00}'..='\u{d7a3}').contains(&c)) {
                *d = "ハン".into();
            }
        }
        r.details[9] = kind.as_str().to_string();
        while r.details.len() < dictkit::detailed_fields(kind) - 4 {
            r.details.push("*".into());
        }
        if matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd | DictionaryKind::KoDic) {
            r.details.truncate(dictkit::detailed_fields(kind) - 4);
        }
        if matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd | DictionaryKind::KoDic) {
            let n = r.details.len();
            r.details[n - 1] = kind.as_str().to_string();
        }
        r.cost -= k as i16;
    }
    // a word only this kind has, and a segmentation only this kind prefers
    let own = ["京都", "大阪", "東京", "神戸", "奈良"][k];
    let mut extra = s.rows[0].clone();
    extra.surface = own.into();
    s.rows.push(extra.clone());
    extra.surface = ["百二", "二十", "十円", "円が", "がは"][k].into();
    extra.cost = -3000;
    s.rows.push(extra);
    // two context ids, so that the connection table matters
    s.conn = vec![vec![0, 10 + k as i16], vec![-20, 30 * k as i16 - 60]];
    for (i, r) in s.rows.iter_mut().enumerate() {
        r.left = ((i + k) % 2) as u16;
        r.right = r.left;
        if *kind == DictionaryKind::UniDic {
            r.right = ((i + k / 2) % 2) as u16;
        }
    }
    s.unks.push(worlds::u("DEFAULT", 1, 1, 5 + k as i16));
    s.unks.push(worlds::u("KANJI", 1, 0, 7));
    s.cats.push(dictkit::Cat { name: "KANJI", invoke: k % 2 == 0, group: k % 3 == 0 });
    s.ranges.push((0x4e00, 0x9fff, vec!["KANJI"]));
    s
}
