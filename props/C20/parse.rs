// bounded stand-in and replay of refutations: Region::from_str against an independent oracle
fn want_selectors<T: FromStr + Copy + ToString>(text: &str, ok: impl Fn(T, usize) -> bool, pct: bool) -> Result<[T; 4], ParseError> {
    let parts: Vec<&str> = text.split(',').collect();
    let mut vals = Vec::new();
    for i in 0..4 {
        let Some(p) = parts.get(i) else { return Err(ParseError::RegionSelectorCount(text.to_string())) };
        match p.parse::<T>() {
            Err(_) => return Err(ParseError::RegionSelectorUnparsable { input: p.to_string(), index: i }),
            Ok(v) if !ok(v, i) && pct => return Err(ParseError::RegionPercentageOutOfBounds { input: v.to_string(), index: i }),
            Ok(v) if !ok(v, i) => return Err(ParseError::RegionSelectorOutOfBounds { input: v.to_string(), index: i }),
            Ok(v) => vals.push(v),
        }
    }
    if parts.len() != 4 { return Err(ParseError::RegionSelectorCount(text.to_string())) }
    Ok([vals[0], vals[1], vals[2], vals[3]])
}

fn want(s: &str) -> Result<Region, ParseError> {
    if s == "full" { return Ok(Region::Full) }
    if s == "square" { return Ok(Region::Square) }
    if s.len() >= 4 && s.is_char_boundary(4) && &s[..4] == "pct:" {
        let [x, y, width, height] = want_selectors::<f32>(&s[4..], |v, _| v > 0.0 && v <= f32::MAX, true)?;
        return Ok(Region::Percentage { x, y, width, height });
    }
    let [x, y, width, height] = want_selectors::<u32>(s, |v, i| i < 2 || v >= 1, false)?;
    Ok(Region::Absolute { x, y, width, height })
}

fn compare(s: &str, bad: &mut u32) {
    let got = std::panic::catch_unwind(|| s.parse::<Region>());
    let want = want(s);
    if !matches!(&got, Ok(g) if *g == want) {
        *bad += 1;
        if *bad < 20 { println!("MISMATCH region {s:?}: code {got:?}, specification {want:?}"); }
    }
}

#[test]
fn region_oracle() {
    let (mut n, mut bad) = (0u32, 0u32);
    if let Ok(f) = std::fs::read_to_string(std::env::var("LAYA_VERIF_INPUTS").unwrap_or_default()) {
        for l in f.lines() {
            let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
            if let Ok(s) = String::from_utf8(b) { compare(&s, &mut bad); n += 1; }
        }
    }
    let num = ["", "0", "1", "5", "+7", "-1", "-0", "00", "4294967295", "4294967296", "0.5", "100", "101", "1e-50", "1e39", "inf", "nan", " 1", "x", "é"];
    for p in ["", "pct:", "PCT:", "pct:pct:"] {
        for extra in ["", "full", "square", "Full", "full ", ",", ",,", ",,,", ",,,,", "5,5,5,5,", ",5,5,5,5", "5,5,5,5,5", "5,5,5,5,5,5", "5;5;5;5"] {
            compare(&format!("{p}{extra}"), &mut bad);
        }
        for a in num {
            compare(&format!("{p}{a}"), &mut bad);
            for b in num {
                compare(&format!("{p}{a},{b}"), &mut bad);
                for c in num {
                    compare(&format!("{p}{a},{b},{c}"), &mut bad);
                    n += 1;
                    for d in num {
                        compare(&format!("{p}{a},{b},{c},{d}"), &mut bad);
                        n += 1;
                    }
                }
            }
        }
        for d in num { for e in num { compare(&format!("{p}1,2,3,{d},{e}"), &mut bad); n += 1; } }
    }
    println!("COMPARED {n}");
    assert_eq!(bad, 0);
}
