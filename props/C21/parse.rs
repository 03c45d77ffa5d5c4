// bounded stand-in and replay of refutations: Size::from_str against an independent oracle
fn px(t: &str) -> Result<NonZero<u32>, ParseError> {
    match t.parse::<u32>() {
        Err(_) => Err(ParseError::SizeDimensionUnparsable(t.to_string())),
        Ok(0) => Err(ParseError::SizeDimensionOutOfBounds(t.to_string())),
        Ok(v) => Ok(NonZero::new(v).unwrap()),
    }
}

fn want(s: &str) -> Result<Size, ParseError> {
    let (up, s) = match s.chars().next() { Some('^') => (true, &s[1..]), _ => (false, s) };
    let ok = |scale| Ok(if up { Size::upscaled(scale) } else { Size::new(scale) });
    if s == "max" { return ok(Scale::Max) }
    if s.len() >= 4 && s.is_char_boundary(4) && &s[..4] == "pct:" {
        let t = &s[4..];
        return match t.parse::<f32>() {
            Err(_) => Err(ParseError::SizePercentageUnparsable(t.to_string())),
            Ok(v) if v > 0.0 && v <= f32::MAX && (up || v <= 100.0) => ok(Scale::Percentage(v)),
            Ok(_) => Err(ParseError::SizePercentageOutOfBounds(t.to_string())),
        };
    }
    let (keep, s) = match s.chars().next() { Some('!') => (true, &s[1..]), _ => (false, s) };
    if s == "," { return Err(ParseError::SizeMissingDimensions(s.to_string())) }
    let Some(i) = s.find(',') else { return Err(ParseError::SizeMissingComma(s.to_string())) };
    let (w, h) = (&s[..i], &s[i + 1..]);
    if keep { return ok(Scale::AspectPreserving { width: px(w)?, height: px(h)? }) }
    let width = if w == "" { None } else { Some(px(w)?) };
    let height = if h == "" { None } else { Some(px(h)?) };
    ok(Scale::Fixed { width, height })
}

fn compare(s: &str, bad: &mut u32) {
    let got = std::panic::catch_unwind(|| s.parse::<Size>());
    let want = want(s);
    if !matches!(&got, Ok(g) if *g == want) {
        *bad += 1;
        if *bad < 20 { println!("MISMATCH size {s:?}: code {got:?}, specification {want:?}"); }
    }
}

#[test]
fn size_oracle() {
    let (mut n, mut bad) = (0u32, 0u32);
    if let Ok(f) = std::fs::read_to_string(std::env::var("LAYA_VERIF_INPUTS").unwrap_or_default()) {
        for l in f.lines() {
            let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
            if let Ok(s) = String::from_utf8(b) { compare(&s, &mut bad); n += 1; }
        }
    }
    let num = ["", "0", "1", "5", "+7", "-1", "-0", "00", "007", "4294967295", "4294967296", "0.5", "99.9", "100", "100.0", "100.00001", "101", "1e39", "inf", "-inf", "nan", " 1", "x", "é"];
    let mk = ["", "^", "!", "pct:"];
    for p in mk { for q in mk { for t in mk { for u in mk {
        let p = format!("{p}{q}{t}{u}");
        for x in ["", "max", "max,", "full", "Max", ",", ",,", "1;1"] { compare(&format!("{p}{x}"), &mut bad); }
        for a in num {
            compare(&format!("{p}{a}"), &mut bad);
            for b in num {
                compare(&format!("{p}{a},{b}"), &mut bad);
                n += 1;
                for c in ["", "1", "^", "!", "x"] { compare(&format!("{p}{a},{b},{c}"), &mut bad); n += 1; }
            }
        }
    } } } }
    println!("COMPARED {n}");
    assert_eq!(bad, 0);
}
