// bounded stand-in and replay of refutations
fn compare<T: PartialEq + std::fmt::Debug>(what: &str, s: &str, got: std::thread::Result<T>, want: T, bad: &mut u32) {
    if !matches!(&got, Ok(g) if *g == want) {
        *bad += 1;
        if *bad < 20 { println!("MISMATCH {what} {s:?}: code {got:?}, specification {want:?}"); }
    }
}

fn all(s: &str, bad: &mut u32) {
    use std::panic::catch_unwind as c;
    let (m, t) = match s.as_bytes().first() { Some(b'!') => (true, &s[1..]), _ => (false, s) };
    let want = match t.parse::<f32>() {
        Err(_) => Err(ParseError::RotationAngleUnparsable(t.to_string())),
        Ok(v) if v >= 0.0 && v <= 360.0 => Ok(if m { Rotation::mirrored(v) } else { Rotation::new(v) }),
        Ok(_) => Err(ParseError::RotationOutOfBounds(t.to_string())),
    };
    compare("rotation", s, c(|| s.parse::<Rotation>()), want, bad);
    let q = [("color", Quality::Color), ("gray", Quality::Gray), ("bitonal", Quality::Bitonal), ("default", Quality::Default)];
    let want = q.iter().find(|x| x.0 == s).map(|x| x.1).ok_or(ParseError::UnrecognisedQuality(s.to_string()));
    compare("quality", s, c(|| s.parse::<Quality>()), want, bad);
    let f = [("jpg", Format::Jpg), ("tif", Format::Tif), ("png", Format::Png), ("gif", Format::Gif), ("jp2", Format::Jp2), ("pdf", Format::Pdf), ("webp", Format::Webp)];
    let want = f.iter().find(|x| x.0 == s).map(|x| x.1).ok_or(ParseError::UnrecognisedFormat(s.to_string()));
    compare("format", s, c(|| s.parse::<Format>()), want, bad);
}

#[test]
fn vocabulary_oracle() {
    let (mut n, mut bad) = (0u32, 0u32);
    if let Ok(f) = std::fs::read_to_string(std::env::var("LAYA_VERIF_INPUTS").unwrap_or_default()) {
        for l in f.lines() {
            let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
            if let Ok(s) = String::from_utf8(b) { all(&s, &mut bad); n += 1; }
        }
    }
    let words = ["color", "gray", "bitonal", "default", "jpg", "tif", "png", "gif", "jp2", "pdf", "webp", "jpeg", "tiff", "jpx", "native", "grey", "colour",
        "", "0", "-0", "1", "90", "180.42", "359.99997", "360", "360.0", "360.00003", "360.1", "361", "-0.0", "-1e-45", "-1", "1e-45", "1e39", "inf", "-inf", "nan", "-nan", "+90", " 90", "0x5a", "9O", "é"];
    for w in words { for p in ["", "!", "!!", "!-", " "] { for x in ["", "!", " ", "0", ".jpg"] {
        all(&format!("{p}{w}{x}"), &mut bad);
        all(&format!("{p}{w}{x}").to_uppercase(), &mut bad);
        n += 2;
    } } }
    for (f, m) in [(Format::Jpg, "image/jpeg"), (Format::Tif, "image/tiff"), (Format::Png, "image/png"), (Format::Gif, "image/gif"),
                   (Format::Jp2, "image/jp2"), (Format::Pdf, "application/pdf"), (Format::Webp, "image/webp")] {
        compare("mime", m, Ok(f.mime()), m, &mut bad);
        n += 1;
    }
    println!("COMPARED {n}");
    assert_eq!(bad, 0);
}
