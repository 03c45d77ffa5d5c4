// bounded stand-in and replay of refutations: decode_image_request against an independent oracle
fn unpct(t: &str) -> Result<String, ()> {
    let b = t.as_bytes();
    let (mut o, mut i) = (Vec::new(), 0);
    let h = |c: u8| (c as char).to_digit(16);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && h(b[i + 1]).is_some() && h(b[i + 2]).is_some() {
            o.push((h(b[i + 1]).unwrap() * 16 + h(b[i + 2]).unwrap()) as u8);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).map_err(|_| ())
}

fn want(path: &str) -> Option<Result<ImageRequest, ImageRequestError>> {
    use ImageRequestError as E;
    let seg: Vec<&str> = path[1..].split('/').collect();
    if seg.len() > 5 { return None }
    let miss = |n| Some(Err(E::UriMissingElement(n)));
    let Ok(id) = unpct(seg[0]) else { return Some(Err(E::UriNotUtf8("identifier"))) };
    let region = match seg.get(1) { None => return miss("region"), Some(s) => match s.parse::<Region>() { Ok(v) => v, Err(e) => return Some(Err(E::ParseError(e))) } };
    let size = match seg.get(2) { None => return miss("size"), Some(s) => match s.parse::<Size>() { Ok(v) => v, Err(e) => return Some(Err(E::ParseError(e))) } };
    let rotation = match seg.get(3) { None => return miss("rotation"), Some(s) => match s.parse::<Rotation>() { Ok(v) => v, Err(e) => return Some(Err(E::ParseError(e))) } };
    let Some(last) = seg.get(4) else { return miss("quality") };
    let Some(dot) = last.find('.') else { return miss("format") };
    let q = match last[..dot].parse::<Quality>() { Ok(v) => v, Err(e) => return Some(Err(E::ParseError(e))) };
    let f = match last[dot + 1..].parse::<Format>() { Ok(v) => v, Err(e) => return Some(Err(E::ParseError(e))) };
    Some(Ok(ImageRequest::new(id, region, size, rotation, q, f)))
}

fn compare(p: &str, n: &mut u32, bad: &mut u32) {
    let got = std::panic::catch_unwind(|| decode_image_request(p));
    *n += 1;
    let ok = match (&got, want(p)) {
        (Ok(_), None) => true,
        (Ok(g), Some(w)) => {
            if let (Ok(g), Ok(w)) = (g, &w) {
                if g.identifier() != w.identifier() || g.region() != w.region() || g.size() != w.size() || g.rotation() != w.rotation()
                    || g.quality() != w.quality() || g.format() != w.format() { *bad += 1; println!("MISMATCH request {p:?}"); }
            }
            *g == w
        }
        (Err(_), _) => false,
    };
    if !ok {
        *bad += 1;
        if *bad < 20 { println!("MISMATCH request {p:?}: code {got:?}, specification {:?}", want(p)); }
    }
}

#[test]
fn request_oracle() {
    let (mut n, mut bad) = (0u32, 0u32);
    if let Ok(f) = std::fs::read_to_string(std::env::var("LAYA_VERIF_INPUTS").unwrap_or_default()) {
        for l in f.lines() {
            let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
            if let Ok(s) = String::from_utf8(b) { if s.starts_with('/') { compare(&s, &mut n, &mut bad); } }
        }
    }
    let ids = ["", "a", "a%252Fb", "%2525", "a+b", "..%2F..%2Fx", "%00", "a%2Fb", "a%20+%", "%E4%BD%A0", "%FF", "é", "full"];
    let rs = ["full", "square", "0,1,2,3", "pct:1,2,3,4", "1,2,0,4", "", "max", "%66ull"];
    let ss = ["max", "^max", "1,", "!2,3", "pct:50", "", "full", "0,"];
    let ts = ["0", "!90", "360", "361", "", "x", "max"];
    let qs = ["default.jpg", "color.webp", "gray.tif", "bitonal.jp2", "default", "jpg.default", ".", "", "default.jpg.png", "bad.gif", "default.bad", ".png", "color."];
    for i in ids {
        compare(&format!("/{i}"), &mut n, &mut bad);
        for r in rs {
            compare(&format!("/{i}/{r}"), &mut n, &mut bad);
            for s in ss {
                compare(&format!("/{i}/{r}/{s}"), &mut n, &mut bad);
                for t in ts {
                    compare(&format!("/{i}/{r}/{s}/{t}"), &mut n, &mut bad);
                    for q in qs { for x in ["", "/", "/x/y"] { compare(&format!("/{i}/{r}/{s}/{t}/{q}{x}"), &mut n, &mut bad); } }
                }
            }
        }
    }
    println!("COMPARED {n}");
    assert_eq!(bad, 0);
}
