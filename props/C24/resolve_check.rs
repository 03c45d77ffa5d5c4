// bounded: the real src/resolve.rs compiled against a recording stand-in for glommio
#[path = "@REPO@/src/resolve.rs"]
mod resolve;

#[cfg(test)]
mod verif {
    use crate::resolve::DiskImageSource;
    use std::future::Future;
    use std::path::Path;

    #[test]
    fn resolve_oracle() {
        let (mut n, mut bad) = (0u32, 0u32);
        let mut check = |root: &str, s: &str| {
            n += 1;
            let refuse = s.is_empty() || s.contains('\0') || s.starts_with('/') || s.split('/').any(|c| c == "..");
            let open = s == "." || s.starts_with("./");
            glommio::OPENED.with(|o| o.borrow_mut().clear());
            let got = std::panic::catch_unwind(|| {
                let src = DiskImageSource::new(Path::new(root).into());
                let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
                let fut = src.resolve(s);
                let mut fut = std::pin::pin!(fut);
                matches!(fut.as_mut().poll(&mut cx), std::task::Poll::Ready(Ok(_)))
            });
            let opened = glommio::OPENED.with(|o| o.borrow().clone());
            let want = format!("{root}/{s}");
            let ok = match &got {
                Err(_) => false,
                Ok(true) => !refuse && opened.len() == 1 && opened[0].to_str() == Some(&want),
                Ok(false) => (refuse || open) && opened.is_empty(),
            };
            if !ok {
                bad += 1;
                if bad < 20 { println!("MISMATCH identifier {s:?}: opened {opened:?}, result {got:?}, must be refused: {refuse}"); }
            }
        };
        if let Ok(f) = std::fs::read_to_string(std::env::var("LAYA_VERIF_INPUTS").unwrap_or_default()) {
            for l in f.lines() {
                let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
                if let Ok(s) = String::from_utf8(b) { check("/image/root", &s); }
            }
        }
        let v = ["", "a", "..", ".", "...", "a..", "..a", ".a", "a.b", "é", "\0", "..\\", "\\..\\b", "%2e%2e", "%2F", "~", " ", "* "];
        for root in ["/image/root", "share"] {
            for a in v { check(root, a); for b in v { check(root, &format!("{a}/{b}")); for c in v { check(root, &format!("{a}/{b}/{c}"));
                for d in v { check(root, &format!("{a}/{b}/{c}/{d}")); } } } }
        }
        println!("COMPARED {n}");
        assert_eq!(bad, 0);
    }
}
