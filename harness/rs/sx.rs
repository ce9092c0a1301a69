// The harness appended to watcher-rs/src/lib.rs.  Under Kani every value of any() is
// symbolic; in a native replay it is the counterexample's.
#[cfg(any(kani, sx_replay))]
pub mod sx {
    use super::*;
    use core::ptr::addr_of_mut;
    #[cfg(kani)] pub fn any_bytes<const N: usize>() -> [u8; N] { kani::any() }
    #[cfg(kani)] pub fn assume(b: bool) { kani::assume(b) }
    #[cfg(not(kani))] static VALUES: std::sync::Mutex<std::collections::VecDeque<Vec<u8>>> = std::sync::Mutex::new(std::collections::VecDeque::new());
    #[cfg(not(kani))] pub fn any_bytes<const N: usize>() -> [u8; N] { let mut r = [0; N]; let mut i = 0; while i < N { let v = VALUES.lock().unwrap().pop_front().expect("SX-DIVERGES"); for b in v { r[i] = b; i += 1; } } r }
    #[cfg(not(kani))] pub fn assume(b: bool) { if !b { println!("SX-DIVERGES"); std::process::exit(7); } }
    #[cfg(not(kani))] pub fn replay(h: &str, vals: Vec<Vec<u8>>) { *VALUES.lock().unwrap() = vals.into(); match h { "close" => close(), "open_path" => open_path(), "kinds" => kinds(), "text0" => text0(), "text1" => text1(), "text2" => text2(), "text3" => text3(), "text4" => text4(), "text5" => text5(), "text6" => text6(), "text7" => text7(), "assoc" => assoc(), "order" => order(), "names" => names(), _ => panic!("no such harness") } println!("SX-END"); }
    fn any_u8() -> u8 { any_bytes::<1>()[0] }
    fn any_bool() -> bool { any_u8() & 1 == 1 }
    macro_rules! check { ($c:expr, $id:literal) => { let c: bool = $c; #[cfg(not(kani))] { if !c { println!("SX-CHECK-FAIL {}", $id); std::process::exit(3); } } #[cfg(kani)] assert!(c, $id); } }

    // the C library, as its header describes it
    static mut CB: wtr_watcher_callback = None; static mut CX: *mut c_void = core::ptr::null_mut();
    static mut HANDLE: [u8; 4] = [0; 4]; static mut OPENS: u32 = 0; static mut CLOSES: u32 = 0; static mut ANSWER: bool = true; static mut REFUSE: bool = false; static mut PATH: [u8; 8] = [255; 8]; static mut DIE: bool = false; static mut LIVE: bool = true;
    pub unsafe fn open(p: *const c_char, cb: wtr_watcher_callback, cx: *mut c_void) -> *mut c_void {
        OPENS += 1; let mut i = 0; while i < 8 { PATH[i] = *p.add(i) as u8; if PATH[i] == 0 { break; } i += 1; }
        if REFUSE { return core::ptr::null_mut(); } CB = cb; CX = cx; addr_of_mut!(HANDLE) as *mut c_void }
    pub unsafe fn close_(w: *mut c_void) -> bool {
        if w.is_null() { return false; }
        check!(w == addr_of_mut!(HANDLE) as *mut c_void, "rs-close:own-handle");
        CLOSES += 1; check!(CLOSES == 1, "rs-close:closed-once"); // the handle may be another watcher's by now
        check!(LIVE, "rs-close:queue-outlives-watcher");
        if DIE { send(3, 4, 3, b"\0", core::ptr::null()); } ANSWER }
    unsafe fn send(t: i64, pt: i8, et: i8, p: &[u8], a: *const c_char) { (CB.unwrap())(wtr_watcher_event { effect_time: t, path_name: p.as_ptr() as *const c_char, associated_path_name: a, effect_type: et, path_type: pt }, CX); }
    // CStr::from_ptr calls strlen, which Kani does not have
    #[cfg(kani)] unsafe fn from_ptr<'a>(p: *const c_char) -> &'a CStr { let n = if SHAPE != 255 { shape_len() } else { let mut n = 0; while *p.add(n) != 0 { n += 1; } n }; CStr::from_bytes_with_nul_unchecked(core::slice::from_raw_parts(p as *const u8, n + 1)) }
    // Text of one shape (all its lengths are then concrete): what the standard library decodes it to is documented.
    // 0 ASCII, 1 a byte which is not text, 2 two ASCII, 3 one two-byte character, 4 ASCII then not text, 5 not text then ASCII, 6 two bytes which are not text, 7 one cut character of two bytes
    static mut SHAPE: u8 = 255;
    fn lead(a: u8, b: u8) -> bool { (a >= 0xc2 && a <= 0xdf) && b >= 0x80 && b <= 0xbf }
    fn cut(a: u8, b: u8) -> bool { match a { 0xe0 => b >= 0xa0 && b <= 0xbf, 0xed => b >= 0x80 && b <= 0x9f, 0xe1..=0xef => b >= 0x80 && b <= 0xbf, 0xf0 => b >= 0x90 && b <= 0xbf, 0xf1..=0xf3 => b >= 0x80 && b <= 0xbf, 0xf4 => b >= 0x80 && b <= 0x8f, _ => false } }
    fn shaped(b: &[u8]) -> bool { unsafe { match SHAPE { 0 => b[0] > 0 && b[0] < 128, 1 => b[0] >= 128, 2 => b[0] > 0 && b[0] < 128 && b[1] > 0 && b[1] < 128, 3 => lead(b[0], b[1]), 4 => b[0] > 0 && b[0] < 128 && b[1] >= 128, 5 => b[0] >= 128 && b[1] > 0 && b[1] < 128, 6 => b[0] >= 128 && b[1] >= 128 && !lead(b[0], b[1]) && !cut(b[0], b[1]), 7 => cut(b[0], b[1]), _ => false } } }
    fn shape_len() -> usize { unsafe { if SHAPE <= 1 { 1 } else { 2 } } }
    #[cfg(kani)] static mut OUT: [u8; 6] = [0xef, 0xbf, 0xbd, 0xef, 0xbf, 0xbd];
    #[cfg(kani)] unsafe fn bytes<'a>(p: *const u8, n: usize) -> &'a str { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)) }
    #[cfg(kani)] fn lossy<'a>(b: &'a [u8]) -> std::borrow::Cow<'a, str> { unsafe { let o = addr_of_mut!(OUT) as *mut u8; match SHAPE { 255 | 0 | 2 | 3 => std::borrow::Cow::Borrowed(bytes(b.as_ptr(), b.len())), 1 | 7 => std::borrow::Cow::Owned(bytes(o, 3).to_string()), 4 => { let q = [b[0], 0xef, 0xbf, 0xbd]; std::borrow::Cow::Owned(bytes(q.as_ptr(), 4).to_string()) } 5 => { let q = [0xef, 0xbf, 0xbd, b[1]]; std::borrow::Cow::Owned(bytes(q.as_ptr(), 4).to_string()) } _ => std::borrow::Cow::Owned(bytes(o, 6).to_string()) } } }
    #[cfg(kani)] fn decode(b: &[u8]) -> Result<&str, core::str::Utf8Error> { unsafe { match SHAPE { 255 | 0 | 2 | 3 => Ok(core::str::from_utf8_unchecked(b)), _ => Err(core::mem::zeroed()) } } }
    fn waker() -> core::task::Waker { use core::task::*; const T: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(core::ptr::null(), &T), |_| {}, |_| {}, |_| {}); unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &T)) } }
    fn next(w: &mut Watch) -> Poll<Option<Event>> { let k = waker(); let mut cx = Context::from_waker(&k); Pin::new(w).poll_next(&mut cx) }
    fn watch() -> Option<Watch> { match Watch::try_new("/w") { Ok(w) => Some(w), Err(_) => None } }

    /// Watchers closed explicitly or not, well or badly, then dropped.
    #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(10))] #[cfg_attr(kani, kani::stub(core::ffi::CStr::from_ptr, from_ptr))] #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, lossy))] #[cfg_attr(kani, kani::stub(core::str::from_utf8, decode))]
    pub fn close() { unsafe {
        ANSWER = any_bool(); DIE = any_bool(); let n = any_u8() & 3; assume(n <= 2);
        if let Some(w) = watch() {
            if n >= 1 { let r = w.close(); check!(r.is_ok() == ANSWER, "rs-close:answer"); check!(CLOSES == 1, "rs-close:closes"); }
            if n >= 2 { let r = w.close(); check!(r.is_err(), "rs-close:again"); }
            drop(w); check!(CLOSES == 1, "rs-close:released"); check!(OPENS == 1, "rs-close:opened-once"); } else { check!(false, "rs-close:opens"); } } }

    /// Paths with any characters, refused or not.
    #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(12))]
    pub fn open_path() { unsafe {
        REFUSE = any_bool(); let b = any_bytes::<3>(); let n = (any_u8() & 3) as usize; let mut i = 0; while i < 3 { assume(b[i] < 128); i += 1; }
        let mut nul = false; i = 0; while i < n { if b[i] == 0 { nul = true; } i += 1; }
        let s = core::str::from_utf8_unchecked(&b[..n]); let r = Watch::try_new(s);
        check!(r.is_ok() == (!nul && !REFUSE), "rs-convert:open-result");
        if nul { check!(OPENS == 0, "rs-convert:no-other-path"); } else { check!(OPENS == 1, "rs-convert:opened"); i = 0; while i < n { check!(PATH[i] == b[i], "rs-convert:path"); i += 1; } check!(PATH[n] == 0, "rs-convert:path-end"); }
        if r.is_err() { check!(CLOSES == 0, "rs-convert:nothing-to-close"); } core::mem::forget(r); } }

    fn effect(e: &EffectType) -> i8 { match e { EffectType::Rename => WTR_WATCHER_EFFECT_RENAME, EffectType::Modify => WTR_WATCHER_EFFECT_MODIFY, EffectType::Create => WTR_WATCHER_EFFECT_CREATE, EffectType::Destroy => WTR_WATCHER_EFFECT_DESTROY, EffectType::Owner => WTR_WATCHER_EFFECT_OWNER, EffectType::Other => WTR_WATCHER_EFFECT_OTHER } }
    fn ptype(e: &PathType) -> i8 { match e { PathType::Dir => WTR_WATCHER_PATH_DIR, PathType::File => WTR_WATCHER_PATH_FILE, PathType::HardLink => WTR_WATCHER_PATH_HARD_LINK, PathType::SymLink => WTR_WATCHER_PATH_SYM_LINK, PathType::Watcher => WTR_WATCHER_PATH_WATCHER, PathType::Other => WTR_WATCHER_PATH_OTHER } }
    /// Any time, effect and type.
    #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(10))] #[cfg_attr(kani, kani::stub(core::ffi::CStr::from_ptr, from_ptr))] #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, lossy))] #[cfg_attr(kani, kani::stub(core::str::from_utf8, decode))]
    pub fn kinds() { unsafe { if let Some(mut w) = watch() {
        let t = i64::from_le_bytes(any_bytes::<8>()); let e = any_u8() as i8; let p = any_u8() as i8;
        send(t, p, e, b"\0", core::ptr::null());
        if let Poll::Ready(Some(ev)) = next(&mut w) {
            check!(ev.effect_time == t, "rs-convert:time"); check!(effect(&ev.effect_type) == if (0..=5).contains(&e) { e } else { WTR_WATCHER_EFFECT_OTHER }, "rs-convert:effect"); check!(ptype(&ev.path_type) == if (0..=5).contains(&p) { p } else { WTR_WATCHER_PATH_OTHER }, "rs-convert:type");
            check!(ev.associated_path_name.is_none(), "rs-convert:no-associated"); core::mem::forget(ev);
        } else { check!(false, "rs-convert:delivered"); } core::mem::forget(w); } } }

    // the same text, or for bytes which are not text, a mark in their place
    fn same(s: &str, b: &[u8; 3]) -> bool { unsafe {
        let n = shape_len(); let s = s.as_bytes(); let mut i = 0;
        match SHAPE { 0 | 2 | 3 => { if s.len() != n { return false; } while i < n { if s[i] != b[i] { return false; } i += 1; } true } 4 => s.len() > 1 && s[0] == b[0], 5 => s.len() > 1 && s[s.len() - 1] == b[1], _ => !s.is_empty() } } }
    fn text(shape: u8) { unsafe { if let Some(mut w) = watch() {
        let mut b = [0u8; 3]; b[0] = any_u8(); b[1] = any_u8(); SHAPE = shape; if shape_len() == 1 { b[1] = 0; } assume(shaped(&b));
        send(1, 1, 1, &b, b.as_ptr() as *const c_char);
        if let Poll::Ready(Some(ev)) = next(&mut w) { check!(same(&ev.path_name, &b), "rs-convert:text"); if let Some(s) = &ev.associated_path_name { check!(same(s, &b), "rs-convert:associated-text"); } else { check!(false, "rs-convert:associated-lost"); } core::mem::forget(ev); } else { check!(false, "rs-convert:delivered"); } core::mem::forget(w); } } }
    macro_rules! texts { ($($n:ident $s:literal),*) => { $(
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(10))] #[cfg_attr(kani, kani::stub(core::ffi::CStr::from_ptr, from_ptr))] #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, lossy))] #[cfg_attr(kani, kani::stub(core::str::from_utf8, decode))]
        pub fn $n() { text($s) })* } }
    texts!(text0 0, text1 1, text2 2, text3 3, text4 4, text5 5, text6 6, text7 7);
    /// A path and an associated path.
    #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(10))] #[cfg_attr(kani, kani::stub(core::ffi::CStr::from_ptr, from_ptr))] #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, lossy))] #[cfg_attr(kani, kani::stub(core::str::from_utf8, decode))]
    pub fn assoc() { unsafe { if let Some(mut w) = watch() {
        send(1, 1, 1, b"p\0", b"q\0".as_ptr() as *const c_char);
        if let Poll::Ready(Some(ev)) = next(&mut w) { check!(ev.path_name.as_bytes().len() == 1 && ev.path_name.as_bytes()[0] == b'p', "rs-convert:path-with-associated"); if let Some(s) = &ev.associated_path_name { check!(s.as_bytes().len() == 1 && s.as_bytes()[0] == b'q', "rs-convert:associated"); } else { check!(false, "rs-convert:associated-lost"); } core::mem::forget(ev); } else { check!(false, "rs-convert:delivered"); } core::mem::forget(w); } } }
    /// Events read in between, all at the end, or after closing.
    #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(10))] #[cfg_attr(kani, kani::stub(core::ffi::CStr::from_ptr, from_ptr))] #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, lossy))] #[cfg_attr(kani, kani::stub(core::str::from_utf8, decode))]
    pub fn order() { unsafe { if let Some(mut w) = watch() {
        let early = any_bool(); DIE = any_bool(); let closes = any_bool(); let mut seen = 0i64;
        send(1, 1, 1, b"\0", core::ptr::null()); if early { seen = drain(&mut w, seen, 1); }
        send(2, 1, 1, b"\0", core::ptr::null()); let mut sent = 2;
        if closes { let _ = w.close(); if DIE { sent = 3; } }
        seen = drain(&mut w, seen, sent); check!(seen == sent, "rs-convert:each-once");
        core::mem::forget(w); } } }
    fn drain(w: &mut Watch, mut seen: i64, sent: i64) -> i64 { while seen < sent { if let Poll::Ready(Some(ev)) = next(w) { seen += 1; check!(ev.effect_time == seen, "rs-convert:order"); core::mem::forget(ev); } else { check!(false, "rs-convert:each-once"); return seen; } } check!(!matches!(next(w), Poll::Ready(Some(_))), "rs-convert:no-more"); seen }

    include!("names.rs");
}
