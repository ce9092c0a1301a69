fn main() { #[cfg(sx_replay)] { let mut a = std::env::args().skip(1); let h = a.next().unwrap(); let vals = a.map(|v| v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).collect(); rsx::sx::replay(&h, vals); } }
